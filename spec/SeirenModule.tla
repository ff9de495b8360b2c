------------------------------ MODULE SeirenModule ------------------------------
(* Modules and definitions as containers.  They are put together step by step,
   copied, and compiled at any time; whatever is done to one of them is done to no
   other, and a document stays what it was compiled from.
   A step is [op, a, b, c, v, f, p, q]:
     new v (<<>> or <<name>>)      draft v (<<name>>): a definition of its own
     field a f: to draft a         draftcopy a
     put a b: draft b into module a, which keeps a copy
     rel a p q                     entry a b c: entry c of module b once more, in module a
     copy a: module a              make a: compile module a                       *)
EXTENDS SeirenResolve
VARIABLES
  mods,    \* sequence of [name, entries]
  drafts,  \* sequence of [k, name, fields]
  docs     \* sequence of [boxes, edges]
ovars == <<mods, drafts, docs>>
ModuleInit == mods = <<>> /\ drafts = <<>> /\ docs = <<>>
Has(a) == a \in 1..Len(mods)
Add(a, e) == mods' = [mods EXCEPT ![a].entries = Append(@, e)]

NewModule(s) == s.op = "new" /\ mods' = Append(mods, [name |-> s.v, entries |-> <<>>]) /\ UNCHANGED <<drafts, docs>>
NewDraft(s) == s.op = "draft" /\ drafts' = Append(drafts, [k |-> "def", name |-> s.v[1], fields |-> <<>>]) /\ UNCHANGED <<mods, docs>>
NewField(s) == /\ s.op = "field" /\ s.a \in 1..Len(drafts)
               /\ drafts' = [drafts EXCEPT ![s.a].fields = Append(@, s.f)] /\ UNCHANGED <<mods, docs>>
CopyDraft(s) == s.op = "draftcopy" /\ s.a \in 1..Len(drafts) /\ drafts' = Append(drafts, drafts[s.a]) /\ UNCHANGED <<mods, docs>>
PutDraft(s) == s.op = "put" /\ Has(s.a) /\ s.b \in 1..Len(drafts) /\ Add(s.a, drafts[s.b]) /\ UNCHANGED <<drafts, docs>>
PutRel(s) == s.op = "rel" /\ Has(s.a) /\ Add(s.a, [k |-> "rel", a |-> s.p, b |-> s.q]) /\ UNCHANGED <<drafts, docs>>
PutEntry(s) == /\ s.op = "entry" /\ Has(s.a) /\ Has(s.b) /\ s.c \in 1..Len(mods[s.b].entries)
               /\ Add(s.a, mods[s.b].entries[s.c]) /\ UNCHANGED <<drafts, docs>>
CopyModule(s) == s.op = "copy" /\ Has(s.a) /\ mods' = Append(mods, mods[s.a]) /\ UNCHANGED <<drafts, docs>>
Make(s) == s.op = "make" /\ Has(s.a) /\ docs' = Append(docs, DocOf(mods[s.a])) /\ UNCHANGED <<mods, drafts>>
ModuleStep(s) == \/ NewModule(s) \/ NewDraft(s) \/ NewField(s) \/ CopyDraft(s) \/ PutDraft(s)
                 \/ PutRel(s) \/ PutEntry(s) \/ CopyModule(s) \/ Make(s)
-----------------------------------------------------------------------------
Starts(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* nothing is taken back, and a step touches one thing
Grows ==
  [][/\ Starts(docs, docs') /\ Len(drafts) <= Len(drafts') /\ Len(mods) <= Len(mods')
     /\ \A i \in 1..Len(mods) : mods'[i].name = mods[i].name /\ Starts(mods[i].entries, mods'[i].entries)
     /\ \A i \in 1..Len(drafts) : drafts'[i].name = drafts[i].name /\ Starts(drafts[i].fields, drafts'[i].fields)
     /\ \A i, j \in 1..Len(mods) : (mods'[i] # mods[i] /\ mods'[j] # mods[j]) => i = j
     /\ (docs' # docs => mods' = mods /\ drafts' = drafts)
    ]_ovars
\* the last document of a module that has not been touched since is still its document
DocsSound == \A d \in 1..Len(docs) : \A i \in 1..Len(docs[d].edges) :
  \A r \in {docs[d].edges[i].a, docs[d].edges[i].b} :
    r[1] \in 1..Len(docs[d].boxes) /\ (Len(r) = 2 => r[2] \in 2..Len(docs[d].boxes[r[1]]))
=============================================================================
