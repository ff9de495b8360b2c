#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

PARSE = "src/parser.rs"; ERD = "src/erd.rs"; LAY = "src/layout.rs"; MIR = "src/mir.rs"
REN = "src/renderer.rs"; GEO = "src/geometry.rs"; MAIN = "src/main.rs"

prop("C01", "A source is accepted exactly when it is a sentence of the language",
 "Parsing a source text yields a module and no diagnostics if and only if the text is a sentence of the documented ERD grammar: one `erd` module and nothing else, with blanks, tabs and `//` comments allowed between tokens and any run of newlines (LF or CRLF) and semicolons usable wherever the grammar has padding or a separator. Every other text yields at least one diagnostic.",
 ["inputs"], "every source text: every sequence of tokens, every spelling of every token",
 "The unit tests parse two valid scripts and three examples; no invalid text is ever parsed, and almost no alternative of the grammar is taken in more than one position.",
 [PARSE], [("token kinds and their priorities", PARSE+": tokenizer"), ("grammar combinators and end-of-input", PARSE+": erd_module_parser")],
 observe=["parser::parse"])
prop("C02", "The module holds exactly what an accepted source declares",
 "The module obtained from an accepted source has the module name, the entities with their fields (name, type, key) and the relations (both ends, with or without field part) that the text declares, each exactly once and in source order. Plain names are taken verbatim and backquoted names are taken with their escape sequences decoded, even where they spell a keyword.",
 ["inputs"], "every accepted source, any number and mix of entities, fields, relations and spellings of names",
 "The tests compare two printed ASTs; most combinations of type, key, name spelling, escape and position never occur in them.",
 [PARSE, ERD], [("AST building maps", PARSE+": erd_module_parser"), ("escape decoding", PARSE+": tokenizer"), ("add_entry / add_field", ERD)],
 observe=["parser::parse", "erd::Module::entries"])
prop("C03", "Blanks, comments, separators and quoting do not change the meaning",
 "Two sources that differ only in blanks and tabs between tokens, in comments, in LF versus CRLF line ends, in using newlines or semicolons (and how many) between declarations, or in writing a name plainly or backquoted, are both accepted or both refused, and when accepted yield the same module.",
 ["inputs"], "every pair of sources that spell the same declarations differently",
 "One test has comments in several places of one script; nothing compares two spellings of the same declarations.",
 [PARSE], [("padding, comments, newline and separator parsers", PARSE)], observe=["parser::parse"])
prop("C04", "Diagnostics point at the place where the source goes wrong",
 "For a source whose tokens are all well formed but which is not a sentence, exactly one diagnostic is given, and it starts at the first token after which no continuation could make a sentence (at the end of the text if it is only incomplete). A character run that is no token is reported at the character where reading a token became impossible. Every diagnostic lies inside the text or directly at its end, and a token listed as expected could indeed stand at that place.",
 ["inputs"], "every source text that is not a sentence, every error position",
 "No test parses an erroneous source.",
 [PARSE, MAIN], [("spans attached to tokens, end-of-input span", PARSE+": parse"), ("furthest-error selection of the combinators", PARSE)],
 observe=["parser::parse"])
prop("C05", "No source text crashes or hangs the compiler",
 "For every source text, parsing terminates, and every module it yields can be resolved, laid out, routed and rendered to a document without a panic. The command line exits normally for every readable UTF-8 source, reporting errors instead of aborting.",
 ["inputs"], "all texts, including empty, truncated, non-ASCII and garbage ones, and all accepted modules (self relations, duplicates, empty entities)",
 "Tests use five well-behaved inputs; panics in the layout and rendering code depend on the combination of box heights and relations.",
 [PARSE, ERD, LAY, REN, MAIN], [("asserts, unwraps and panics along the pipeline", LAY+", "+REN)], observe=["parser::parse", "layout::LayoutEngine", "renderer::Renderer::render", "seiren binary"])
prop("C06", "Stray characters are reported once and skipped",
 "A run of text from a character that cannot start a token up to the next place where a token can be read gives exactly one lexical diagnostic and is otherwise ignored: the module is the one obtained from the remaining tokens. If no token follows the run, no module is produced. (Text behind a backquoted name that is itself ill-formed is not bound by this, only refused.)",
 ["inputs"], "every position and content of stray text in every source",
 "No test contains a stray character.",
 [PARSE], [("skip_then_retry_until recovery", PARSE+": tokenizer")], observe=["parser::parse"])
prop("C07", "Every declaration becomes one box and every resolvable relation one edge",
 "Resolving a module gives one box per entity definition in declaration order, with one header row carrying the entity name followed by one row per field in order carrying its name, type and key. Every relation whose two ends name a declared entity, or a declared field of it, gives exactly one edge, in order, joining exactly those two boxes or rows (the last declaration of a name wins) wherever in the module the declarations stand; any other relation gives none.",
 ["inputs"], "every module: any order of definitions and relations, duplicate names, unknown ends, self and repeated relations",
 "Tests resolve four modules without duplicates, forward references, entity-level or dangling relations.",
 [ERD, MIR], [("node_paths map and two passes", ERD+": Module::into_mir"), ("Document graph", MIR)],
 state=[("node_paths","name path to node",ERD)], observe=["erd::Module::into_mir","mir::Document"])
prop("C08", "Boxes form a row-major grid of three columns without overlap",
 "Placing the nodes of a document puts its boxes in declaration order into a grid of three columns, left to right and then top to bottom: boxes of one column share left edge and width, boxes of one grid row share the top edge, neighbouring columns and rows are a fixed gap apart (a grid row starts below the tallest box of the previous one), so no two boxes overlap. The returned view box starts at the origin, has positive size and contains every box with the full margin, for a document without boxes too.",
 ["inputs"], "every document: any number of boxes and any heights",
 "Golden files have at most five boxes in two grid rows.",
 [LAY], [("grid placement, view box", LAY+": place_nodes")], observe=["layout::LayoutEngine::place_nodes","mir::NodeData::rect"])
prop("C09", "The rows of a box tile it from top to bottom",
 "After placement the header and field rows of a box have equal height and the full width of the box, and follow each other in order without gap or overlap from the top edge of the box to its bottom edge.",
 ["inputs"], "every document: any number of rows per box, any grid position",
 "Golden files cover boxes with three to seven rows.",
 [LAY], [("row placement", LAY+": place_nodes")], observe=["mir::NodeData::rect"])
prop("C10", "Connection points sit at the middle of free sides and face outwards",
 "Placing connection points gives every box one at the middle of each side, and every row one at the middle of its left and right sides, plus the top side for the first row and the bottom side for the last row of its box; each faces away from the box. There are no others, however often the points are placed.",
 ["inputs","histories"], "every placed document, any number of rows, repeated placement, documents that grew since",
 "Ports are not asserted anywhere; golden files only show the ones chosen by a route.",
 [LAY, MIR], [("terminal port placement", LAY+": place_terminal_ports")], observe=["mir::NodeData::terminal_ports"])
prop("C11", "Routes are orthogonal lines from one end's port to the other's",
 "After drawing, every edge between two laid-out nodes has a path of at least two points whose consecutive points differ in exactly one coordinate, which never turns back on itself, starts at a connection point of its source and ends at a connection point of its target, leaves the first and arrives at the second from the side they face.",
 ["inputs","configurations"], "every document, however its boxes were placed (without overlaps), and every set of relations, including self relations and coinciding ports",
 "Eight routes are pinned by golden files, none of them between box sides, of a self relation or around uneven boxes.",
 [LAY], [("junction graph and shortest path", LAY+": draw_edge_path"), ("orientation-aware connectivity", LAY+": connect_nearest_neighbor_edge_junctions")], observe=["mir::EdgeData::path_points"])
prop("C12", "Routes never run through a box or outside the picture",
 "No part of a route lies inside any entity box, including the boxes it connects, a route touches box borders only at its two ends, and all of it lies inside the view box.",
 ["inputs","configurations"], "every document and every set of relations, placed by the engine or in columns and rows at least a gap (80 units) apart",
 "Golden files cover a handful of boxes; whether a route is blocked depends on all box heights and the order in which junctions are created.",
 [LAY, GEO], [("collision test of candidate connections", LAY+": connect_nearest_neighbor_edge_junctions"), ("line/rectangle intersection", GEO+": intersected_line"), ("removal of covered junctions", LAY+": remove_overlapped_junction_nodes")], observe=["mir::EdgeData::path_points"])
prop("C13", "Routes are as short as the channels between the boxes allow",
 "Among all pairs of connection points of its two ends and all orthogonal lines through the channels around the boxes (the junctions at the corners of the boxes widened by half a gap and where the lines leaving the connection points cross the levels of those corners), a route has minimal length, up to the rounding of each of its pieces to whole units.",
 ["inputs","configurations"], "every document and every set of relations",
 "The golden files fix eight lengths; optimality over all port pairs is never stated.",
 [LAY], [("port pair search and A*", LAY+": find_shortest_edges_path, compute_shortest_path")], observe=["mir::EdgeData::path_points"])
prop("C14", "The picture shows every box and row exactly as declared and placed",
 "The SVG document has the view box handed to the renderer and contains, in document order and at the placed positions, for every box its frame, and for every row its name, its type right-aligned before the key column in the type's colour, its PK or FK badge if and only if it has that key, and a rule above it unless it is the header, which has a header bar clipped to its own box. It contains no other shapes except the background and the edges.",
 ["inputs"], "every laid-out document: any number of boxes and rows, all types and keys, all names",
 "Golden files contain few boxes and fixed text; no test varies types, keys or positions systematically.",
 [REN, ERD, "src/color.rs"], [("shape drawing", REN+": render, draw_text"), ("colours and badges", ERD+": column_type_color, EntityFieldKey::into_mir")], observe=["SVG output"])
prop("C15", "The picture shows every edge along its route",
 "For every edge the SVG contains, after all boxes and in edge order, one path and a circle at each end of its route. The path starts at the first and ends at the last point of the route, passes straight through points where the route goes straight on, and rounds every turn with a curve whose control point is the turn and whose ends lie on the two adjacent pieces of the route at equal distance, never beyond their middles and at most six units away.",
 ["inputs"], "every routed document, all sixteen combinations of directions, short and long pieces",
 "Golden files contain eight paths that use five of the eight turn directions and no short piece.",
 [REN], [("path construction", REN+": draw_edge_connection")], observe=["SVG output"])
prop("C16", "Any name is shown literally and keeps the SVG well formed",
 "Whatever characters names contain (markup, quotes, ampersands, control or non-ASCII characters, line breaks), the SVG document is well-formed XML with the same element structure as for plain names, and the text shown for a name is the name itself, apart from white-space collapsing and characters that XML cannot represent, which are replaced.",
 ["inputs"], "all names over all characters",
 "Tests only use names made of letters and underscores.",
 [REN], [("text escaping", REN+": draw_text")], observe=["SVG output"])
prop("C17", "Layout and rendering depend only on the current document",
 "The positions, connection points, routes and picture of a document are a function of its contents alone: they are the same on every run, for a layout engine that laid out other documents before, for repeated layout or rendering of the same document, and after a document grew since it was last laid out. Rendering and parsing change nothing.",
 ["histories"], "every sequence of layout phases and renderings over several documents and engines, documents edited in between",
 "Every test lays out one document once with a fresh engine.",
 [LAY, MIR, REN], [("route graph held by the engine", LAY+": SimpleLayoutEngine"), ("ports held by the nodes", MIR+": NodeData")],
 state=[("edge_route_graph","junctions of the document being drawn",LAY),("terminal_ports","ports of a node",MIR)], observe=["mir::Document","SVG output"])
prop("C18", "Unfinished layouts are refused with an error and no output",
 "Layout phases and rendering may be called in any order on any document, edited in between, without a panic (paths come from an engine, and do not turn back as they may where nodes were placed by hand). Rendering succeeds if and only if every box and row of the document is placed and every edge has a path; otherwise it returns the invalid-layout error naming a node that is not laid out (for an edge, its source), and writes nothing.",
 ["histories"], "every order and subset of the phases, with documents edited in between",
 "Tests only run the phases in the right order (one renders an empty document without edges).",
 [LAY, REN, "src/error.rs"], [("InvalidLayout checks before writing", REN+": render"), ("skipping of unplaced nodes", LAY)], observe=["renderer::Renderer::render result"])
prop("C19", "A rendering is written completely or the I/O error is returned",
 "Whatever a writer does (accepts only part of the data, is interrupted, stops accepting, fails), the bytes it accepted are a prefix of the document that would be written without faults, interruptions are retried, rendering returns success exactly if the whole document was accepted, and otherwise returns the I/O failure the writer gave, with its kind and message, without a panic.",
 ["fault_sequences"], "every sequence of short writes, interruptions, zero-length writes and errors",
 "Tests only render into a vector, which never fails.",
 [REN, "src/error.rs"], [("single write_all of the finished document", REN+": render"), ("conversion of I/O errors", "src/error.rs")], observe=["Write calls","renderer::Renderer::render result"])
prop("C20", "Printing a module with plain names and parsing it gives it back",
 "For every module whose names are plain identifiers other than keywords, the printed form of the module is a sentence of the language, and parsing it yields a module with the same name and the same entities, fields and relations in the same order.",
 ["inputs"], "every such module, including empty ones and entities without fields",
 "Tests print two modules and compare the text; they never parse what was printed.",
 [ERD, PARSE], [("Display implementations", ERD), ("grammar", PARSE)], observe=["Module::to_string","parser::parse"])
prop("C21", "The command line delivers exactly what the library computes",
 "The command reads the file named by its first argument, or standard input without one, and writes to standard output exactly the picture of the module that the text declares, with its view box, or nothing if there is no module. Standard error gets one report per diagnostic and nothing when there is none; an unreadable source or an output that cannot be written gives a failure status.",
 ["inputs","fault_sequences"], "every source text given either way, unreadable sources, failing output",
 "No test runs the command.",
 [MAIN], [("argument handling, phases, rendering", MAIN)], observe=["process exit status, stdout, stderr"])
prop("C22", "Line and rectangle intersection agrees with exact geometry",
 "A line is reported to intersect a rectangle exactly if it has a point in common with the closed rectangle and does not lie entirely in its open interior, whatever its direction; the reported pair of points are the ends of the common part. A rectangle contains exactly the points of its closed area, and insetting moves every side by the given amount, with sizes never below zero; the sides and the middle of a rectangle are those that follow from its origin and size.",
 ["inputs"], "all rectangles (also degenerate ones) and all lines",
 "Tests check some twenty lines against one rectangle.",
 [GEO], [("Liang-Barsky clipping", GEO+": intersected_line"), ("contains_point, inset_by", GEO)], observe=["geometry::Rect"])
prop("C23", "The debug overlay only adds to the picture",
 "Rendering with the route graph of the engine adds shapes behind the normal picture's last one and changes nothing else: it draws every junction and connection of the graph, the points of every route and the number of every box, for every routed document, without a panic.",
 ["inputs"], "every routed document",
 "No test renders the overlay.",
 [REN, LAY], [("debug drawing", REN+": draw_debug_info")], observe=["SVG output"])
prop("C24", "Notebook output frames exactly the rendered picture",
 "Displaying a document in a notebook prints the begin marker with the SVG media type, then exactly the document that rendering gives for the same view box, then the end marker, each on a line of its own.",
 ["inputs"], "every laid-out document, with and without view box",
 "No test uses the notebook extension.",
 ["src/evcxr.rs"], [("draw_erd, evcxr_display", "src/evcxr.rs")], observe=["process stdout"])
prop("C25", "Every report names the source and the place of its diagnostic",
 "For a source with diagnostics the command writes one report per diagnostic to standard error, in the order lexical before syntactical and as the library gives them. Each report names the source - the file as it was named, or \"(stdin)\" - and the line and column, both counted from one in characters, at which the diagnostic starts, and says what was expected there: exactly the expected set of the diagnostic, whether the text ended too early, or the diagnostic's own message.",
 ["inputs"], "every erroneous source (lines ending in LF or CRLF), every place of the error, every file name",
 "No test runs the command or looks at a report.",
 [MAIN, PARSE], [("building of reports", MAIN+": main"), ("spans in characters", PARSE+": parse")], observe=["seiren binary (standard error)"])
prop("C26", "The route graph is a sound map of the channels between the boxes",
 "After routing, the route graph of the engine has pairwise different nodes: junctions, which keep away from every box, and one node per connection point of the ends of every edge, which is found by that point's id, and no others. A connection joins two different nodes on a horizontal or vertical line that meets no box except where it starts or ends at a connection point, and leaves a connection point only on the side it faces; no two nodes are connected twice, and no connection runs across a third node; two junctions in free sight of each other with nothing between them are connected. The route of every edge runs along connections of the graph.",
 ["inputs"], "every document: any boxes, any edges, after any earlier layout",
 "No test looks at the route graph.",
 [LAY], [("building of the graph", LAY+": draw_edge_path, connect_nearest_neighbor_edge_junctions"), ("RouteGraph::add_node, add_terminal_port, add_edge", LAY)],
 state=[("RouteGraph", "junctions, connection points and connections", LAY)], observe=["layout::SimpleLayoutEngine::edge_route_graph"])
prop("C27", "A document holds exactly what was put into it",
 "Records, fields, children, edges, places, paths and connection points put into a document in any order can be read back exactly: every id keeps denoting the node or edge it was returned for, with its content; children, edges and connection points come in the order in which they were added, with the ends, path, rectangle, location and side given to them last; an operation on one of them changes nothing else.",
 ["histories"], "every history of operations on a document",
 "The one unit test creates a single field.",
 [MIR], [("Document, NodeData, EdgeData", MIR)], state=[("Document", "nodes with children, edges", MIR)], observe=["mir::Document"])
prop("C28", "Any styling of a document is drawn as given",
 "For a document put together by hand, with rounded records, rows and edges at any places, with any titles, subtitles and badges, with or without colours, fonts, backgrounds and borders, the picture has exactly the shapes the styling asks for: colours, fonts and texts as given to the element they were given to and absent where none was given, backgrounds clipped to their own box, rules in the colour of the row's border, and a path along the points of every edge. If a box or row has no place or an edge no path, there is an error naming one of them and no output.",
 ["inputs"], "every document that can be built with the interface of the document, every orthogonal path of at least two points that does not turn back",
 "All tests draw documents made from modules, which use one fixed style and the places of one engine.",
 [REN, MIR, "src/color.rs"], [("draw_text, frames, badges, rules", REN), ("shapes and builders", MIR), ("colours", "src/color.rs")], observe=["renderer::SVGRenderer::render"])
prop("C29", "Points and paths answer exactly",
 "The distance of two points is the length of the line between them, in both directions; the direction from a point to another one on its level or plumb line is the side on which that lies. A path has exactly the commands given to it, in order, behind the move to its start; its start point is that of its creation and its end point that of the last command.",
 ["inputs"], "all points and all sequences of commands",
 "Tests measure a handful of points; no test builds a path.",
 [GEO], [("Point::distance, orthogonal_direction; Path", GEO)], observe=["geometry::Point", "geometry::Path"])

prop("C30", "A route graph holds exactly the nodes and connections put into it",
 "Whatever junctions, connection points and connections are put into a route graph, in any order: nodes keep their number, place and side and come in the order in which they were first put; a junction or connection point put again (same place, same side) is the node that is there already, and two with another place or side are two nodes; a connection point is found, by its id, at the node where it was put last; a connection is kept once, whichever way round it is put; a junction can be connected on all sides and a connection point only on its own. A copy of a graph goes its own way. The overlay shows every node and every connection of any such graph.",
 ["histories"], "every history of operations on a route graph (the overlay: with level and plumb connections)",
 "No test uses the route graph.",
 [LAY], [("RouteGraph, RouteNodeData", LAY), ("draw_debug_info", REN)], state=[("RouteGraph", "nodes, connections and the nodes of connection points", LAY)], observe=["layout::RouteGraph"])

prop("C31", "Modules and definitions hold exactly what was added to them",
 "A module put together through the library has the name it was given and, in the order of the additions, every definition and relation added to it, repeated ones included; a definition has its name and its fields in the order of the additions, with their names, types and keys. Copies are independent: what is added to a module or definition later changes no copy of it and nothing it was added to. Compiling changes no module, may be repeated and come between additions; a document keeps the boxes, rows and edges the module stood for when it was compiled, whatever is added or compiled later. Modules that hold the same print the same.",
 ["histories"], "every history of creating, adding, copying and compiling on any number of modules and definitions, with any names",
 "No test builds a module through the library, copies one or compiles one twice.",
 ["src/erd.rs", MIR], [("Module, EntityDefinition: add_*, entries, fields, clone", "src/erd.rs"), ("Module::into_mir", "src/erd.rs")], state=[("Module, EntityDefinition", "the entries and fields", "src/erd.rs")], observe=["erd::Module", "erd::EntityDefinition", "mir::Document"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
