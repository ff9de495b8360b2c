#!/bin/bash
# tools/revert_fixes.sh: undoes each repair in turn and says which check notices.
cd /repo
run() { c=$1; shift
  git diff $c $c~1 | git apply --3way 2>/dev/null || git diff $c $c~1 | git apply || { echo "$c does not undo"; git checkout -q HEAD -- .; return; }
  git reset -q
  for p in "$@"; do (cd /verif && timeout 900 python3 check.py $p 2>&1 | tail -1 | cut -c1-150 | sed "s/^/$c $p /"); done
  git checkout -q -- .
}
run 37d11ee C22; run 1e46f4d C12; run 6738196 C08; run 8bc4d67 C05 C18; run 4825dc8 C17; run 8331d62 C18; run 875f4bf C01
run 9ef131c C01; run 8c98971 C07; run 57a4780 C05 C21; run d06b5c9 C15; run 758d250 C16; run 47ea265 C10 C17; run b61891d C18
run ae968c6 C18; run af50932 C21; run 596f0c2 C21; run 4526f97 C12 C26; run d1ca3a9 C13
