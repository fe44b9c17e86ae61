#!/bin/sh
# regenerates corpus/footprints.json and its tags (by hand, after repairs of /repo): regen.sh REAL.json
cd "$(dirname "$0")/.." || exit 1
python3 tools/gen_corpus.py "$1" &&
python3 tools/tag_corpus.py N SkelTrace height skel &&
python3 tools/tag_corpus.py K SkelTrace graph skel &&
python3 tools/tag_corpus.py E SkelTrace debug debug &&
python3 tools/tag_clear.py &&
python3 tools/tag_turn.py
