#!/bin/sh
# rewrite the table of planted changes at the end of DESIGN.md
cd "$(dirname "$0")/.." || exit 1
sed '/^| change | needs |$/,$d' DESIGN.md > DESIGN.tmp
printf '| change | needs |\n|---|---|\n' >> DESIGN.tmp
python3 tools/mkdesign_table.py >> DESIGN.tmp
mv DESIGN.tmp DESIGN.md
