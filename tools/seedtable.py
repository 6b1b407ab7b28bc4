#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(VERIF + "/seeded/*/meta.json"):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
path = VERIF + "/DESIGN.md"
text = open(path).read()
head = "| property | id | what it breaks |\n|---|---|---|\n"
i = text.index(head) + len(head)
end = re.search(r"\n(?!\|)", text[i - 1:])
text = text[:i] + "\n".join(sorted(rows)) + text[i - 1 + end.start():]
open(path, "w").write(text)
