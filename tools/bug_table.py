#!/usr/bin/env python3
"""Rewrites section 9 of DESIGN.md from seeded/*/meta.json."""
import json
import re
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
MISSED = dict(x.split(" ", 1) for x in (VERIF / "tools/missed.txt").read_text().split("\n") if x.strip()) if (VERIF / "tools/missed.txt").exists() else {}
rows = []
for m in sorted(VERIF.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    i = m.parent.name
    rows.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {MISSED.get(i) or 'check ' + d['property']} |")
text = (VERIF / "DESIGN.md").read_text()
text = re.sub(r"\n## 9\..*", "", text, flags=re.S).rstrip() + f"""

## 9. The planted bugs, and what catches them

{len(rows)} bugs (written by tools/bug_table.py from their meta.json).

| bug | what it breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
(VERIF / "DESIGN.md").write_text(text)
