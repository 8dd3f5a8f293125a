"""Rewrites the table of planted changes at the end of DESIGN.md (changes listed in MISSED are marked)"""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    rows.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
text = open(V + "/DESIGN.md").read()
head = text[: text.index("`tools/run_seeded.py`):") + len("`tools/run_seeded.py`):")]
body = "\n\n| check | catches |\n|---|---|\n"
for p in sorted(rows):
    body += f"| {p} | {', '.join(i + (' (missed)' if i in MISSED else '') for i in rows[p])} |\n"
open(V + "/DESIGN.md", "w").write(head + body)
print(sum(map(len, rows.values())), "changes")
