"""bugtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | check {m['property']} |")
s = open(H + "/DESIGN.md").read()
head = "| id | property | needs | caught by |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = a
while s[b:b + 1] == "|":
    b = s.index("\n", b) + 1
open(H + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
