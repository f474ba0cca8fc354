"""seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parents[1]
head = "| change | property | manifests only with |\n|--------|----------|---------------------|\n"
rows = ""
for m in sorted(V.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows += "| %s | %s | %s |\n" % (m.parent.name, d["property"], d["needs"])
p = V / "DESIGN.md"
s = p.read_text()
a = s.index(head) + len(head)
b = re.compile(r"^(?!\|)", re.M).search(s, a).start()
b = s.index("\n\n", a) + 1
p.write_text(s[:a] + rows + s[b:])
