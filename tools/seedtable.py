"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    assert d.split("-")[0] == m["property"], d
    rows.append("| `%s` | %s | %s |" % (d, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(\| bug \| needs \| breaks \|\n\|---\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + "\n".join(rows) + "\n", t)
open(p, "w").write(t)
print(len(rows), "rows")
