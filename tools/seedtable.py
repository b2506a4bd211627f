"""Writes the table of planted bugs into DESIGN.md (between the headings)."""
import json
import pathlib
import re

R = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (d.name, m["property"], m["needs"]))
t = (R / "DESIGN.md").read_text()
table = "\n".join(rows)
t = re.sub(r"SEEDTABLE|\| planted bug \|(.|\n)*?(?=\n\n)", lambda _: table, t, 1)
(R / "DESIGN.md").write_text(t)
