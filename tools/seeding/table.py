"""Writes the table of seeded bugs into DESIGN.md (between the two markers)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parents[2]
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"].rstrip(".")))
text = (root / "DESIGN.md").read_text()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
head = "| bug (every one is caught by the check of its property) | property | what it breaks |\n|---|---|---|\n"
text = text[:text.index(a) + len(a)] + head + "\n".join(rows) + "\n" + text[text.index(b):]
(root / "DESIGN.md").write_text(text)
