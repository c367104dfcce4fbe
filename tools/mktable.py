#!/usr/bin/env python3
"""Author-time helper: the table of planted bugs in DESIGN.md."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
late = set((root / "tools" / "strengthened.txt").read_text().split())
rows = ["| planted bug | caught by | needs | strengthened |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {'yes' if d.name in late else ''} |")
t = (root / "DESIGN.md").read_text()
t = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", t, flags=re.S)
(root / "DESIGN.md").write_text(t)
