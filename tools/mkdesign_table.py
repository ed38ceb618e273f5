"""Print the table of seeded changes for DESIGN.md (from seeded/*/meta.json)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    print("| %s | %s |" % (d, m["needs"].replace("\n", " ").replace("|", "/")))
