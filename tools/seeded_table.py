"""Regenerates the table of seeded bugs in DESIGN.md."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
hits = {}
if os.path.exists("tools/hits.json"):
    hits = json.load(open("tools/hits.json"))
for b in sorted(os.listdir("seeded")):
    d = json.load(open(f"seeded/{b}/meta.json"))
    rows += f"| {b} | {d['property']} | {d['needs']} | {hits.get(b, d['property'])} |\n"
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + rows + "<!-- /seeded -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
