"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("- `%s` (%s): %s. Needs %s. Caught by %s." % (f.split("/")[1], m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m["property"]))
s = open("DESIGN.md").read()
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
