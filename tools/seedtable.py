"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                                      m["what_it_breaks"].split("\n")[0].replace("|", "/")))
t = "| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows)
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
