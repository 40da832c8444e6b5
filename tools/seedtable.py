"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (a bookkeeping aid; no check uses it)."""
import json, glob, os, re
rows = ["<!-- seeded -->", "| id | property | what it breaks | reported by |", "|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json')); i = os.path.basename(d[:-1])
    rows.append("| %s | %s | %s | %s |" % (i, m['property'], re.sub(r'\s+', ' ', m['what_it_breaks']).replace('|', '/'), m['property']))
rows.append("<!-- /seeded -->")
p = '/verif/DESIGN.md'; s = open(p).read()
t = "\n".join(rows)
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S) if "<!-- seeded -->" in s else s.replace("SEEDTABLE", t)
open(p, 'w').write(s)
