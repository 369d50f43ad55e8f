"""Rewrites the "Planted bugs" section of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  caught = {}
  f = os.path.join(V, "tools", "caught.json")
  if os.path.exists(f):
    caught = json.load(open(f))
  rows = ["| planted bug | property | what it breaks | needs | caught by |",
          "|---|---|---|---|---|"]
  one = lambda s: re.sub(r"\s+", " ", s).replace("|", "/").strip()
  n = 0
  for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    n += 1
    rows.append(f"| {i} | {d['property']} | {one(d['what_it_breaks'])} | "
                f"{one(d['needs'])} | {caught.get(i, d['property'])} |")
  p = os.path.join(V, "DESIGN.md")
  s = open(p).read()
  a = s.index("<!-- bugs -->") + len("<!-- bugs -->")
  b = s.index("<!-- /bugs -->")
  open(p, "w").write(s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])
  print(n, "planted bugs")


main()
