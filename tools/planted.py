"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    d[m["property"]].append((f.split("/")[-2], m["needs"].replace("|", "/")))
out = ["Each is caught by the check of its own property (several by others too):", "",
       "| Caught by | Change | What it needs in order to show |", "|---|---|---|"]
out += [f"| {p} | `{i}` | {n} |" for p in sorted(d) for i, n in d[p]]
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
