#!/usr/bin/env python3
"""Rewrites the lists of DESIGN.md that come from known_findings.txt and seeded/."""
import collections, glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
fixed = collections.defaultdict(list); opened = []
for line in open(os.path.join(root, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m: fixed[m[1]].append("%s (%s)" % (m[3], m[2]))
    elif line.startswith("open:"): opened.append(line[6:].strip())
n = len({x[-8:] for v in fixed.values() for x in v})
text = "## Defects found and repaired\n\n%d `fix:` commits in /repo; `known_findings.txt` lists them with the property that found each. %s\n\n" % (n, "Open findings:" if opened else "No finding is open.")
text += "".join("* open: %s\n" % x for x in opened) + "".join("* **%s**: %s\n" % (k, "; ".join(fixed[k])) for k in sorted(fixed))
seeds = "| id | property | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); seeds += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
p = os.path.join(root, "DESIGN.md"); d = open(p).read()
for k, t in (("fixes", text), ("seeds", seeds)): d = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s<!-- /%s -->" % (k, t, k), d, flags=re.S)
open(p, "w").write(d)
