#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_notes.py, the checks, the findings and the planted bugs."""
import ast, glob, json, os, sys, textwrap
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from design_notes import N

def literals(path):
	res = {}
	for n in ast.parse(open(path).read()).body:
		if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
			try:
				res[n.targets[0].id] = ast.literal_eval(n.value)
			except ValueError:
				pass
	return res

props = {}
for line in open(os.path.join(root, "properties.jsonl")):
	p = json.loads(line)
	props[p["id"]] = p
manifest = json.load(open(os.path.join(root, "MANIFEST.json")))
findings = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
try:
	times = json.load(open(os.path.join(here, "times.json")))
except OSError:
	times = {}
try:
	caught = json.load(open(os.path.join(here, "caught.json")))
except OSError:
	caught = {}

out = [open(os.path.join(here, "design_head.md")).read()]
out.append("## Properties\n")
for pid in sorted(props):
	p = props[pid]
	f = os.path.join(root, "checks", pid.lower() + ".py")
	out.append("### %s %s\n" % (pid, p["title"]))
	out.append(p["statement"] + "\n")
	if not os.path.exists(f):
		out.append("No check.\n")
		continue
	lit = literals(f)
	how, oracle, left = [" ".join(x.split()) for x in N[pid]]
	out.append("* Decided by: " + lit["TECHNIQUE"] + ".")
	out.append("* Why this reaches what tests can't: " + how)
	out.append("* Oracle: " + oracle)
	out.append("* Bounds: " + " ".join(lit["LEVEL_NOTE"].split()))
	out.append("* Counted: " + " ".join(lit["RULE"].split()) + ".")
	if left:
		out.append("* Left out: " + left)
	if pid in times:
		out.append("* Cost: %s" % times[pid])
	bugs = sorted(b for b in caught if caught[b]["property"] == pid)
	if bugs:
		out.append("* Planted bugs: " + ", ".join("%s (%s)" % (b, caught[b]["result"]) for b in bugs))
	nf = sum(1 for x in findings if x["property"] == pid and x["status"] == "fixed")
	if nf:
		out.append("* Defects of the pinned commit found and repaired: %d" % nf)
	out.append("")
out.append("## Planted bugs\n")
out.append("""Each was written from a property's text and the code, is kept whether caught or not, and passes
the repository's tests. "Caught" means: the quick check of its property exits 1 with a VIOLATION line.\n""")
out.append("| bug | property | needs | breaks | quick check |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
	m = json.load(open(d))
	b = os.path.basename(os.path.dirname(d))
	out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"],
			caught.get(b, {}).get("result", "not run")))
out.append("")
extra = os.path.join(here, "design_tail.md")
if os.path.exists(extra):
	out.append(open(extra).read())
out.append("## Findings in the pinned commit\n")
out.append("Every entry was shown against the real code first. The repaired ones were also put back one by one\nto see that the check reports them again.\n")
for kind, title in (("open", "Recorded, not repaired"), ("fixed", "Repaired by a `fix:` commit")):
	rows = [x for x in findings if (x["status"] == "fixed") == (kind == "fixed")]
	out.append("### %s (%d)\n" % (title, len(rows)))
	for x in rows:
		out.append("* %s %s: %s" % (x["property"], x.get("commit", ""), x["what"]))
	out.append("")
def wrap(line):
	if len(line) <= 96 or line.startswith("|"):
		return line
	return textwrap.fill(line, 96, subsequent_indent="  " if line.startswith("* ") else "",
			break_long_words=False, break_on_hyphens=False)

out = [wrap(y) for x in out for y in x.split("\n")]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
print("DESIGN.md", sum(len(x) for x in out))
