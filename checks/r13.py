"""R13: stepping through volume names and picking first volumes."""
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rutil, rmain, write

PROPERTY = "R13"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: complete walks of every naming scheme against an independent generator, and exhaustive listings and orders of sets"
LEVEL_NOTE = ("Every scheme is walked from its first to its last legal volume for several base names and casings; every union of up to 3 (thorough 4) sets with every order of listing (or rotations and reversals of long ones) is searched "
	"for first volumes; on real files, all set lengths across the roll-overs are collected starting from the first volume. Base names that themselves end like another scheme are only used alone.")
RULE = "one evaluation = one complete walk or one listing; outcomes are (scheme, length, casing) or set unions"


def old(i):
	return ".rar" if i == 0 else ".%s%02d" % (chr(ord("r") + (i - 1) // 100), (i - 1) % 100)


SCHEMES = {
	"old": (lambda b, i: b + old(i), 901, True),
	"new1": (lambda b, i: "%s.part%d.rar" % (b, i + 1), 9, False),
	"new2": (lambda b, i: "%s.part%02d.rar" % (b, i + 1), 99, False),
	"new3": (lambda b, i: "%s.part%03d.rar" % (b, i + 1), 999, False),
	"new4": (lambda b, i: "%s.part%04d.rar" % (b, i + 1), 9999, False),
	"num": (lambda b, i: "%s.%03d" % (b, i + 1), 999, False),
	"num0": (lambda b, i: "%s.%03d" % (b, i), 1000, False),
}
BASES = ["rel", "A.Release-GRP", "th.frag.rar.cd1", "dir.part2/x", "a.r99", "x9", "\u00e9", "part", ".hidden"]
CASES = {"lower": lambda b, e: b + e, "upper": lambda b, e: (b + e).upper(), "ext": lambda b, e: b + e.upper()}


def names(scheme, base, case, n=None):
	f, cnt, _ = SCHEMES[scheme]
	out = []
	for i in range(min(cnt, n or cnt)):
		full = f(base, i)
		out.append(CASES[case](base, full[len(base):]))
	return out


def explore(ctx):
	cs = []
	for s in SCHEMES:
		for c in CASES:
			for b in BASES + (["x.part02", "x.part1"] if s == "old" else []):
				cs.append({"k": "walk", "scheme": s, "case": c, "base": b})
			lens = (1, 2, 3, 9, 10, 11, 12) + ((99, 100, 101, 102, 103, 201, 202, 203) if c == "lower" or ctx.thorough else (102,))
			for n in lens:
				if n <= SCHEMES[s][1]:
					cs.append({"k": "files", "scheme": s, "case": c, "n": n})
	# listings: unions of sets
	sets = []
	for s in SCHEMES:
		for n in (1, 2, 3):
			sets.append((s, n))
	for r in range(1, ctx.pick(2, 3) + 1):
		for combo in itertools.product(sets, repeat=r):
			if len(set(combo)) < r and r > 2:
				continue
			for c in ("lower", "upper", "ext"):
				cs.append({"k": "list", "sets": [list(x) for x in combo], "case": c})
	if not ctx.thorough:
		for combo in itertools.product([s for s in sets if s[1] == 2], repeat=3):
			cs.append({"k": "list", "sets": [list(x) for x in combo], "case": "lower"})
	for s in SCHEMES:
		cs.append({"k": "list", "sets": [[s, SCHEMES[s][1]], ["old", 12], ["new2", 99]], "case": "lower"})
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(ctx.outcomes))


LB = ["rel", "rel.cd1", "other-grp", "Rel2.Bx"]


def run_case(case):
	res = core.Result()
	if case["k"] == "walk":
		want = names(case["scheme"], case["base"], case["case"])
		is_old = SCHEMES[case["scheme"]][2]
		cur = want[0]
		for i in range(1, len(want)):
			nxt = rutil.next_archive(cur, is_old)
			if nxt != want[i]:
				res.bad("walk:%s:%s" % (case["scheme"], case["case"]), "after %r comes %r instead of %r" % (cur, nxt, want[i]))
				break
			cur = nxt
		res.steps = 1
		# the default is right for all but ambiguous names
		if not (is_old and ".part" in want[0].lower().rsplit("/", 1)[-1]) and len(want) > 2:
			a = rutil.next_archive(want[0])
			if a != want[1]:
				res.bad("default:%s:%s" % (case["scheme"], case["case"]), "after %r comes %r instead of %r" % (want[0], a, want[1]))
		res.outcome = "walk|%s|%s" % (case["scheme"], case["case"])
		return res
	if case["k"] == "files":
		root = core.scratch()
		s = case["scheme"]
		ns = names(s, "Rel", case["case"], case["n"])
		m = rs.Member("a.bin", len(ns))
		vols = rs.build_set([m], [(0, i) for i in range(1, len(ns))], "new" if s.startswith("new") else "old" if s == "old" else "num", "Rel", arch_flags=0)
		for n, v in zip(ns, vols):
			write(os.path.join(root, "d", n), v.bytes())
		write(os.path.join(root, "d", "zz.nfo"), b"x")
		srr = os.path.join(root, "o.srr")
		rmain.create_srr(srr, [os.path.join(root, "d", ns[0])])
		with open(srr, "rb") as f:
			p = rs.SrrParse(f.read())
		res.steps = 1
		if p.rars != ns:
			res.bad("files:%s:%s" % (s, case["case"]), "a set of %d volumes (%s...) gives an SRR with %d volumes" % (len(ns), ns[0], len(p.rars)))
		for i in (1, len(ns) - 1):
			if 0 < i < len(ns):
				try:
					rmain.create_srr(os.path.join(root, "p%d.srr" % i), [os.path.join(root, "d", ns[i])])
					# a lone .partN.rar is taken as an oddly named single archive
					if not (s == "num0" and i == 1) and not s.startswith("new"):
						res.bad("middle:" + s, "starting at %r is accepted" % ns[i])
				except (ValueError, EnvironmentError):
					pass
		res.outcome = "files|%s|%d" % (s, len(ns))
		return res
	bases = LB
	sets = [names(s, bases[i], case["case"], n) for i, (s, n) in enumerate(case["sets"])]
	pool = [x for s in sets for x in s]
	want = sorted(s[0] for s in sets)
	if len(pool) <= 5:
		orders = itertools.permutations(pool)
	else:
		orders = [pool, pool[::-1], pool[1::2] + pool[::2], sorted(pool)] + [pool[i:] + pool[:i] for i in range(1, min(len(pool), 12))]
	for o in orders:
		o = list(o)
		res.steps += 1
		# files that are no volumes at all don't count
		mixed = ["rel.nfo", "readme001", "Rel000"] + o[:1] + ["part1.rar.txt", "rel.part01", "cd1rar"] + o[1:] + ["rel.sfv", "x.r00.sfv", "rel.001.srs"]
		for arg in (o, iter(o), mixed):
			got = rutil.first_rars(arg)
			if sorted(got) != want:
				res.bad(("first:" if arg is not mixed else "mixed:") + "+".join("%s%d" % tuple(x) for x in case["sets"]), "from %r: %r instead of %r" % (o[:8], got, want))
				break
		if res.problems:
			break
	res.outcome = "list|" + "+".join("%s%d" % tuple(x) for x in case["sets"])
	return res
