"""P01: rebuilding single volumes or subsets of an SRR."""
import os
import struct

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, OBS, write, tree, reset_events, event_codes, allow_overwrite
from checks import r01

PROPERTY = "P01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of layouts times every selection (each volume by path, name and ending; each prefix wildcard), compared with the original volumes"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain layout, and every split of short files into up to 4 volumes, times every selection that names a volume or a prefix. "
	"Store mode only.")
RULE = "one evaluation = one selection rebuilt by the real code; outcomes are (layout, selection kind, number of volumes selected) classes"

DIMS = dict((k, r01.DIMS[k]) for k in ("layout", "naming", "flags", "rr", "end", "pad", "cmt", "base"))
DIMS["second"] = [None, "other", "samemember", "samevol", "before", "lastfirst", "firstlast"]
DIMS["fault"] = [None, "flip"]
DIMS["cli"] = [False, True]


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(2, 3), lambda d: not (d.get("end") in ("none", "zero") and d.get("pad"))):
		out.append(dict((k, v.hex() if isinstance(v, bytes) else v) for k, v in full(DIMS, d).items()))
	base = full(DIMS, {})
	base["pad"] = ""
	n = ctx.pick(7, 10)
	for a in range(1, n):
		out.append(dict(base, cuts=[(0, a)], n=n))
		for b in range(a + 1, n):
			out.append(dict(base, cuts=[(0, a), (0, b)], n=n))
			out.append(dict(base, cuts=[(0, a), (1, 0), (1, b)], n=n))
			for c in range(b + 1, n):
				out.append(dict(base, cuts=[(0, a), (0, b), (0, c)], n=n))
				out.append(dict(base, cuts=[(0, a), (0, c), (1, b)], n=n))
	for naming in ("new", "old"):
		out.append(dict(base, cuts=[(0, i) for i in range(1, 12)], n=12, naming=naming))
		out.append(dict(base, cuts=[(0, i) for i in range(1, 12)], n=12, naming=naming, fault="flip"))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes), layouts=len(cs))


def run_case(c):
	res = core.Result()
	root = core.scratch()
	allow_overwrite(True)
	if "cuts" in c:
		members, cuts = [rs.Member("m.bin", c["n"]), rs.Member("n.bin", c["n"])], [tuple(x) for x in c["cuts"]]
	else:
		members, cuts = r01.members_of(c, c["flags"])
	kw = dict(rr=c["rr"] and tuple(c["rr"]), end=None if c["end"] == "none" else c["end"], pad=bytes.fromhex(c["pad"]), cmt=c["cmt"])
	sets = [("", members, rs.build_set(members, cuts, base=c["base"], naming=c["naming"], **kw))]
	if c["second"]:
		big = [m for m in members if not m.is_dir][-1:] or [rs.Member("zz.bin", 9)]
		if c["second"] in ("samemember", "before"):
			m2 = [rs.Member("aaa.bin", 20), big[0], rs.Member("zzz.bin", 11)]
		elif c["second"] == "lastfirst":
			m2 = [big[0], rs.Member("zzz.bin", 11)]   # nothing between both members of that name
		elif c["second"] == "firstlast":
			m2 = [rs.Member("zzz.bin", 11), ([m for m in members if not m.is_dir] or big)[0]]
		else:
			m2 = [rs.Member("other.bin", 50), rs.Member("more.bin", 51)]
		s2 = ("CD2/", m2, rs.build_set(m2, [(0, 3), (1, 0), (len(m2) - 1, 4)], base=c["base"] if c["second"] != "other" else "zz", naming=c["naming"]))
		sets = [s2] + sets if c["second"] in ("before", "firstlast") else sets + [s2]
	src = os.path.join(root, "in")
	os.makedirs(src)
	flipped = None
	for _, ms, _ in sets:
		for m in ms:
			if m.is_dir:
				os.makedirs(os.path.join(src, m.disk_name), exist_ok=True)
			else:
				write(os.path.join(src, m.disk_name), m.data)
	if c["fault"]:
		cand = [m for m in members if m.data]
		if not cand:
			c = dict(c, fault=None)
		else:
			flipped = cand[0]
			at = len(flipped.data) // 2
			write(os.path.join(src, flipped.disk_name), flipped.data[:at] + bytes([flipped.data[at] ^ 1]) + flipped.data[at + 1:])
	vols = [(pre + v.name, v) for pre, _, vs in sets for v in vs]
	srr = rs.srr_header("app") + rs.srr_stored("x.nfo", b"nfo") + b"".join(rs.srr_rarfile(n) + v.srr_meta() for n, v in vols)
	p = write(os.path.join(root, "x.srr"), srr)
	sel = {}
	for n, v in vols:
		for part in {n, v.name, os.path.splitext(v.name)[1][1:], "." + v.name.split(".", 1)[-1]}:
			sel[part] = [x for x in vols if x[0].endswith(part)]
		for i in range(1, len(n) + 1):
			if len(vols) < 13 or i > 4:
				sel[n[:i] + "*"] = [x for x in vols if x[0].startswith(n[:i])]
		# close to a name, but no ending of one: a part of it from the middle, its start, its other spelling
		for part in (n[:-1], os.path.splitext(n)[0], n[1:-2], n.upper(), n + "x", "x" + n, os.path.splitext(n)[0] + ".sfv", n[:-1] + "?"):
			sel[part] = [x for x in vols if x[0].endswith(part)]
		sel[n.upper()[:-1] + "*"] = [x for x in vols if x[0].startswith(n.upper()[:-1])]
		sel[n[1:-1] + "*"] = [x for x in vols if x[0].startswith(n[1:-1])]
	sel["nothing"] = []
	sel["nothing*"] = []
	done = set()
	k = 0
	for part in sorted(sel):
		want = sel[part]
		ident = (tuple(x[0] for x in want), part.endswith("*"))
		if ident in done and want:
			continue
		done.add(ident)
		k += 1
		out = os.path.join(root, "out%d" % k)
		os.makedirs(out)
		reset_events()
		res.steps += 1
		if c["cli"]:
			code = cli([p, "-m", part, "-p", "-y", "-i", src, "-o", out])
			if code not in (0, None):
				res.bad("cli", "selecting %r: exit code %r" % (part, code))
		else:
			rmain.reconstruct(p, src, out, True, {}, False, False, False, None, None, False, part)
		got = dict((a, b) for a, b in tree(out).items() if b is not None)
		exp = {}
		mism = False
		for n, v in want:
			data = v.bytes()
			if flipped is not None:
				# where the damaged byte lands in this volume
				hit = damaged(v, flipped)
				if hit is not None:
					mism = True
					exp[n] = None
					continue
				if any(b.member and b.member[0] is flipped and b.member[2] == len(flipped.data) for b in v.blocks):
					mism = None if mism is not True else True   # the end part carries the whole file's checksum
			exp[n] = data
		if sorted(got) != sorted(exp):
			res.bad("set", "selecting %r gives %r, expected %r" % (part, sorted(got), sorted(exp)))
			continue
		for n in exp:
			if exp[n] is not None and got[n] != exp[n]:
				i = next((i for i in range(min(len(got[n]), len(exp[n]))) if got[n][i] != exp[n][i]), min(len(got[n]), len(exp[n])))
				res.bad("bytes", "selecting %r: %s differs from byte %d on (%d bytes, expected %d)" % (part, n, i, len(got[n]), len(exp[n])))
		crc = rmain.MsgCode.CRC in event_codes()
		if not c["cli"]:
			if mism is False and crc:
				res.bad("false alarm", "selecting %r reports a checksum mismatch for right data" % part)
			if mism and not crc:
				res.bad("unreported", "selecting %r: wrong data is not reported" % part)
		if len(res.problems) > 5:
			break
	res.outcome = "%s %d sets, %d vols" % (c["layout"] if "cuts" not in c else "cuts", len(sets), len(vols))
	return res


def damaged(v, flipped):
	at = len(flipped.data) // 2
	for b in v.blocks:
		if b.member and b.member[0] is flipped and b.member[1] <= at < b.member[2]:
			return at
	return None


def cli(argv):
	from rescene import srr as tool
	tool.MessageThread.sleeptime = 0.001
	tool.mthread = tool.MessageThread()
	try:
		return tool.main(argv)
	except SystemExit as e:
		return e.code
