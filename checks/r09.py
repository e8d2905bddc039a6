"""R09: SRR inspection reports exactly what is in the SRR."""
import contextlib
import io
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, write, sfv_text
from checks import r01

PROPERTY = "R09"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of SRR layouts written by an independent writer"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain SRR over volume layout, headers, recovery, padding, SFV kinds, stored files, paths and several sets; the fingerprint is compared over all "
	"orders of the volumes of small sets and after each single change. SFV checksums of volumes and names that occur twice with the same path are out.")
RULE = "one evaluation = one SRR inspected (report, fingerprint and printed list); outcomes are layout classes"

DIMS = dict((k, r01.DIMS[k]) for k in ("layout", "naming", "flags", "rr", "end", "pad", "cmt", "base", "arch"))
DIMS["sfv"] = ["full", "none", "partial", "extra", "junk", "caps", "two", "sub", "other", "empty"]
DIMS["app"] = ["pyReScene", "", "\u00fcber app " * 30]
DIMS["stored"] = ["nfo", "none", "many", "zero", "big"]
DIMS["oso"] = [0, 1, 2]
DIMS["comp"] = [0, 1, 2]
DIMS["prefix"] = ["", "CD1/", "a b/c/"]
DIMS["packer"] = [None, "late", "unknown"]
DIMS["multi"] = ["no", "diffnames", "samevol", "samemember", "sameall", "three"]


def cases(ctx):
	out = []

	def ok(d):
		return not (d.get("end") in ("none", "zero") and d.get("pad"))
	for d in deviations(DIMS, ctx.pick(2, 3), ok):
		out.append(dict((k, v.hex() if isinstance(v, bytes) else v) for k, v in full(DIMS, d).items()))
	for n in (1, 2, 3, 4):
		out.append({"fp": n})
	for m in ("diffnames", "samevol", "sameall"):
		out.append({"fp": 2, "multi": m})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def sets_of(c):
	"""list of (prefix, members, volumes)"""
	members, cuts = r01.members_of(c, c["flags"])
	if c["comp"]:
		for m in members[:c["comp"]]:
			if not m.is_dir and m.data:
				m.kw["method"] = 0x33
	if c["packer"]:
		for m in members:
			if not m.is_dir and m.data and not m.kw.get("method"):
				if c["packer"] == "late" or not m.kw.get("large"):
					m.kw["packer"] = c["packer"]
	kw = dict(naming=c["naming"], rr=c["rr"] and tuple(c["rr"]), end=None if c["end"] == "none" else c["end"],
		pad=bytes.fromhex(c["pad"]), cmt=c["cmt"], arch_flags=c["arch"])
	out = [(c["prefix"], members, rs.build_set(members, cuts, base=c["base"], **kw))]
	m = c["multi"]
	if m == "no":
		return out

	def second(mname, base, prefix, size):
		mm = [rs.Member(mname, size)]
		return (prefix, mm, rs.build_set(mm, [(0, 5)], base=base, naming=c["naming"]))
	if m == "diffnames":
		out.append(second("other.bin", "zz", c["prefix"], 33))
	elif m == "samevol":
		out.append(second("other.bin", c["base"], "CD2/", 34))
	elif m == "samemember":
		out.append(second(members[-1].name, "zz", "CD2/", 35))
	elif m == "sameall":
		out.append(second(members[-1].name, c["base"], "CD2/", 36))
	elif m == "three":
		out.append(second("b2.bin", c["base"], "CD2/", 37))
		out.append(second("b3.bin", c["base"], "CD3/", 38))
	return out


def files_of(members):
	"""expected (name, size, crc)"""
	out = []
	for m in members:
		name = m.kw.get("uni") or m.kw.get("utf8") or m.name
		out.append((name, len(m.data), "%08X" % rs.crc32(m.data)))
	return out


def run_case(case):
	res = core.Result()
	root = core.scratch()
	if "fp" in case:
		return fingerprint(case, res, root)
	c = case
	sets = sets_of(c)
	stored = []
	if c["stored"] == "nfo":
		stored = [("rel.nfo", b"info")]
	elif c["stored"] == "many":
		stored = [("rel.nfo", b"info"), ("Sample/s.srs", b"\0" * 9), ("Proof/p.jpg", rs.payload("p", 3000)), ("a.b/c d.txt", b"x")]
	elif c["stored"] == "zero":
		stored = [("z", b""), ("y.nfo", b"")]
	elif c["stored"] == "big":
		stored = [("big.bin", rs.payload("bb", 70000))]
	entries, comments, crcs = [], [], {}
	sfv = c["sfv"]
	for i, (pre, members, vols) in enumerate(sets):
		ns = [(v.name, rs.crc32(v.bytes())) for v in vols]
		if sfv == "none" or sfv == "other" and i == 0:
			if sfv == "other":
				t = sfv_text([("track01.mp3", 0x1234), ("t2.mp3", 0xabcdef01)])
				stored.append(("music.sfv", t))
				entries += [("track01.mp3", "00001234"), ("t2.mp3", "abcdef01")]
			continue
		t = b""
		if sfv == "junk":
			t += b"; made by someone\r\nthis line is junk\r\n"
			comments += ["; made by someone", "this line is junk"]
		use = ns[1:] if sfv == "partial" else ns
		if sfv == "empty":
			use = []
		for n, x in use:
			crcs[pre + n] = "%08X" % x
		t += sfv_text([(n.upper() if sfv == "caps" else n, x) for n, x in use])
		if sfv == "extra":
			t += sfv_text([("sample.avi", 0xdeadbeef)])
			entries.append(("sample.avi", "deadbeef"))
		where = pre + ("sub/" if sfv == "sub" and c["multi"] not in ("samevol", "sameall", "three") else "")
		if sfv == "two":
			h = len(t.splitlines(True)) // 2
			ls = t.splitlines(True)
			stored.append((where + "a%d.sfv" % i, b"".join(ls[:h])))
			stored.append((where + "b%d.SFV" % i, b"".join(ls[h:])))
		else:
			stored.append((where + "rel%d.sfv" % i, t))
	oso = [("v%d.avi" % i, 123456789012 + i, "%016x" % (0xfedcba9876543210 + i)) for i in range(c["oso"])]
	data = rs.srr_header(c["app"]) + b"".join(rs.srr_stored(*s) for s in stored)
	for pre, members, vols in sets:
		data += b"".join(rs.srr_rarfile(pre + v.name) + v.srr_meta() for v in vols)
	data += b"".join(rs.srr_oso(*o) for o in oso)
	if len(data) < 20:
		data = rs.srr_header("x" * 20)
	p = write(os.path.join(root, "x.srr"), data)
	info = rmain.info(p)
	res.steps += 1

	def cmp(what, got, want):
		if got != want:
			i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want))) if isinstance(got, list) else 0
			res.bad(what, "%s: reported %r, expected %r" % (what, got[i:i + 2] if isinstance(got, list) else got, want[i:i + 2] if isinstance(want, list) else want))
	cmp("appname", info["appname"], c["app"])
	cmp("stored", [(f.file_name, f.file_size) for f in info["stored_files"].values()], [(n, len(d)) for n, d in stored])
	cmp("rars", [(f.file_name, f.file_size, getattr(f, "crc32", None)) for f in info["rar_files"].values()],
		[(pre + v.name, len(v.bytes()), crcs.get(pre + v.name)) for pre, m, vols in sets for v in vols])
	cmp("packed", [(f.file_name, f.file_size, f.crc32) for f in info["archived_files"].values()],
		[x for pre, m, vols in sets for x in files_of(m)])
	cmp("sfv_entries", [(e.file_name, e.crc32.lower()) for e in info["sfv_entries"]], entries)
	cmp("sfv_comments", [x.strip() for x in info["sfv_comments"]], comments)
	cmp("compression", bool(info["compression"]), any(m.kw.get("method") for _, ms, _ in sets for m in ms))
	cmp("oso", [(n, h, s) for n, h, s in info["oso_hashes"]], [(n, h, s) for n, s, h in oso])
	rr = sum(len(b.data) for _, _, vols in sets for v in vols for b in v.blocks if b.kind == "rr")
	got = info["recovery"]
	cmp("recovery", got.file_size if got else 0, rr)
	# the printed list names everything
	from rescene import srr as cli
	buf = io.StringIO()
	with contextlib.redirect_stdout(buf):
		cli.display_info(p)
	text = buf.getvalue()
	for n, d in stored:
		if not any(l.endswith("  " + n) and str(len(d)) == l.split()[0].replace(",", "").replace(".", "") for l in text.splitlines()):
			res.bad("list", "the printed list lacks the stored file %r" % n)
	for pre, m, vols in sets:
		for v in vols:
			if not any(pre + v.name in l and l.rstrip().endswith(" %d" % len(v.bytes())) for l in text.splitlines()):
				res.bad("list", "the printed list lacks the volume %r of %d bytes" % (pre + v.name, len(v.bytes())))
		for n, s, x in files_of(m):
			if not any(n in l and l.rstrip().endswith("%s %d" % (x, s)) for l in text.splitlines()):
				res.bad("list", "the printed list lacks the packed file %r" % n)
	with open(p, "rb") as f:
		if f.read() != data:
			res.bad("changed", "inspection changed the SRR")
	res.outcome = "%s|%s|%s|%s" % (c["layout"], c["sfv"], c["multi"], c["comp"])
	return res


def fingerprint(case, res, root):
	n = case["fp"]
	members = [rs.Member("a.bin", 10 * n), rs.Member("b.bin", 7)]
	cuts = [(0, 10 * i) for i in range(1, n)]
	multi = case.get("multi")

	def build(ms=members, cs=cuts, base="rel", **kw):
		one = [("CD1/" if multi in ("samevol", "sameall") else "", v) for v in rs.build_set(ms, cs, base=base, cmt="cmt", rr=("new", 1), **kw)]
		if multi:
			m2 = [rs.Member("a.bin" if multi == "sameall" else "c.bin", 21)]
			one += [("CD2/", v) for v in rs.build_set(m2, [(0, 4)], base="rel" if multi != "diffnames" else "zz")]
		return one

	def fp(vols, app="x", stored=(), oso=(), prefix=""):
		data = rs.srr_header(app) + b"".join(rs.srr_stored(*s) for s in stored)
		data += b"".join(rs.srr_rarfile(prefix + pre + v.name) + v.srr_meta() for pre, v in vols) + b"".join(rs.srr_oso(*o) for o in oso)
		p = write(os.path.join(root, "f.srr"), data)
		res.steps += 1
		return rmain.content_hash(p)
	vols = build()
	ref = fp(vols)
	same = {"app": fp(vols, app="other app 1.2"), "noapp": fp(vols, app=""), "stored": fp(vols, stored=[("a.nfo", b"x"), ("x.sfv", b"rel.rar 12345678\r\n"), ("rel.rar", b"")]),
		"oso": fp(vols, oso=[("a.avi", 5, "00" * 8)]), "prefix": fp(vols, prefix="some/dir/")}
	for perm in itertools.permutations(vols):
		same["order %s" % [p + v.name for p, v in perm]] = fp(list(perm))
	if multi is None:
		ren = [(p, rs.Volume(v.name.upper(), v.blocks, v.pad)) for p, v in vols]
		same["caps"] = fp(ren)
	for k, h in same.items():
		if h != ref:
			res.bad("fp:" + k.split()[0], "the fingerprint changes with: %s" % k)
	diff = {"member name": fp(build([rs.Member("x.bin", 10 * n), members[1]])),
		"member data": fp(build([rs.Member("a.bin", data=b"?" * 10 * n), members[1]])),
		"member size": fp(build([members[0], rs.Member("b.bin", 8)])),
		"last name": fp(build([members[0], rs.Member("c.bin", 7)])),
		"time": fp(build([members[0], rs.Member("b.bin", data=members[1].data, dtime=5)]))}
	for i in range(len(vols)):
		if len(vols) > 1:
			diff["without volume %d" % i] = fp(vols[:i] + vols[i + 1:])
	hs = [ref]
	for k, h in diff.items():
		if h == ref:
			res.bad("fp-same", "the fingerprint does not change with: %s" % k)
	if len(set(diff.values())) != len(diff):
		res.bad("fp-collide", "different releases get the same fingerprint")
	res.outcome = "fp|%d|%s" % (n, multi)
	return res
