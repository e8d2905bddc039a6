"""R05: SRR creation is all or nothing and respects existing files."""
import errno
import os

from mc import core
from mc import faults as F
from mc import rarsyn as rs
from mc.rescenelib import rescene, rmain, write, read, tree, sfv_text

PROPERTY = "R05"
SHIM = True
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of bad inputs (every truncation point, every header byte, every missing piece) and of failing file operations"
LEVEL_NOTE = ("Every truncation length and every changed header byte of every volume of the listed sets, missing and unusable inputs, and one failing or interrupted file operation at every position, "
	"for the library functions and for the srr command, with the target absent, present and protected, present and overwritable. Sets of up to 3 small volumes.")
RULE = ("one case = one creation with one target state, one entry point and one unusable input or one failing file operation; "
	"outcomes are (entry point, kind of damage, target state, how it ended)")

OLD = b"an older SRR or any other file of the user" * 3

SETS = {
	"one": ([rs.Member("a.bin", 60)], [], {}),
	"split": ([rs.Member("a.bin", 90), rs.Member("b.bin", 20)], [(0, 30)], {"cmt": "cmt", "rr": ("new", 1)}),
	"three": ([rs.Member("a.bin", 50)], [(0, 20), (0, 40)], {"end": None, "rr": ("old", 1), "cmt": "av"}),
	"pad": ([rs.Member("a.bin", 40), rs.Member("e.bin", 0)], [], {"pad": b"padding!", "cmt": "oldsub"}),
}
ENTRIES = ["api", "apitmp", "single", "singletmp", "cli"]
SINGLE = ("single", "singletmp")
TARGETS = ["absent", "deny", "allow"]


def volumes(name):
	m, cuts, kw = SETS[name]
	return rs.build_set(m, cuts, "old", "rel", **kw)


def cases(ctx):
	out = []

	def add(s, entry, target, damage, inp="rar", **kw):
		c = dict({"set": s, "entry": entry, "target": target, "damage": damage, "in": inp}, **kw)
		out.append(c)
	for s in SETS:
		vols = volumes(s)
		for entry in ENTRIES:
			slow = entry == "cli"
			for target in TARGETS:
				for inp in ("rar", "sfv"):
					if entry in SINGLE and inp == "sfv":
						continue
					for d in (["none"], ["comp", 0], ["comp", len(vols) - 1], ["missing", 0], ["missing", len(vols) - 1],
							["dir", 0], ["dir", len(vols) - 1], ["empty", 0], ["empty", len(vols) - 1], ["rar5", len(vols) - 1], ["text", len(vols) - 1],
							["noinput"], ["notfirst"], ["emptysfv"], ["junksfv"], ["binsfv"], ["nonrarsfv"], ["storemissing"], ["compallow", 0]):
						if entry in SINGLE and d[0] in ("storemissing", "comp", "compallow", "notfirst", "junksfv", "binsfv", "emptysfv", "nonrarsfv"):
							continue
						if entry in SINGLE and len(d) > 1 and d[1]:
							continue
						if inp == "rar" and d[0].endswith("sfv"):
							continue
						add(s, entry, target, d, inp)
			for vi, v in enumerate(vols):
				n = len(v.bytes())
				step = 7 if slow and not ctx.thorough else 1
				if entry in SINGLE and vi:
					continue
				for target in (("absent", "allow") if not slow else ("allow",)):
					if target == "allow" and not slow and not ctx.thorough:
						step = 5
					for p in range(1, n, step):
						add(s, entry, target, ["cut", vi, p])
					pos = 0
					for b in v.blocks:
						for k in range(0, len(b.head), step):
							for x in ((0xff,) if not ctx.thorough else (0xff, 0x01, 0x80)):
								add(s, entry, target, ["byte", vi, pos + k, x])
						pos += len(b.head) + len(b.data)
			# one failing operation at every position
			for target in ("absent", "allow"):
				for inp in ("rar", "sfv"):
					if entry in SINGLE and inp == "sfv":
						continue
					add(s, entry, target, ["faults"], inp)
	return out


def target_ops(case, root, vols):
	"""writes the input files; returns (callable, target path, expected SRR or None when refused, 'any')"""
	d = case["damage"]
	entry = case["entry"]
	indir = os.path.join(root, "in")
	outdir = os.path.join(root, "out")
	os.makedirs(indir)
	vols = list(vols)
	expect = "ok"
	compressed = d[0] == "compallow"
	for i, v in enumerate(vols):
		data = v.bytes()
		if d[0] in ("comp", "compallow") and d[1] == i:
			blocks = []
			for b in v.blocks:
				if b.kind == "file":
					m, x, y = b.member
					nb = rs.file_block(m.name, b.data, len(m.data), 0x12345678, method=0x33)
					blocks.append(nb)
				else:
					blocks.append(b)
			vols[i] = rs.Volume(v.name, blocks, v.pad)
			data = vols[i].bytes()
			if d[0] == "comp":
				expect = None
		if len(d) > 1 and d[1] == i:
			if d[0] == "missing":
				if case["in"] == "sfv" or i == 0:
					expect = None
				else:
					vols = vols[:i]
				continue
			if d[0] == "dir":
				os.mkdir(os.path.join(indir, v.name))
				if case["in"] == "sfv" or i == 0:
					expect = None
				else:
					vols = vols[:i]
				continue
			if d[0] in ("empty", "rar5", "text"):
				data = {"empty": b"", "rar5": b"Rar!\x1a\x07\x01\x00" + bytes(40), "text": b"just some text, and enough of it to be a RAR"}[d[0]]
				expect = None
			if d[0] == "cut":
				data = data[:d[2]]
				pos, blocks, fit = 0, [], False
				for b in v.blocks:
					e = pos + len(b.head) + len(b.data)
					if e > d[2]:
						break
					pos = e
					blocks.append(b)
					fit = pos == d[2]
				if len(blocks) == len(v.blocks):
					fit = True
				if not fit or d[2] < 20:
					expect = None
				else:
					vols[i] = rs.Volume(v.name, blocks, data[pos:] if len(blocks) == len(v.blocks) else b"")
			if d[0] == "byte":
				data = bytearray(data)
				data[d[2]] ^= d[3]
				data = bytes(data)
				expect = "any"
		write(os.path.join(indir, v.name), data)
	stored = []
	store = []
	if d[0] == "storemissing":
		store = ["not there.nfo"]
	first = vols[0].name if vols else "rel.rar"
	if case["in"] == "sfv":
		t = sfv_text([(v.name, rs.crc32(v.bytes())) for v in volumes(case["set"])])
		if d[0] == "emptysfv":
			t, expect = b"", None
		elif d[0] == "junksfv":
			t, expect = b"; only comments\r\n\r\nnothing useful", None
		elif d[0] == "binsfv":
			t, expect = bytes(range(256)) * 2, "any"
		elif d[0] == "nonrarsfv":
			t = sfv_text([("music.mp3", 5)])
			vols = []
		elif d[0] == "notfirst":
			pass
		infile = os.path.join(indir, "rel.sfv")
		if d[0] != "noinput":
			write(infile, t)
			stored = [("rel.sfv", t)]
		else:
			infile = os.path.join(indir, "no.sfv")
			expect = None
	else:
		infile = os.path.join(indir, first if expect is not None or d[0] != "missing" else "rel.rar")
		if d[0] == "notfirst":
			if len(vols) > 1:
				infile = os.path.join(indir, vols[1].name)
				expect = None
		if d[0] == "noinput":
			infile = os.path.join(indir, "no.rar")
			expect = None
	if entry in SINGLE:
		vols = vols[:1]
	os.makedirs(outdir)
	target = os.path.join(outdir, "x.srr")
	if case["target"] != "absent":
		write(target, OLD)
	write(os.path.join(outdir, "other.srr"), b"not to be touched")
	tmp = target + "-12345.tmp"
	allow = case["target"] != "deny"
	if expect == "ok":
		expect = b"".join(rs.srr_rarfile(v.name) + v.srr_meta() for v in vols)
		expect = rs.srr_header(rescene.APPNAME) + b"".join(rs.srr_stored(*s) for s in stored) + expect

	def go():
		if entry == "cli":
			from rescene import srr as cli
			cli.MessageThread.sleeptime = 0.0005
			argv = [infile, "-o", target, "-y" if allow else "-n"]
			if compressed:
				argv.append("-c")
			for s in store:
				argv += ["-s", s]
			try:
				cli.main(argv)
			except SystemExit as e:
				return "exit %s" % (e.code,)
			return "exit 0"
		rmain.can_overwrite = lambda p: allow or not os.path.isfile(p)
		if entry == "single":
			r = rmain.create_srr_single_volume(target, infile)
		elif entry == "singletmp":
			from rescene.utility import replace_result
			r = rmain.create_srr_single_volume(target, infile, tmp)
			if r:
				replace_result(tmp, target)
		elif entry == "apitmp":
			from rescene.utility import replace_result
			r = rmain.create_srr(target, infile, indir, store, False, compressed, True, tmp)
			if r:
				replace_result(tmp, target)
		else:
			r = rmain.create_srr(target, infile, indir, store, False, compressed)
		return "exit 0" if r is True else "declined" if r is False else repr(r)
	return go, indir, outdir, target, expect


def judge(res, case, r, indir, before, outdir, target, expect, tag, faulted=False):
	now = tree(outdir)
	if now.pop("other.srr", None) != b"not to be touched":
		res.bad("other", "%s: an unrelated file changed" % tag)
	data = now.pop("x.srr", None)
	if now and not r["died"]:
		res.bad("temp", "%s: left behind %s" % (tag, sorted(now)))
	if tree(indir) != before:
		res.bad("input", "%s: an input file changed" % tag)
	ret = r["ret"]
	failed = bool(r["etype"]) or str(ret) not in ("exit 0", "exit None", "declined")
	old = OLD if case["target"] != "absent" else None
	if case["target"] == "deny":
		if data != OLD:
			res.bad("deny", "%s: the protected file was %s" % (tag, "removed" if data is None else "changed"))
		if not failed and ret != "declined" and case["entry"] != "cli":
			res.bad("deny-ret", "%s: protected target, but %r" % (tag, ret))
		return "deny"
	if failed:
		if data is not None and data != old:
			res.bad("partial", "%s: failed (%s) but leaves a partial SRR of %d bytes" % (tag, r["error"] or ret, len(data)))
		if old and data is None and case["entry"] in ("cli", "apitmp"):
			res.bad("lost", "%s: failed (%s) and removed the existing SRR" % (tag, r["error"] or ret))
		if expect not in (None, "any") and not faulted:
			res.bad("refused", "%s: a usable input was refused: %s" % (tag, r["error"] or ret))
		return "failed:" + str(r["etype"] or ret)
	if expect is None:
		res.bad("accepted", "%s: an unusable input gave an SRR (%s)" % (tag, None if data is None else len(data)))
		return "accepted"
	if data is None:
		res.bad("nothing", "%s: success without an SRR" % tag)
	elif expect != "any" and data != expect:
		res.bad("content", "%s: the SRR differs from the headers of the volumes (%d bytes, expected %d)" % (tag, len(data), len(expect)))
	return "made"


def run_case(case):
	res = core.Result()
	root = core.scratch()
	vols = volumes(case["set"])
	go, indir, outdir, target, expect = target_ops(case, root, vols)
	before = tree(indir)
	tag = "%s %s target %s %s" % (case["entry"], case["damage"], case["target"], case["in"])
	if case["damage"][0] != "faults":
		r = F.run(go, root, timeout=20)
		how = judge(res, case, r, indir, before, outdir, target, expect, tag)
		res.steps = 1
		res.outcome = "|".join((case["entry"], case["damage"][0], case["target"], case["in"], how))
		return res
	base = F.run(go, root, reads=True)
	kinds = base["kinds"]
	seen = set()
	for k, c in enumerate(kinds):
		for mode, e in ((F.FAIL, errno.EIO), (F.FAIL, errno.ENOSPC), (F.FAIL_FROM, errno.ENOSPC)):
			if mode == F.FAIL_FROM and c == "u" or c in "u" or (c in "or" and e != errno.EIO):
				continue
			if mode == F.FAIL_FROM:
				continue
			core._empty(outdir)
			if case["target"] != "absent":
				write(target, OLD)
			write(os.path.join(outdir, "other.srr"), b"not to be touched")
			r = F.run(go, root, mode, k, e, reads=True)
			res.steps += 1
			t = "%s, %s %d at operation %d (%s of %s)" % (tag, F.NAMES[mode], e, k, c, kinds)
			# the OpenSubtitles hash is optional: a read error there may be survived
			seen.add((c, judge(res, case, r, indir, before, outdir, target, expect, t, True)))
	res.outcome = "|".join((case["entry"], "faults", case["target"], case["in"], ",".join("%s:%s" % s for s in sorted(seen))))
	return res


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs, chunk=4)
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(ctx.outcomes))
