"""V01: verification of extracted files passes exactly when all files match."""
import contextlib
import io
import itertools
import os
import zlib

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, write, tree
from checks import r01

PROPERTY = "V01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of layouts times every assignment of up to two file faults, on the function and on the command"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain SRR over layout, header kinds, packers and several sets, times every fault on every file and every pair of faults, with and without "
	"locating renamed files. Files with the right size and a forged checksum are the boundary: they count as matching.")
RULE = "one evaluation = one verification run of the real code on one disk state; outcomes are (route, fault kinds, verdict) classes"

FAULTS = ["missing", "short", "long", "flip", "isdir", "forged", "renamed", "renamedext", "renamedflip", "renamedforged", "decoy", "emptied"]
DIMS = dict((k, r01.DIMS[k]) for k in ("layout", "naming", "end", "rr"))
DIMS["flags"] = ["", "large", "uni", "utf8", "ext5", "salt"]
DIMS["packer"] = [None, "late", "unknown"]
DIMS["method"] = [0x30, 0x33]
DIMS["crc0"] = [False, True]
DIMS["multi"] = ["no", "diff", "samemember", "samedata"]
DIMS["ext"] = ["", ".[x]", "none"]
DIMS["route"] = ["fn", "cli"]
DIMS["extra"] = [None, "dangling", "unrelated"]


def crc_append(data, target):
	"""data plus 4 bytes with the given CRC32"""
	table = []
	for i in range(256):
		c = i
		for _ in range(8):
			c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
		table.append(c)
	rev = dict((t >> 24, i) for i, t in enumerate(table))
	want = target ^ 0xffffffff
	idx = []
	for _ in range(4):
		i = rev[want >> 24]
		idx.append(i)
		want = ((want ^ table[i]) << 8) & 0xffffffff
	have = zlib.crc32(data) ^ 0xffffffff
	out = bytearray()
	for i in reversed(idx):
		out.append((have ^ i) & 0xff)
		have = (have >> 8) ^ table[i]
	res = data + bytes(out)
	assert zlib.crc32(res) == target
	return res


def cases(ctx):
	out = []

	def ok(d):
		return not (d.get("packer") and d.get("method", 0x30) != 0x30)
	for d in deviations(DIMS, ctx.pick(2, 3), ok):
		out.append(full(DIMS, d))
	return out


def explore(ctx):
	cs = cases(ctx)
	if ctx.thorough:
		cs = [dict(c, pairs=True) for c in cs]
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes), layouts=len(cs))


def members_of(c):
	members, cuts = r01.members_of(dict(c), c["flags"])
	for i, m in enumerate(members):
		if m.is_dir:
			continue
		if c["crc0"] and i == len(members) - 1 and m.data:
			m.data = crc_append(m.data[:-4], 0) if len(m.data) > 4 else crc_append(b"", 0)
		if c["packer"] and m.data:
			m.kw["packer"] = c["packer"]
		if c["method"] != 0x30 and m.data:
			m.kw["method"] = c["method"]
		if c["ext"]:
			stem, _ = os.path.splitext(m.name)
			m.name = stem + ("" if c["ext"] == "none" else c["ext"])
			for k in ("uni", "utf8"):
				if k in m.kw:
					del m.kw[k]
	if c["crc0"]:
		cuts = [x for x in cuts if x[1] < len(members[x[0]].data)]
	return members, cuts


def run_case(c):
	res = core.Result()
	root = core.scratch()
	members, cuts = members_of(c)
	kw = dict(rr=c["rr"] and tuple(c["rr"]), end=None if c["end"] == "none" else c["end"])
	sets = [("", members, rs.build_set(members, cuts, naming=c["naming"], **kw))]
	if c["multi"] != "no":
		big = [m for m in members if m.data][-1:] or [rs.Member("x.bin", 9)]
		if c["multi"] == "diff":
			m2 = [rs.Member("other.bin", 50), rs.Member("more.dat", 51)]
		elif c["multi"] == "samedata":
			m2 = [rs.Member("copy" + os.path.splitext(big[0].name)[1], data=big[0].data)]
		else:
			m2 = [rs.Member(big[0].name, data=big[0].data, **big[0].kw), rs.Member("more.dat", 51)]
		sets.append(("CD2/", m2, rs.build_set(m2, [(0, 3)] if len(m2[0].data) > 3 and not m2[0].kw.get("method") else [], naming=c["naming"])))
	srr = rs.srr_header("app") + rs.srr_stored("x.nfo", b"nfo") + b"".join(rs.srr_rarfile(pre + v.name) + v.srr_meta() for pre, _, vs in sets for v in vs)
	p = write(os.path.join(root, "x.srr"), srr)
	files = {}
	for _, ms, _ in sets:
		for m in ms:
			if not m.is_dir:
				files[m.disk_name] = m.data
	names = sorted(files)
	targets = [n for n in names if files[n]]
	plans = [()] + [((n, f),) for n in targets for f in FAULTS]
	for a, b in itertools.combinations(targets[:3], 2):
		for f, g in itertools.product(FAULTS, repeat=2):
			if c.get("pairs") or (f == g or "missing" in (f, g)):
				plans.append(((a, f), (b, g)))
	dirs = [m.disk_name for _, ms, _ in sets for m in ms if m.is_dir]
	packed_any = bool(files or dirs)
	for plan in plans:
		for auto in (False, True):
			src = os.path.join(root, "in")
			os.makedirs(src)
			disk = dict(files)
			isdir = set()
			for n, f in plan:
				d = files[n]
				stem, ext = os.path.splitext(n)
				ren = os.path.join("ren", os.path.basename(stem) + "-renamed")
				if f == "missing":
					disk.pop(n, None)
				elif f == "emptied":
					disk[n] = b""
				elif f == "short":
					disk[n] = d[:-1]
				elif f == "long":
					disk[n] = d + b"\0"
				elif f == "flip":
					disk[n] = d[:-1] + bytes([d[-1] ^ 1])
				elif f == "isdir":
					disk.pop(n, None)
					isdir.add(n)
				elif f == "forged":
					disk[n] = crc_append(d + b"zz", zlib.crc32(d))
				elif f == "renamed":
					disk[ren + ext] = disk.pop(n)
				elif f == "renamedext":
					disk[ren + ext + "x"] = disk.pop(n)
				elif f == "renamedflip":
					del disk[n]
					disk[ren + ext] = d[:-1] + bytes([d[-1] ^ 1])
				elif f == "renamedforged":
					del disk[n]
					disk[ren + ext] = crc_append(d + b"zz", zlib.crc32(d))
				elif f == "decoy":
					disk[n] = d[:-1] + bytes([d[-1] ^ 1])
					disk[ren + ext] = d
			if c["extra"] == "unrelated":
				disk["zzz/" + "unrelated.bin"] = b"1234"
			for n, d in disk.items():
				write(os.path.join(src, n), d)
			for n in list(isdir) + dirs:
				os.makedirs(os.path.join(src, n), exist_ok=True)
			if c["extra"] == "dangling":
				for n in targets:
					e = os.path.splitext(n)[1]
					if not os.path.lexists(os.path.join(src, "dangling" + e)):
						os.symlink("nothing-here", os.path.join(src, "dangling" + e))
			# the reference verdict
			good = True
			for n in targets:
				if disk.get(n) == files[n]:
					continue
				if n not in disk and n not in isdir and auto:
					ext = os.path.splitext(n)[1]
					if any(x.endswith(ext) and d == files[n] for x, d in disk.items()):
						continue
				if n in isdir and auto and any(x.endswith(os.path.splitext(n)[1]) and d == files[n] for x, d in disk.items()):
					good = None  # a directory in the way: either answer
					continue
				good = False
				break
			before = tree(root) if c["extra"] != "dangling" else None
			res.steps += 1
			st = verify(c["route"], p, src, auto)
			kinds = "+".join(f for _, f in plan) or "none"
			if isinstance(st, str):
				res.bad("raise:" + kinds, "verifying with %r raised %s" % (plan, st))
			elif not packed_any:
				if st != 10:
					res.bad("nothing", "status %r without packed files" % st)
			elif good is True and st != 0:
				res.bad("false alarm:" + kinds, "status %r though every file matches (%r, locate %r)" % (st, plan, auto))
			elif good is False and st in (0, 10, None):
				res.bad("missed:" + kinds, "status %r for %r (locate %r)" % (st, plan, auto))
			if before is not None and tree(root) != before:
				res.bad("changed", "verification changed the disk for %r" % (plan,))
			core._rmtree(src)
			if len(res.problems) > 5:
				return res
	res.outcome = "%s %s %s" % (c["route"], len(targets), c["multi"])
	return res


def verify(route, srr, folder, auto):
	from rescene import srr as tool
	try:
		if route == "fn":
			return tool.verify_extracted_files(srr, folder, auto)
		tool.MessageThread.sleeptime = 0.001
		tool.mthread = tool.MessageThread()
		try:
			return tool.main([srr, "-q", "-i", folder] + (["-r"] if auto else []))
		except SystemExit as e:
			return e.code if e.code != 99 else "exit 99"
	except Exception as e:
		return "%s: %s" % (type(e).__name__, e)
