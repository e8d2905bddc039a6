"""R10: the block reader on every truncation and byte change; print_details on valid files."""
import io
import itertools
import os
import struct

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, rrar, write
from checks import r01

PROPERTY = "R10"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of single-byte faults and truncations of base archives, of header feature combinations, of optional header fields and of name encodings, against an independent block walker"
LEVEL_NOTE = ("Every truncation and every listed value at every byte of each base RAR/SRR (thorough: all 255 values, and pairs of changes in header fields) is read by the real reader and compared with an "
	"independent block walker. Damage needing three or more coordinated byte changes is out, and so is RAR 5.")
RULE = "one evaluation = one byte string read to the end (or one details print or one encoded name); outcomes are (base, refused/accepted with n blocks) classes"


# ------------------------------------------------------------------ bases
def bases():
	out = {}
	u = {"uni": "\u03b1\xe9.bin"}

	def one(name, members, cuts=(), i=0, **kw):
		vols = rs.build_set(members, cuts, **kw)
		out["rar:" + name] = vols[i].bytes()
		out["srr:" + name] = rs.srr_header("app 1") + rs.srr_stored("a.nfo", b"0123456") + b"".join(
			rs.srr_rarfile(v.name) + v.srr_meta() for v in vols[:2])
	one("plain", [rs.Member("a.bin", 12)])
	one("uni", [rs.Member("a.bin", 12, large=True, ext=b"\x9b\xb9" + b"\1\2\3" + b"\x51\x8a\x6b\x3c\5" + b"\x51\x8a\x6b\x3c\6" + b"\x51\x8a\x6b\x3c\7\x08\x09", salt=b"12345678", **u)])
	one("rr", [rs.Member("a.bin", 9)], rr=("new", 1))
	one("oldrr", [rs.Member("a.bin", 9)], rr=("old", 1))
	one("split", [rs.Member("a.bin", 30), rs.Member("d", is_dir=True)], [(0, 9), (0, 20)], i=1, naming="new")
	one("pad", [rs.Member("a.bin", 5)], pad=b"padding!")
	one("cmt", [rs.Member("a.bin", 5)], cmt="cmt")
	one("sub", [rs.Member("a.bin", 5)], cmt="oldsub", end="bare")
	one("oldcmt", [rs.Member("a.bin", 5, nolong=True)], cmt="oldcmt", end=None)
	out["srr:full"] = rs.build_srr("pyReScene \xfc", [("p/\xe9.nfo", b"xx"), ("e", b""), ("x.sfv", b"rel.rar 00000000\r\n")],
		rs.build_set([rs.Member("a.bin", 5)], pad=b"abc", cmt="av"), oso=[("a.avi", 1 << 33, "f" * 16)])
	kept = rs.srr_rarfile("k.rar", flags=0)
	v = rs.build_set([rs.Member("a.bin", 9)], rr=("new", 1))[0]
	out["srr:keptrr"] = rs.srr_header("x" * 9) + kept + b"".join(b.head + (b.data if b.kind != "file" else b"") for b in v.blocks)
	return out


_BASES = None


def base(name):
	global _BASES
	if _BASES is None:
		_BASES = bases()
	return _BASES[name]


# ------------------------------------------------------------------ independent walker
def walk(data):
	"""(tiles, complete): tiles = (position, header size, type, covered bytes);
	complete is False when the structure breaks off after them"""
	tiles = []
	n = len(data)
	if n < 20:
		return tiles, False
	if data[:8] == b"Rar!\x1a\x07\x01\x00":
		return tiles, False
	mode = {0x72: "rar", 0x69: "srr"}.get(data[2])
	if mode is None:
		return tiles, False
	pos = 0
	ended = False
	removed = True
	while pos != n:
		if pos > n:
			return tiles, False
		if ended and mode == "rar":
			tiles.append((pos, None, 0x6c, n - pos))
			return tiles, True
		if n - pos < 7:
			return tiles, False
		crc, t, fl, hs = struct.unpack_from("<HBHH", data, pos)
		if t == 0x7b:
			ended = True
		if hs < 7 or pos + hs > n:
			return tiles, False
		if hs < 11 and (fl & 0x8000 or t in (0x74, 0x7a)):
			return tiles, False
		if hs == 7:
			tiles.append((pos, 7, t, 7))
			pos += 7
			continue
		add = 0
		if fl & 0x8000 or t in (0x74, 0x7a):
			if hs < 11:
				return tiles, False
			(add,) = struct.unpack_from("<I", data, pos + 7)
		if t == 0x74 and fl & 0x100:
			if hs < 36:
				return tiles, False
			add += struct.unpack_from("<I", data, pos + 32)[0] << 32
		size = hs
		is_rr = t == 0x78 or (t == 0x7a and hs > 34 and data[pos + 26:pos + 28] == b"\2\0" and data[pos + 32:pos + 34] == b"RR")
		if mode == "rar":
			size += add
		else:
			if t == 0x71:
				removed = bool(fl & 1)
			if is_rr:
				size += 0 if removed else add
			elif t != 0x74:
				size += add
		tiles.append((pos, hs, t, size))
		pos += size
	return tiles, True


def payload_ranges(data):
	out = []
	for pos, hs, t, size in walk(data)[0]:
		if hs is None:
			out.append((pos, pos + size))
		elif size > hs and t != 0x6c:
			out.append((pos + hs, pos + size))
	return out


# ------------------------------------------------------------------ cases
def values(b, thorough):
	if thorough:
		return [v for v in range(256) if v != b]
	vs = {0, 1, 2, 6, 7, 8, 0x30, 0x69, 0x6a, 0x71, 0x72, 0x73, 0x74, 0x78, 0x7a, 0x7b, 0x7f, 0x80, 0xff, (b + 1) & 255, (b - 1) & 255} | {b ^ (1 << i) for i in range(8)}
	vs.discard(b)
	return sorted(vs)


DIMS = dict((k, r01.DIMS[k]) for k in ("layout", "naming", "flags", "rr", "end", "pad", "cmt", "arch"))
DIMS["os"] = [2, 0, 1, 3, 4, 5]
DIMS["method"] = [0x30, 0x31, 0x32, 0x33, 0x34, 0x35]
DIMS["ver"] = [20, 15, 26, 29, 36]
DIMS["dict"] = [0, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0]
DIMS["more"] = [0, 0x4, 0x8, 0x10, 0x2000]
DIMS["utf8"] = [None, "a.bin", "\xe9\u65e5.bin"]
DIMS["srrmode"] = ["plain", "stored", "oso", "noapp", "keep"]


def cases(ctx):
	out = []
	for name in bases():
		out.append({"k": "trunc", "base": name})
		n = len(base(name))
		for lo in range(0, n, 16):
			out.append({"k": "byte", "base": name, "at": [lo, min(n, lo + 16)], "all": ctx.thorough})
		for t, (pos, hs, typ, size) in enumerate(walk(base(name))[0]):
			out.append({"k": "pair", "base": name, "tile": t, "all": ctx.thorough})
	for d in deviations(DIMS, ctx.pick(2, 3), lambda d: not (d.get("end") in ("none", "zero") and d.get("pad"))):
		c = dict((k, v.hex() if isinstance(v, bytes) else v) for k, v in full(DIMS, d).items())
		c["k"] = "print"
		out.append(c)
	nib = ctx.pick((0, 8, 9, 11, 14, 15, 7), range(16))
	for m, cr, ac in itertools.product(nib, repeat=3):
		out.append({"k": "fields", "ext": [m, cr, ac]})
	alpha = ctx.pick(["a", "\xe9", "\u03b1", "\u03b2", "\u65e5"], ["a", "b", "\xe9", "\u03b1", "\u03b2", "\u65e5"])
	for n in range(1, ctx.pick(5, 6)):
		for w in itertools.product(alpha, repeat=n):
			out.append({"k": "name", "name": "".join(w)})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes), bases=len(bases()))


OK_ERRORS = (EnvironmentError, ValueError)


def check_read(res, path, data, label, must=False):
	"""reads data with the real reader and compares"""
	res.steps += 1
	with open(path, "wb") as f:
		f.write(data)
	tiles, complete = walk(data)
	got = []
	err = None
	try:
		r = rrar.RarReader(path)
		for b in r:
			got.append((b.block_position, b.header_size, b.rawtype, bytes(b.block_bytes())))
			if len(got) > len(data):
				res.bad("endless", "%s: more blocks than bytes" % label)
				return
		r.close()
	except OK_ERRORS as e:
		err = e
	except Exception as e:
		res.bad("error:" + type(e).__name__, "%s: %s: %s" % (label, type(e).__name__, core.short_tb(3)))
		return
	for i, (p, hs, t, raw) in enumerate(got):
		if i >= len(tiles):
			res.bad("tile", "%s: block %d at %r beyond the %d there are" % (label, i, p, len(tiles)))
			return
		tp, th, tt, ts = tiles[i]
		if th is None:  # padding made up by the reader
			if t != 0x6c or raw[11:] != data[tp:tp + ts]:
				res.bad("tile", "%s: padding at %d is not reported as such" % (label, tp))
				return
			continue
		if (p, hs, t) != (tp, th, tt):
			res.bad("tile", "%s: block %d is %r, expected %r" % (label, i, (p, hs, t), (tp, th, tt)))
			return
		if not raw.startswith(data[tp:tp + th]):
			res.bad("bytes", "%s: header bytes of block %d differ from the file" % (label, i))
			return
	if err is None and (not complete or len(got) != len(tiles)):
		res.bad("silent", "%s: damage not reported: %d blocks of %d, structure %s" % (label, len(got), len(tiles), complete))
	if must and (err is not None or not complete):
		res.bad("refused", "%s: refused: %r" % (label, err))
	# a second way in: read_all caches the same blocks
	try:
		blocks = rrar.RarReader(path).read_all()
		same = [(b.block_position, b.header_size, b.rawtype) for b in blocks]
		if err is not None or same != [g[:3] for g in got]:
			res.bad("readall", "%s: read_all differs from iterating" % label)
	except OK_ERRORS:
		if err is None:
			res.bad("readall", "%s: read_all fails, iterating does not" % label)
	except Exception as e:
		res.bad("error:" + type(e).__name__, "%s: %s: %s" % (label, type(e).__name__, core.short_tb(3)))
	return err is None, len(got)


def run_case(case):
	res = core.Result()
	path = os.path.join(core.scratch(), "x")
	k = case["k"]
	if k == "name":
		return names(case, res, path)
	if k == "print":
		return details(case, res)
	if k == "fields":
		return fields(case, res, path)
	data = base(case["base"])
	seen = set()
	if k == "trunc":
		check_read(res, path, data, "whole", must=True)
		for n in range(len(data)):
			seen.add(check_read(res, path, data[:n], "cut at %d" % n))
	elif k == "byte":
		pr = payload_ranges(data)
		for at in range(*case["at"]):
			inside = any(a <= at < b for a, b in pr)
			for v in values(data[at], case["all"]):
				m = data[:at] + bytes([v]) + data[at + 1:]
				seen.add(check_read(res, path, m, "byte %d = %02x" % (at, v), must=inside))
				if len(res.problems) > 6:
					return res
	else:
		pos, hs, typ, size = walk(data)[0][case["tile"]]
		if hs is None:
			res.outcome = "pad"
			return res
		width = min(hs, 46)
		vals = (0, 1, 0x7f, 0x80, 0xff, 7) if case["all"] else (0, 0x80, 0xff)
		# type, flags, sizes and lengths against every other header byte
		for a in range(2, min(hs, 34)):
			if not case["all"] and a not in (2, 3, 4, 5, 7, 9, 26, 27):
				continue
			for b in range(a + 1, width):
				for va in vals:
					for vb in vals:
						m = bytearray(data)
						m[pos + a], m[pos + b] = va, vb
						seen.add(check_read(res, path, bytes(m), "bytes %d = %02x, %d = %02x" % (pos + a, va, pos + b, vb)))
						if len(res.problems) > 6:
							return res
	res.outcome = "%s %s %s" % (k, case["base"], sorted(x for x in seen if x)[:6])
	return res


# ------------------------------------------------------------------ details of valid files
def details(c, res):
	members, cuts = r01.members_of(c, c["flags"])
	for m in members:
		m.kw.setdefault("os_", c["os"])
		m.kw["ver"] = m.kw.get("ver", c["ver"])
		if not m.is_dir:
			m.kw["method"] = c["method"]
			m.kw["flags"] = m.kw.get("flags", 0) | c["dict"] | c["more"]
	want = [m.kw.get("uni") or m.kw.get("utf8") or m.name for m in members]
	if c["utf8"]:
		m = members[-1]
		if not m.kw.get("uni") and not m.kw.get("utf8"):
			m.name = c["utf8"].encode("utf-8")
			m.kw["flags"] = m.kw.get("flags", 0) | 0x200
			want[-1] = c["utf8"]
	vols = rs.build_set(members, cuts, naming=c["naming"], rr=c["rr"] and tuple(c["rr"]), end=None if c["end"] == "none" else c["end"],
		pad=bytes.fromhex(c["pad"]), cmt=c["cmt"], arch_flags=c["arch"])
	root = core.scratch()
	s = c["srrmode"]
	srr = rs.srr_header("" if s == "noapp" else "app")
	if s == "stored":
		srr += rs.srr_stored("sub/\xe9.nfo", b"text")
	for v in vols:
		if s == "keep":
			srr += rs.srr_rarfile(v.name, flags=0) + b"".join(b.head + (b"" if b.kind == "file" else b.data) for b in v.blocks)
			if v.pad:
				srr += struct.pack("<HBHHI", 0x6c6c, 0x6c, 0x8000, 11, len(v.pad)) + v.pad
		else:
			srr += rs.srr_rarfile(v.name) + v.srr_meta()
	if s == "oso":
		srr += rs.srr_oso("a.avi", 1 << 34, "0" * 15 + "1")
	files = [("x.srr", srr)] + [(v.name, v.bytes()) for v in vols[:3]]
	for n, data in files:
		p = write(os.path.join(root, n), data)
		check_read(res, p, data, n, must=True)
		got = []
		for b in rrar.RarReader(p).read_all():
			if b.rawtype == 0x74 and b.file_name not in got:
				got.append(b.file_name)
		if n == "x.srr" and got != list(dict.fromkeys(want)):
			res.bad("names", "packed names %r read as %r" % (want, got))
		buf = io.StringIO()
		import contextlib
		try:
			with contextlib.redirect_stdout(buf):
				rmain.print_details(p)
		except Exception as e:
			res.bad("print:" + type(e).__name__, "details of %s: %s: %s" % (n, type(e).__name__, core.short_tb(3)))
			continue
		text = buf.getvalue()
		if text.count("\n|HEAD_CRC: ") != len(walk(data)[0]):
			res.bad("print", "the details of %s do not show all blocks" % n)
		for w in got:
			if "+FILE_NAME: %s\n" % w not in text:
				res.bad("print", "the details of %s lack %r" % (n, w))
	res.steps += len(files)
	res.outcome = "print %s %s %s" % (c["layout"], c["flags"], c["srrmode"])
	return res


# ------------------------------------------------------------------ fields of a member header
def dos(stamp):
	return ((stamp >> 25) + 1980, stamp >> 21 & 15, stamp >> 16 & 31, stamp >> 11 & 31, stamp >> 5 & 63, (stamp & 31) * 2)


STAMPS = (0x3c6b8a51, 0x51a45b3c, 0x2a2bb7c1, 0x7f9fbf7d)
PARTS = (b"\x01\x02\x03", b"\xff\x80\x7f", b"\x00\x00\x98", b"\x10\x27\x00")


def fields(case, res, path):
	"""every optional field, present and absent, with values of every width"""
	seen = set()
	for arc in (0, 8, 15):
		nibbles = case["ext"] + [arc]
		ext = struct.pack("<H", sum(x << 4 * (3 - i) for i, x in enumerate(nibbles)))
		times = []
		for i, x in enumerate(nibbles):
			if not x & 8:
				times.append(dos(STAMPS[0]) if i == 0 else None)
				continue
			n = x & 3
			part = PARTS[i][:n]
			if i:
				ext += struct.pack("<I", STAMPS[i])
			ext += part
			t = dos(STAMPS[i])
			frac = int.from_bytes(bytes(3 - n) + part, "little") / 10000000
			times.append(t[:5] + (t[5] + frac + (1 if x & 4 else 0),))
		for salt, large, name, withext in itertools.product((None, b"\xff" * 8, b"12345678"), (False, True), ({}, {"uni": "\u03b1\xe9.bin"}, {"utf8": "\u65e5.bin"}), (True, False)):
			if not withext and (case["ext"] != [0, 0, 0] or arc):
				continue
			pack, unp = 5, (7 << 32 | 0xfedcba98) if large else 0xfedcba98
			b = rs.file_block("a.bin", b"12345", unp, 0x89abcdef, large=large, salt=salt, ext=ext if withext else None, attr=0x81b4a020, os_=3, ver=29, method=0x33, dtime=STAMPS[0], **name)
			vols = b"Rar!\x1a\x07\0" + rs.header(0x73, 0, bytes(6)) + b.head + b.data
			with open(path, "wb") as f:
				f.write(vols)
			want = {"packed_size": pack, "unpacked_size": unp, "os": 3, "file_crc": 0x89abcdef, "rar_version": 29, "compression_method": 0x33, "file_attributes": 0x81b4a020,
				"file_datetime": dos(STAMPS[0]), "salt": salt, "file_name": name.get("uni") or name.get("utf8") or "a.bin"}
			want.update(zip(("mtime", "ctime", "atime", "arctime"), times if withext else [None] * 4))
			res.steps += 1
			try:
				blocks = rrar.RarReader(path).read_all()
				blk = blocks[2]
				text = blk.explain()
			except Exception as e:
				res.bad("fields:" + type(e).__name__, "times %s, salt %s, large %s, name %s: %s" % (nibbles, salt, large, name, core.short_tb(3)))
				return res
			for key, v in want.items():
				got = getattr(blk, key)
				if got != v and not (isinstance(v, tuple) and got and tuple(got[:5]) == v[:5] and abs(got[5] - v[5]) < 1e-9):
					res.bad("field " + key, "times %s, salt %s, large %s, name %s: %s is %r in the file and %r when read" % (nibbles, salt, large, name, key, v, got))
					return res
			if want["file_name"] not in text:
				res.bad("field text", "the name %r is not in the details" % want["file_name"])
			seen.add((large, bool(salt)))
	res.outcome = "fields %s %d" % ([bool(x & 8) for x in case["ext"]], len(seen))
	return res


# ------------------------------------------------------------------ names
def encodings(std, name):
	"""every way to write `name` with the RAR unicode name opcodes.
	Yields encoded byte strings (high byte chosen per encoding)."""
	his = {0} | {ord(c) >> 8 for c in name}
	n = len(name)

	def ops(i, hi):
		"""lists of (opcode, bytes) from position i"""
		if i == n:
			yield []
			return
		c = ord(name[i])
		first = []
		if c < 256:
			first.append((0, bytes([c]), 1))
		if c >> 8 == hi:
			first.append((1, bytes([c & 255]), 1))
		first.append((2, struct.pack("<H", c), 1))
		for run in range(2, n - i + 1):
			part = name[i:i + run]
			if all(ord(x) == std[i + j] for j, x in enumerate(part)):
				first.append((3, bytes([run - 2]), run))
			if all(ord(x) >> 8 == hi for x in part):
				cor = {(ord(x) - std[i + j]) & 255 for j, x in enumerate(part)}
				if len(cor) == 1:
					first.append((3, bytes([0x80 | (run - 2), cor.pop()]), run))
		for op, b, k in first:
			for rest in ops(i + k, hi):
				yield [(op, b)] + rest
	for hi in sorted(his):
		for seq in ops(0, hi):
			enc = bytearray([hi])
			for g in range(0, len(seq), 4):
				group = seq[g:g + 4]
				fl = 0
				for j, (op, b) in enumerate(group):
					fl |= op << (6 - 2 * j)
				enc.append(fl)
				for op, b in group:
					enc += b
			yield bytes(enc)


def names(case, res, path):
	name = case["name"]
	stds = {name.encode("cp1252", "replace"), "".join(c if ord(c) < 128 else "_" for c in name).encode(),
		bytes((ord(c) & 255) or 1 for c in name)}
	seen = set()
	for std in sorted(stds):
		for enc in encodings(std, name):
			seen.add((std, enc))
	for std, enc in sorted(seen):
		raw = std + b"\0" + enc
		b = rs.file_block(raw, b"", 0, 0, flags=0x200)
		res.steps += 1
		blk = rrar.RarPackedFileBlock(b.head, 20, path)
		if blk.file_name != name:
			res.bad("decode", "name %r encoded as %s reads as %r" % (name, raw.hex(), blk.file_name))
			break
	# UTF-8 form: no zero byte
	b = rs.file_block(name.encode("utf-8"), b"", 0, 0, flags=0x200)
	res.steps += 1
	try:
		blk = rrar.RarPackedFileBlock(b.head, 20, path)
		if blk.file_name != name:
			res.bad("utf8", "UTF-8 name %r reads as %r" % (name, blk.file_name))
	except Exception as e:
		res.bad("utf8", "UTF-8 name %r: %s" % (name, core.short_tb(3)))
	res.outcome = "name %d %d" % (len(name), len(seen))
	return res
