"""R07: the RAR stream reads like the packed file."""
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rmain, write
from rescene.rarstream import RarStream

PROPERTY = "R07"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive operation sequences up to a depth on the real stream, in lockstep with a model file, over all volume layouts"
LEVEL_NOTE = ("Every sequence of up to 2 (all layouts) and 3 (most layouts; thorough: 3 and 4) seeks and reads from an alphabet covering all origins, negative, past-the-end and volume-straddling "
	"positions and sizes, on every placement of up to 3 volume boundaries (incl. empty parts) in a short member, plus layouts with several members, names, flags, recovery records and a sparse 5 GiB member.")
RULE = "one evaluation = one operation sequence on a freshly opened stream compared step by step with the member's bytes; outcomes are layout classes"


def ops_for(n):
	o = []
	for a in sorted({0, 1, n // 2, max(0, n - 1), n, n + 2}):
		o.append(["s", a, 0])
	o += [["s", -1, 0], ["s", 2, 1], ["s", -2, 1], ["s", 0, 2], ["s", -1, 2], ["s", -3, 2]]
	for a in sorted({0, 1, 2, 3, n, n + 3}):
		o.append(["r", a])
	o += [["r", -1], ["l"]]
	return o


def step(f, op, cur, data):
	"""model: returns (expected result, new position)"""
	n = len(data)
	if op[0] == "s":
		p = (0, cur, n)[op[2]] + op[1]
		return ("neg", cur) if p < 0 else (p, p)
	if op[0] == "r":
		x = data[cur:] if op[1] < 0 else data[cur:cur + op[1]]
		return x, cur + len(x)
	x = data[cur:].split(b"\n")
	x = x[0] + b"\n" if len(x) > 1 else x[0]
	return x, cur + len(x)


def perform(f, op):
	if op[0] == "s":
		try:
			return f.seek(op[1], op[2])
		except (IndexError, ValueError, IOError):
			return "neg"
	if op[0] == "r":
		return f.read(op[1])
	return f.readline()


def layouts(ctx):
	out = []
	n = 6
	cutpos = [-1] + list(range(1, n)) + [n]
	for k in range(0, 4):
		for cuts in itertools.combinations_with_replacement(cutpos, k):
			out.append({"members": [["a.bin", n]], "cuts": [[0, c] for c in cuts], "naming": "new", "want": None, "depth": 3 if k < 2 or ctx.thorough else 2})
	multi = [["dir", None], ["e.bin", 0], ["sub\\a.bin", 7], ["a.bin", 5], ["A.bin", 4], ["last.bin", 3]]
	for naming in ("old", "new", "num", "new2"):
		for cuts in ([], [[2, 3]], [[3, 0]], [[2, 1], [3, 2]], [[2, 3], [2, 5], [4, 1]], [[3, -1]], [[3, 0], [3, -1], [3, 5]]):
			for want in ("sub/a.bin", "sub\\a.bin", "a.bin", "A.bin", "last.bin", "e.bin"):
				for kw in ({}, {"rr": ["new", 1], "cmt": "cmt"}) + (({"rr": ["old", 1], "pad": 9, "cmt": "av"},) if naming == "old" else ()):
					out.append(dict({"members": multi, "cuts": cuts, "naming": naming, "want": want, "depth": ctx.pick(2, 3)}, **kw))
	deep = [["x\\y\\a.bin", 6], ["x\\a.bin", 5], ["x\\y\\z\\a.bin", 7], ["y\\a.bin", 3]]
	for cuts in ([], [[0, 2], [2, 3]]):
		for name, _n in deep:
			for want in sorted({name, name.replace("\\", "/"), name.replace("\\", "/", 1)}):
				out.append({"members": deep, "cuts": cuts, "naming": "old", "want": want, "depth": 2})
	# long names: headers of more than 255 bytes
	for n in (200, 223, 224, 250, 300, 1000):
		for cuts in ([], [[0, 2], [1, 3]]):
			for want in (0, 1):
				deep = [["d\\" + "n" * (n - 6) + ".bin", 6], ["m" * n, 5]]
				out.append({"members": deep, "cuts": cuts, "naming": "old", "want": deep[want][0], "depth": 2})
	for naming in ("old", "new"):
		for first in (["e.bin", 0], ["f.bin", 4]):
			for cuts in ([[1, 0]], [[1, 2]], [[1, 0], [2, 0]], [[1, 2], [2, 1]]):
				out.append({"members": [first] + multi[2:], "cuts": cuts, "naming": naming, "want": None, "depth": 2})
	for flag in ("large", "uni", "ext", "salt"):
		for cuts in ([], [[0, 2], [0, 4]]):
			out.append({"members": [["a.bin", 6], ["b.bin", 3]], "cuts": cuts, "naming": "old", "want": None, "flag": flag, "depth": 3})
	# files that are large compared to the read sizes
	for cuts in ([[0, 65536]], [[0, 65535], [0, 65537]], [[0, 1], [0, 131071]]):
		out.append({"members": [["a.bin", 131073]], "cuts": cuts, "naming": "old", "want": None, "depth": 2})
	for caps in (True,):
		out.append({"members": [["a.bin", 9]], "cuts": [[0, 2], [0, 7]], "naming": "old", "want": None, "depth": 2, "count": 1})
	# long sets: all volume counts across the naming roll-over
	for naming in ("old", "num", "new"):
		for c in (9, 10, 11, 99, 100, 101, 102, 103):
			out.append({"members": [["a.bin", c]], "cuts": [[0, i] for i in range(1, c)], "naming": naming, "want": None, "depth": 1})
	# starting in the middle is allowed when asked for
	for v in (1, 2):
		out.append({"members": [["x.bin", 4], ["a.bin", 9]], "cuts": [[1, 0], [1, 4]], "naming": "new", "want": "a.bin", "depth": 2, "middle": 1})
	return out


def errors():
	out = []
	for naming in ("old", "new", "num"):
		for what in ("missing", "second", "unknown", "dironly", "comp", "compok", "notrar", "nodir", "compsecond"):
			out.append({"err": what, "naming": naming})
	return out


def explore(ctx):
	ls = layouts(ctx)
	ctx.run(ls + errors() + [{"huge": 1}], chunk=2)
	ctx.cover.update(evaluations=ctx.steps, layouts=len(ls), distinct_nontrivial=len(ctx.outcomes))


def run_case(case):
	res = core.Result()
	root = core.scratch()
	if "err" in case:
		return err_case(case, res, root)
	if "huge" in case:
		return huge_case(res, root)
	flag = case.get("flag")
	kw = {"large": {"large": True}, "ext": {"ext": b"\x00\xb0\x01\x02\x03"}, "salt": {"salt": b"12345678"}, None: {}, "uni": {}}[flag]
	mem = []
	for n, s in case["members"]:
		k = dict(kw)
		if flag == "uni":
			k["uni"] = n.replace("a", "\u03b1")
		if s is None:
			mem.append(rs.Member(n, is_dir=True, **k))
		else:
			d = rs.payload(n, s)
			if s > 3:
				d = d[:s // 3] + b"\n" + d[s // 3 + 1:]
			mem.append(rs.Member(n, data=d, **k))
	vols = rs.build_set(mem, [tuple(c) for c in case["cuts"]], case["naming"], "rel",
		rr=case.get("rr") and tuple(case["rr"]), cmt=case.get("cmt"), pad=b"\0" * case.get("pad", 0))
	for v in vols:
		write(os.path.join(root, v.name), v.bytes())
	want = case["want"]
	first = vols[case.get("middle", 0)].name
	if want is None:
		data = mem[0].data
		inner = mem[0].name if flag != "uni" else mem[0].kw["uni"]
	else:
		inner = want.replace("/", "\\")
		data = [m for m in mem if m.name == inner][0].data
	path = os.path.join(root, first)
	args = (path, want) + ((True,) if case.get("middle") else ())
	n = len(data)
	ops = ops_for(n)
	seqs = [()]
	for d in range(1, case["depth"] + 1):
		if d == case["depth"]:
			seqs = list(itertools.product(ops, repeat=d))
	for seq in seqs:
		f = RarStream(*args)
		pos = 0
		res.steps += 1
		if f.length() != n or f.tell() != 0 or f.packed_file_name != inner or not f.readable() or not f.seekable() or f.writable():
			res.bad("open", "%r: length %r tell %r name %r" % (case, f.length(), f.tell(), f.packed_file_name))
			break
		for i, op in enumerate(seq):
			exp, pos = step(f, op, pos, data)
			got = perform(f, op)
			if got != exp or f.tell() != pos or f.length() != n:
				res.bad("ops", "%r cuts %r: after %r, %r gives %r at %r, the file gives %r at %r" % (
					want, case["cuts"], list(seq[:i]), op, got, f.tell(), exp, pos))
				break
		f.close()
		if not f.closed:
			res.bad("close", "not closed after close()")
		if len(res.problems) > 3:
			break
	res.outcome = "%s|%d|%s|%s|%s|%s" % (case["naming"], len(vols), len(case["members"]), flag, want, n)
	return res


def err_case(case, res, root):
	naming = case["naming"]
	w = case["err"]
	mem = [rs.Member("a.bin", 9), rs.Member("b.bin", 5)]
	cuts = [(0, 3), (0, 6)]
	exp = ("AttributeError",)
	arg = None
	start = 0
	kw = {}
	if w == "dironly":
		mem, cuts = [], []
	if w in ("comp", "compok"):
		mem = [rs.Member("a.bin", 9, method=0x33)]
	if w == "compsecond":
		mem = [rs.Member("a.bin", 9), rs.Member("b.bin", 5, method=0x35)]
		arg = "b.bin"
	vols = rs.build_set(mem, cuts, naming, "rel")
	for v in vols:
		write(os.path.join(root, v.name), v.bytes())
	path = os.path.join(root, vols[0].name)
	if w in ("missing", "nodir"):
		path = os.path.join(root, "no.rar" if w == "missing" else "nodir/x.rar")
		exp = ("ArchiveNotFoundError",)
	elif w == "second":
		path = os.path.join(root, vols[1].name)
	elif w == "unknown":
		arg = "c.bin"
	elif w == "notrar":
		write(path, b"not a RAR archive at all............")
		exp = ("ValueError",)
	from rescene.rarstream import RarStream
	try:
		f = RarStream(path, arg, compressed=w == "compok")
		got = "ok"
		if w == "compok" and f.read() != mem[0].data:
			res.bad("comp", "the compressed bytes are not returned")
	except (AttributeError, ValueError, EnvironmentError) as e:
		got = type(e).__name__
	except Exception as e:
		got = type(e).__name__
	if w == "compok":
		exp = ("ok",)
	if got not in exp:
		res.bad("error:" + w, "%s (%s): %s instead of %s" % (w, naming, got, exp[0]))
	res.steps = 1
	res.outcome = "err|%s|%s" % (w, got)
	return res


def huge_case(res, root):
	"""three volumes of 1.9 GiB (sparse files)"""
	part = 1900 << 20
	total = part * 3
	marks = {}
	for v in range(3):
		fl = (1 if v else 0) | (2 if v < 2 else 0)
		b = rs.file_block("a.bin", b"", total, 0x11111111, flags=fl, large=True)
		head = bytearray(b.head)
		import struct
		struct.pack_into("<I", head, 7, part & 0xffffffff)
		head = bytes(head)
		struct.pack_into
		head = struct.pack("<H", rs.crc32(head[2:]) & 0xffff) + head[2:]
		lead = rs.mark().head + rs.archive(0x11 | (0x100 if v == 0 else 0)).head + head
		with open(os.path.join(root, "rel.part%d.rar" % (v + 1)), "wb") as f:
			f.write(lead)
			for off in (0, part - 8):
				f.seek(len(lead) + off)
				d = rs.payload("m%d-%d" % (v, off), 8)
				f.write(d)
				for i in range(8):
					marks[v * part + off + i] = d[i]
			f.seek(len(lead) + part)
			f.write(rs.end_block("bare", v < 2, v, 0).head)

	def model(p, s):
		return bytes(marks.get(i, 0) for i in range(p, min(total, p + s)))
	path = os.path.join(root, "rel.part1.rar")
	pts = [0, part - 9, part - 8, part - 1, part, part + 1, 2 * part - 4, 2 * part, (1 << 31) - 4, (1 << 32) - 4, (1 << 32) + 5, total - 5, total - 1, total, total + 9]
	for a in pts:
		for b in pts:
			f = RarStream(path)
			if f.length() != total:
				res.bad("huge", "length %d of a %d byte member" % (f.length(), total))
				return res
			for p, how in ((a, 0), (b, 1), (a, 2)):
				q = f.seek(p - (0, f.tell(), total)[how], how)
				d = f.read(12)
				res.steps += 1
				if q != p or d != model(p, 12) or f.tell() != p + len(model(p, 12)):
					res.bad("huge", "reading 12 bytes at %d (origin %d) gives %r" % (p, how, d))
			f.close()
			if len(res.problems) > 3:
				return res
	res.outcome = "huge"
	return res
