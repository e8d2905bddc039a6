"""R08: SFV parsing is complete; ordering and volume naming agree."""
import itertools
import os

from mc import core
from mc.rescenelib import rutil, rmain, write

PROPERTY = "R08"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive token sequences against an independent SFV model; exhaustive permutations of volume selections"
LEVEL_NOTE = ("All texts of up to 5 (thorough 6) tokens over an alphabet of names, separators, line ends, comment marks, checksums and junk; all permutations of all selections of up to 5 (thorough 6) entries "
	"from roll-over windows of every naming scheme, mixed with a second set, other files and other casings; the name test over all extensions of up to 3 characters.")
RULE = "one evaluation = one text parsed or one permutation sorted; outcomes are (entries, comments, errors) counts or set classes"

TOK = [b"a.rar", b" ", b"\t", b"\r", b"\n", b";", b"12345678", b"fF0", b"g", b"\"", b"\xe9.r00", b"123456789"]
HEX = set("0123456789abcdefABCDEF")
WS = b" \t\n\r\x0b\x0c"


def model(data):
	ents, com, err = [], [], []
	for line in data.replace(b"\r", b"\n").split(b"\n"):
		t = line.strip(WS)
		if not t:
			continue
		if t[:1] == b";":
			com.append(line)
			continue
		i = max(t.rfind(b" "), t.rfind(b"\t"))
		name, crc = t[:i].strip(WS) if i >= 0 else b"", t[i + 1:].decode("latin-1")
		if i < 0 or not 1 <= len(crc) <= 8 or not set(crc) <= HEX:
			err.append(line)
			continue
		ents.append((name.decode("latin-1").strip('"').replace("\t", "    "), crc.rjust(8, "0")))
	return ents, com, err


def texts(first, depth):
	for n in range(0, depth):
		for t in itertools.product(TOK, repeat=n):
			yield first + b"".join(t)


def old(i):
	return ".rar" if i == 0 else ".%s%02d" % (chr(ord("r") + (i - 1) // 100), (i - 1) % 100)


SCHEMES = {
	"old": lambda b, i: b + old(i),
	"new1": lambda b, i: "%s.part%d.rar" % (b, i + 1),
	"new2": lambda b, i: "%s.part%02d.rar" % (b, i + 1),
	"new3": lambda b, i: "%s.part%03d.rar" % (b, i + 1),
	"num": lambda b, i: "%s.%03d" % (b, i + 1),
	"num0": lambda b, i: "%s.%03d" % (b, i),
}
COUNT = {"old": 901, "new1": 9, "new2": 99, "new3": 999, "num": 999, "num0": 1000}


def windows(scheme):
	n = COUNT[scheme]
	if n == 9:
		return [list(range(0, 9))]
	w = [[0, 1, 2, 3, 9, 10, 11, 12], [0, 1, 8, 9, 10, 18, 19, 20]]
	if n > 99:
		w += [[0, 1, 98, 99, 100, 101, 102, 103], [0, 1, 99, 100, 199, 200, 201, 202]]
	if n > 899:
		w.append([0, 1, 100, 101, n - 3, n - 2, n - 1, 500])
	return [sorted(x for x in v if x < n) for v in w]


def explore(ctx):
	cs = []
	for a in TOK:
		cs.append({"k": "text", "first": a.hex(), "depth": ctx.pick(4, 5)})
		for b in TOK:
			cs.append({"k": "text", "first": (a + b).hex(), "depth": ctx.pick(4, 5)})
	cs.append({"k": "bytes"})
	for s in SCHEMES:
		for wi in range(len(windows(s))):
			for extra in ("none", "nfo", "other", "between", "capsome", "capall", "dup"):
				for base in ctx.pick(("Rel.Name-GRP", "x.r5"), ("rel", "Rel.Name-GRP", "x.r5", "a.part1", "cd1.rar")):
					cs.append({"k": "perm", "scheme": s, "w": wi, "extra": extra, "base": base, "n": ctx.pick(4, 5)})
		cs.append({"k": "all", "scheme": s})
	cs.append({"k": "israr"})
	names = ["rel.rar", "rel.r00", "a b.nfo", "rel.part02.rar", "x.001", "sub\\y.avi"]
	for n in range(1, ctx.pick(4, 5)):
		for sel in itertools.combinations(names, n):
			cs.append({"k": "same", "names": list(sel)})
	ctx.run(cs, chunk=1)
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(ctx.outcomes))


def check_text(res, data, via=None):
	ents, com, err = model(data)
	if any(not n for n, c in ents) or any(l.strip(WS) != l.rstrip(WS) and len(l.split()) == 1 for l in data.replace(b"\r", b"\n").split(b"\n")):
		amb = True   # a checksum without a name: either reading is fine
	else:
		amb = False
	e, c, r = rutil.parse_sfv_data(data) if via is None else rutil.parse_sfv_file(via)
	got = ([(x.file_name, x.crc32) for x in e], c, r)
	res.steps += 1
	if amb:
		named = [x for x in got[0] if x[0]]
		if named != [x for x in ents if x[0]]:
			res.bad("entries", "%r: entries %r, expected %r" % (data, named, ents))
		return
	if got[0] != ents:
		res.bad("entries", "%r: entries %r, expected %r" % (data, got[0], ents))
	if [x.strip() for x in got[1]] != [x.decode("latin-1").strip() for x in com]:
		res.bad("comments", "%r: comments %r" % (data, got[1]))
	if [x.strip() for x in got[2]] != [x.decode("latin-1").strip() for x in err]:
		res.bad("errors", "%r: errors %r" % (data, got[2]))


def run_case(case):
	res = core.Result()
	k = case["k"]
	if k == "text":
		f = bytes.fromhex(case["first"])
		for data in texts(f, case["depth"]):
			check_text(res, data)
			if len(res.problems) > 5:
				break
		res.outcome = "text"
	elif k == "bytes":
		root = core.scratch()
		for b in range(256):
			x = bytes([b])
			for data in (b"na" + x + b"me.rar 1234abcd\r\n", b"name.rar " + x + b"234abcd", b"name.rar 1234abcd\n" + x + b"second.r00 00000001\n",
					x + b"name 1234abcd", b"name" + x + b" 1234abcd", b"name.rar" + x + b"1234abcd", b"; com" + x + b"ment"):
				if b in b"\x0b\x0c\xa0\x85\x1c\x1d\x1e\x1f\"" and (data.startswith(x) or data.startswith(b"name" + x) or b"\n" + x in data or b" " + x in data):
					continue   # quotes and exotic white space around a name are stripped
				check_text(res, data)
				p = write(os.path.join(root, "x.sfv"), data)
				check_text(res, data, p)
				with open(p, "rb") as fh:
					fh.read(3)
					check_text(res, data, fh)
		res.outcome = "bytes"
	elif k == "perm":
		perm(case, res)
	elif k == "same":
		same(case, res)
	elif k == "all":
		s = case["scheme"]
		f = SCHEMES[s]
		n = COUNT[s]
		names = [f("rel", i) for i in range(n)]
		for order in (names, names[::-1], names[n // 2:] + names[:n // 2], names[1::2] + names[::2]):
			got = [e.file_name for e in sorted([rutil.SfvEntry(x, "1") for x in order])]
			res.steps += 1
			if got != names:
				i = [a == b for a, b in zip(got, names)].index(False)
				res.bad("all", "%s: %d volumes sorted wrong from position %d (%s)" % (s, n, i, got[i]))
			if not all(rutil.is_rar(x) and rutil.is_rar(x.upper()) for x in names):
				res.bad("israr", "a volume name of %s is not seen as a RAR" % s)
			got = [e.file_name for e in rutil.filter_sfv_duplicates([rutil.SfvEntry(x, "1") for x in order + order])]
			if got != names:
				res.bad("dup", "%s: duplicate filtering gives %d entries" % (s, len(got)))
		res.outcome = "all|" + s
	else:
		alpha = "0189aqrRszZ._- x"
		legal = 0
		for n in range(0, 5):
			for t in itertools.product(alpha, repeat=n):
				name = "x." + "".join(t)
				# independent reading of the naming rules
				ext = name[-3:].lower()
				want = len(name) > 3 and name[-4] == "." and (ext == "rar" or (ext[0] in "rstuvwxyz" and ext[1] in "0123456789" and ext[2] in "0123456789")
					or all(c in "0123456789" for c in ext))
				res.steps += 1
				legal += want
				if rutil.is_rar(name) != want:
					res.bad("israr", "is_rar(%r) is %r" % (name, not want))
		for name in ("x.rar", ".rar", "rar", "x.cbr", "x.exe", "x.rar ", "x.rar.txt", "x.r0", "x.r000", "x.0001", "dir/x.r00", "x.part1.rar", "x.zip", "x.q99", "x.sfv", "x.\xb2\xb3\xb9"):
			want = name in ("x.rar", ".rar", "dir/x.r00", "x.part1.rar")
			res.steps += 1
			if rutil.is_rar(name) != want:
				res.bad("israr", "is_rar(%r) is %r" % (name, not want))
		res.outcome = "israr|%d" % legal
	return res


SAME = ["same", "crc", "name", "less", "more", "comment", "upper", "crlf", "spaces", "other name", "swapped"]


def same(case, res):
	"""do two SFV files say the same?"""
	import io
	pool = case["names"]
	first = [(n, "%08x" % (0x0badf00d + 7 * i)) for i, n in enumerate(pool)]
	one = "".join("%s %s\r\n" % e for e in first).encode("latin-1")
	for p in itertools.permutations(first):
		for how in SAME:
			for at in range(len(p)):
				e, want, head, nl, gap = list(p), True, "", "\n", " "
				n, c = e[at]
				if how == "crc":
					e[at], want = (n, "%08x" % (int(c, 16) ^ 1)), False
				elif how == "name":
					e[at], want = ("x" + n, c), False
				elif how == "other name":
					e[at], want = (n[:-1] + "z", c), False
				elif how == "less":
					del e[at]
					want = False
				elif how == "more":
					e.insert(at, ("more.nfo", "00000001"))
					want = False
				elif how == "swapped":
					if len(e) < 2:
						continue
					other = (at + 1) % len(e)
					e[at], e[other] = (n, e[other][1]), (e[other][0], c)
					want = False
				elif how == "comment":
					head = "; made by x 1.0\n\n; %s 12345678\n" % n
				elif how == "upper":
					e[at] = (n.upper(), c.upper())
				elif how == "crlf":
					nl = "\r\n"
				elif how == "spaces":
					gap = "   \t"
				two = (head + "".join(a + gap + b + nl for a, b in e)).encode("latin-1")
				res.steps += 1
				for x, y in ((one, two), (two, one)):
					if rutil.same_sfv(io.BytesIO(x), io.BytesIO(y)) != want:
						res.bad("same", "%s: %r and %r are %sthe same" % (how, x, y, "not " if want else ""))
						return
	res.outcome = "same|%d" % len(pool)


def perm(case, res):
	f = SCHEMES[case["scheme"]]
	win = windows(case["scheme"])[case["w"]]
	base, extra = case["base"], case["extra"]
	fixed = []
	if extra == "nfo":
		fixed = [base + ".nfo", base + ".r0x"]
	elif extra == "other":
		fixed = [f("zother", 0), f("zother", 1)]
	elif extra == "between":
		fixed = [base + ".r5.mp3", base + ".part.avi"]
	for n in range(2, case["n"] + 1):
		for sel in itertools.combinations(win, n):
			names = [f(base, i) for i in sel]
			if extra == "capall":
				names = [x.upper() for x in names]
			elif extra == "capsome":
				names = [x.upper() if i % 2 else x for i, x in enumerate(names)]
			pool = names + (fixed if n < 4 else fixed[:1])
			if extra == "dup":
				pool = names + [names[0], names[-1].upper()]
			perms = list(itertools.permutations(pool))
			for p in perms:
				res.steps += 1
				es = [rutil.SfvEntry(x, "abc1") for x in p]
				got = [e.file_name for e in sorted(es)]
				if extra == "dup":
					g2 = [e.file_name.lower() for e in rutil.filter_sfv_duplicates(es)]
					if g2 != [x.lower() for x in names]:
						res.bad("dup:" + case["scheme"], "%r: without duplicates %r" % (p, g2))
					continue
				if [x for x in got if x in names] != names:
					res.bad("order:" + extra, "%r sorts to %r" % (p, got))
				if sorted(got) != sorted(pool):
					res.bad("lost", "%r sorts to %r" % (p, got))
				if fixed and extra == "other" and n < 4 and [x for x in got if x in fixed] != fixed:
					res.bad("order2", "%r sorts to %r" % (p, got))
			if len(res.problems) > 5:
				return
	res.outcome = "perm|%s|%s" % (case["scheme"], extra)
