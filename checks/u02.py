"""U02: yEnc articles are decoded to the posted bytes, and damaged ones are recognized."""
import itertools

from mc import core
from mc import yencsyn as ys
from mc import rarsyn as rs

PROPERTY = "U02"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of byte strings, line widths, escape choices, header forms and single damages against an independent yEnc encoder"
LEVEL_NOTE = ("All byte strings of length 0 to 2 and all strings up to length 4 (thorough 5) over the bytes whose encoding is special, in every line width up to the length and 128, with 5 policies of escaping; all combinations of up to 3 non-default header forms; "
	"every single damage (each byte changed to 20 (thorough: all 255) other values, deleted, doubled; each line deleted or doubled; each truncation at the front or back) of 6 articles. Checksums are 32 bit: a damage that keeps the CRC-32 does not occur in the explored space. "
	"What the checksum does not cover (the name, and the total size of a multipart file) is not claimed, and neither is the reduced checking that RAR volumes ask for.")
RULE = "one evaluation = one decoded article; outcomes are (form, what the decoder said)"

POLICIES = [dict(escapes=ys.ALWAYS, edges=True, dots=True), dict(escapes=ys.ALWAYS, edges=False, dots=False),
	dict(escapes=ys.COMMON, edges=True, dots=True), dict(escapes=ys.EVERY, edges=True, dots=True), dict(escapes=ys.ALWAYS, edges=False, dots=True)]
# the plain values of \0 \n \r = . tab space y @ } and one that is never special
SPECIAL = [(e - 42) & 0xff for e in (0, 10, 13, 61, 46, 9, 32, ord("y"), ord("@"), ord("}"), 200)]

NAMES = [b"file.bin", b"a b.r00", b"-=DUMMY=- abc.par", b"x part=7.rar", b"x total=9 y.rar", b"name=n.bin", b"\"q.nfo\"", b"caf\xe9.sfv", b"\xc3\xa9 [1/2] - .txt", b"size=5", b"x=ybegin part=1"]
FORMS = {
	"name": NAMES, "part": [None, (1, 1), (1, 3), (2, 3), (3, 3), (1, 0), (2, 0)], "crcs": [("part",), ("part", "whole"), ],
	"upper": [False, True], "text": [0, 1, 2, 8, 9], "blank": [0, 1, 3], "after": [0, 1, 5], "width": [128, 64, 5, 1, 997],
	"extra_begin": [(), (b"id=abc",)], "extra_end": [(), (b"extra=1",)], "size": [300, 0, 1, 299],
}


def damages(thorough):
	out = []
	for a in range(6):
		for k in ("byte", "del", "dup", "line", "cut"):
			if k == "byte":
				for part in range(8):
					out.append({"k": "damage", "art": a, "how": k, "part": part, "all": thorough})
			else:
				out.append({"k": "damage", "art": a, "how": k})
	return out


def cases(ctx):
	from mc.deviate import deviations, full
	cs = [{"k": "pairs", "first": f} for f in range(-1, 256)]
	n = ctx.pick(4, 5)
	for ln in range(0, n + 1):
		for pre in itertools.product(range(len(SPECIAL)), repeat=max(0, min(2, ln - 2))):
			cs.append({"k": "special", "len": ln, "pre": list(pre)})
	for dv in deviations(FORMS, ctx.pick(3, 4)):
		dv = full(FORMS, dv)
		if dv["size"] < 3 and dv["part"] and dv["part"][1] != 1:
			continue
		dv = dict(dv, name=dv["name"].decode("latin-1"), extra_begin=len(dv["extra_begin"]), extra_end=len(dv["extra_end"]))
		cs.append({"k": "form", "f": dv})
	cs += damages(ctx.thorough)
	for t in range(8):
		cs.append({"k": "plain", "t": t})
	return cs


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(ctx.outcomes))


_y = None


def yenc():
	global _y
	if _y is None:
		core.setup_repo_path()
		import yenc as m
		_y = m
	return _y


def decode(lines, partial=False, ignore=False):
	"""-> (dict, None) or (None, name of the documented exception)"""
	y = yenc()
	try:
		return y.decode([bytes(l) for l in lines], partial, ignore), None
	except (y.YencException, y.CrcError) as e:
		return None, type(e).__name__


def same(got, data, number=1, begin=1, total=None, name=None):
	if bytes(got["data"]) != data:
		return "other bytes: %r instead of %r" % (bytes(got["data"])[:20], data[:20])
	want = {"part_number": number, "part_begin": begin, "part_end": begin + len(data) - 1, "part_size": len(data)}
	if total is not None:
		want["file_size"] = total
	if name is not None:
		want["file_name"] = name
	for k in sorted(want):
		if got[k] != want[k]:
			return "%s is %r instead of %r" % (k, got[k], want[k])
	return None


def run_case(case):
	res = core.Result()
	k = case["k"]
	if k in ("pairs", "special"):
		if k == "pairs":
			f = case["first"]
			todo = [b""] + [bytes((a,)) for a in range(256)] if f < 0 else [bytes((f, b)) for b in range(256)]
		else:
			todo = [bytes(SPECIAL[i] for i in tuple(case["pre"]) + rest) for rest in itertools.product(range(len(SPECIAL)), repeat=case["len"] - len(case["pre"]))]
		for data in todo:
			for pi, pol in enumerate(POLICIES):
				for w in sorted(set(range(1, len(data) + 1)) | {128}):
					lines = ys.article(data, b"n.bin", width=w, **pol)
					res.steps += 1
					for ignore in (False, True):
						got, err = decode(lines, False, ignore)
						why = err or same(got, data, 1, 1, len(data), b"n.bin")
						if why:
							res.bad("%s:%d" % (k, pi), "%r in lines of %d, policy %d: %s" % (data, w, pi, why))
							return res
			if len(data) > 2:
				# the first lines only: a beginning of the data
				for n in range(2, len(lines)):
					got, err = decode(lines[:n], True)
					if err or data[:len(got["data"])] != bytes(got["data"]):
						res.bad(k + ":few", "first %d lines of %r: %s" % (n, data, err or bytes(got["data"])))
						return res
		res.outcome = "%s|%d" % (k, case.get("len", 2))
		return res
	if k == "form":
		return form(case["f"], res)
	if k == "damage":
		return damage(case, res)
	return plain(case, res)


def spans(part, size):
	"""-> (number, total, begin, end) of a part of a file of that size, or None"""
	if part is None:
		return None
	n, t = part
	step = (size + (t or 3) - 1) // (t or 3)
	return (n, t, min(size, step * (n - 1)), min(size, step * n))


def form(f, res):
	data = rs.payload("yenc", f["size"])
	name = f["name"].encode("latin-1")
	part = spans(f["part"], f["size"])
	lines = ys.article(data, name, part, f["width"], (b"id=abc",) if f["extra_begin"] else (), (b"extra=1",) if f["extra_end"] else (), crcs=f["crcs"], upper=f["upper"])
	mine = data if part is None else data[part[2]:part[3]]
	lines = [b""] * f["blank"] + [b"some text"] * f["text"] + lines + [b"-- "] * f["after"] + [b""] * f["blank"]
	res.steps = 2
	for ignore in (False, True):
		got, err = decode(lines, False, ignore)
		why = err or same(got, mine, part[0] if part else 1, part[2] + 1 if part else 1, len(data), name)
		if why:
			res.bad("form", "%r: %s" % (f, why))
	res.outcome = "form|%s|%d" % (part[:2] if part else None, f["size"])
	return res


def sample(i):
	"""-> lines, data, number, begin"""
	data = rs.payload("damage%d" % i, (60, 61, 1, 90, 45, 128)[i])
	if i == 0:
		return ys.article(data, b"file.bin", None, 20), data, 1, 1
	if i == 1:
		return ys.article(data, b"f.sfv", (1, 2, 0, 40), 32), data[:40], 1, 1
	if i == 2:
		return ys.article(data, b"f", None, 128), data, 1, 1
	if i == 3:
		return ys.article(data, b"x.nfo", (12, 12, 50, 90), 10, crcs=("part", "whole"), upper=True), data[50:], 12, 51
	if i == 4:
		return ys.article(data, b"y.jpg", (2, 0, 15, 30), 128), data[15:30], 2, 16
	return [b"hello"] + ys.article(data, b"z.bin", None, 64, escapes=ys.EVERY) + [b"bye"], data, 1, 1


def damage(case, res):
	lines, data, number, begin = sample(case["art"])
	how = case["how"]
	raw = b"\r\n".join(lines)
	variants = []
	if how == "byte":
		for pos in range(case["part"], len(raw), 8):
			b = raw[pos]
			if case["all"]:
				new = [x for x in range(256) if x != b]
			else:
				new = [x for x in sorted(set([b ^ (1 << j) for j in range(8)] + [0, 10, 13, 32, 45, 46, 48, 49, 50, 57, 61, 255])) if x != b]
			for x in new:
				variants.append(("byte %d to %d" % (pos, x), raw[:pos] + bytes((x,)) + raw[pos + 1:]))
	elif how == "del":
		for pos in range(len(raw)):
			variants.append(("byte %d lost" % pos, raw[:pos] + raw[pos + 1:]))
	elif how == "dup":
		for pos in range(len(raw)):
			variants.append(("byte %d doubled" % pos, raw[:pos] + raw[pos:pos + 1] + raw[pos:]))
	elif how == "line":
		for j in range(len(lines)):
			variants.append(("line %d lost" % j, b"\r\n".join(lines[:j] + lines[j + 1:])))
			variants.append(("line %d doubled" % j, b"\r\n".join(lines[:j] + lines[j:j + 1] + lines[j:])))
			if j:
				variants.append(("lines %d and %d swapped" % (j - 1, j), b"\r\n".join(lines[:j - 1] + [lines[j], lines[j - 1]] + lines[j + 1:])))
	else:
		for pos in range(len(raw)):
			variants.append(("first %d bytes only" % pos, raw[:pos]))
			variants.append(("without the first %d bytes" % pos, raw[pos:]))
	caught = 0
	for what, r in variants:
		# NNTP lines end with CR LF; a lone LF ends one too for nntplib
		ls = [l[:-1] if l.endswith(b"\r") else l for l in r.split(b"\n")]
		if not any(l.startswith((b"=ybegin ", b"=yend ")) for l in ls):
			continue    # no article with yEnc data
		res.steps += 1
		got, err = decode(ls)
		if err:
			caught += 1
			continue
		why = same(got, data, number, begin)
		if why:
			res.bad("damage:%s:%d" % (how, case["art"]), "%s of %r accepted: %s" % (what, raw[:60], why))
			break
		# the bytes are right; so must the reduced checking say
		got, err = decode(ls, False, True)
		if err:
			res.bad("ignore:%s:%d" % (how, case["art"]), "%s: refused only when checksums are ignored" % what)
			break
	res.outcome = "damage|%d|%s|%s" % (case["art"], how, "some" if caught else "none")
	return res


def plain(case, res):
	"""articles without yEnc data: no more than the documented exceptions"""
	t = [[], [b""], [b"hello"], [b"a", b"b", b"c"], [b"line %d" % i for i in range(30)], [b"end"], [b"`", b"end"], [b"begin 644 x", b"#AAAA", b"`", b"end"]][case["t"]]
	for partial in (False, True):
		for ignore in (False, True):
			got, err = decode(t, partial, ignore)
			res.steps += 1
			if not err and not t:
				res.bad("plain", "an empty article is decoded")
	res.outcome = "plain|%s" % err
	return res
