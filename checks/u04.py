"""U04: a file read through its posted segments is the posted file."""
import itertools
import os

from mc import core
from mc import nntpsyn as nn
from mc import rarsyn as rs

PROPERTY = "U04"
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of operation sequences on a posted file and of server misbehaviour at every request, against a byte string with a position; the servers are simulated behind the real nntplib"
LEVEL_NOTE = ("Posts of 0 to 5 parts (sizes around every boundary), names that are RAR volumes and others, with and without full segments: all sequences seek, read, seek, read over 13 to 15 offsets and 9 lengths, and all sequences of 3 (thorough 4) operations over an alphabet of 13. "
	"For names that are no RAR volume: 20 kinds of damage and failure at every request of 14 sequences, on one server or on all, and all pairs of two at different requests. "
	"The parts of a post have one size except the last. RAR names: the data has no bytes that look like RAR block types (the code realigns volumes from damaged segments by design), and damage is not claimed. "
	"A text that is no yEnc article, or an intact article of another post, in the place of the first part is not recognizable and not claimed.")
RULE = "one evaluation = one operation sequence with at most two faults; outcomes are (form, faults, how the operations ended)"

# (total size, size of a part)
SHAPES = [(0, 256), (1, 256), (100, 256), (255, 256), (256, 256), (257, 256), (512, 256), (600, 256), (768, 256), (800, 256), (1024, 256), (1100, 256), (97, 24), (20, 5)]
NAMES = ["file.sfv", "file.r00"]


def payload(n, name):
	raw = rs.payload("u04", n + 8)[:n]
	if not name.endswith(".sfv"):
		# nothing a RAR block could be seen in
		raw = bytes(b if not 0x72 <= b <= 0x7b and b not in b"Rar!" else b ^ 0x80 for b in raw)
	# every special byte of the encoding at the front and the edges
	front = bytes((e - 42) & 0xff for e in (0x2e, 0x3d, 0, 10, 13, 0x2e, 9, 32))
	return (front + raw)[:n]


def offsets(total, size, upto=5):
	o = {0, 1, total, total - 1, total // 2}
	for k in range(1, upto):
		o |= {k * size - 1, k * size, k * size + 1}
	return sorted(x for x in o if 0 <= x <= total)


def lengths(size, full=True):
	return [0, 1, 7, size - 1, size, size + 1, 2 * size, 2 * size + 3, -1] if full else [1, 7, size, size + 1, 2 * size + 3, -1]


ALPHABET = [["read", 1], ["read", 7], ["read", 100], ["read", 256], ["read", 300], ["read", -1], ["seek", 0, 0], ["seek", 1, 1], ["seek", -1, 1], ["seek", 200, 1], ["seek", -20, 2], ["seek", 0, 2], ["size"]]

SEQS = [
	[["read", -1]],
	[["size"], ["read", -1]],
	[["size"], ["read", 10], ["read", -1]],
	[["read", 10], ["read", 300], ["read", -1]],
	[["seek", 300, 0], ["read", 10], ["seek", 250, 0], ["read", 300]],
	[["seek", 300, 0], ["read", 10], ["seek", 300, 0], ["read", 212]],
	[["seek", -20, 2], ["read", -1], ["seek", 0, 0], ["read", -1]],
	[["seek", 520, 0], ["read", 7], ["seek", 256, 0], ["read", 256]],
	[["read", 256], ["read", 256], ["read", 256], ["read", 256]],
	[["seek", 255, 0], ["read", 2], ["read", -1]],
	[["read", -1], ["seek", 0, 0], ["read", -1]],
	[["seek", 700, 0], ["read", 30], ["seek", 0, 0], ["read", -1], ["size"]],
	[["lines"]],
	[["read", 1], ["lines"]],
]
DAMAGE = ["430", "400", "502", "reset", "timeout", "closed", "eof", "drop", ["flip", 0], ["flip", 1], ["flip", -1], ["lost", 0], ["lost", -1], "cut", "cutend", "headless", "empty", "text",
	["part", 1], ["part", -1], ["foreign", 0], ["foreign", 1], ["number", 9], ["number", 0]]
# a server that has it this way is passed over
RETRY = ["430", ["flip", 0], ["flip", 1], ["flip", -1], ["lost", 0], "cut", "cutend", "headless", "empty"]
PAIR = ["430", "reset", "eof", ["flip", 0], "cut", ["part", 1], ["foreign", 0], ["number", 9]]


def cases(ctx):
	cs = []
	for si in range(len(SHAPES)):
		for name in NAMES:
			for lh in ("right", "none", "few", "many") if SHAPES[si][0] > 512 and name == "file.r00" else ("right",):
				for amount in (4, -1) if lh == "right" else (4,):
					for a in offsets(*SHAPES[si]):
						cs.append({"k": "pairs", "shape": si, "name": name, "lines": lh, "amount": amount, "a": a, "full": ctx.thorough})
	for si in (1, 5, 7, 10, 11):
		for name in NAMES:
			for first in range(len(ALPHABET)):
				for second in range(len(ALPHABET)):
					cs.append({"k": "seqs", "shape": si, "name": name, "lines": "right", "amount": 4, "pre": [first, second], "n": ctx.pick(1, 2)})
	for si in ((2, 5, 7, 11) if not ctx.thorough else (1, 2, 4, 5, 6, 7, 9, 10, 11, 12)):
		for q in range(len(SEQS)):
			for where in ("at", "main", "all"):
				cs.append({"k": "faults", "shape": si, "name": "file.sfv", "lines": "right", "amount": 4, "seq": q, "where": where})
			cs.append({"k": "faults2", "shape": si, "name": "file.sfv", "lines": "right", "amount": 4, "seq": q, "all": ctx.thorough})
	for name in NAMES:
		for miss in range(1, 6):
			cs.append({"k": "missing", "shape": 11, "name": name, "lines": "right", "amount": 4, "miss": miss})
	for sizes in ([10, 20, 30], [30, 20, 10], [20, 20, 30], [20, 10, 20, 5], [256, 200, 256, 100], [256, 256, 300, 7]):
		for name in NAMES[:1]:
			cs.append({"k": "uneven", "sizes": sizes, "name": name, "shape": 0, "lines": "right", "amount": 4})
	return cs


def explore(ctx):
	cs = cases(ctx)
	allo = set()
	for d in ctx.run(cs):
		for o in d or ():
			allo.add(tuple(o))
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(allo))


# ----------------------------------------------------------------------
class Model(object):
	def __init__(self, data):
		self.d, self.p = data, 0

	def apply(self, op):
		"""-> (what is returned, or IndexError)"""
		if op[0] == "read":
			r = self.d[self.p:] if op[1] < 0 else self.d[self.p:self.p + op[1]]
			self.p += len(r)
			return r
		if op[0] == "seek":
			t = {0: 0, 1: self.p, 2: len(self.d)}[op[2]] + op[1]
			if not 0 <= t <= len(self.d):
				return IndexError
			self.p = t
			return t
		if op[0] == "size":
			return len(self.d)
		if op[0] == "lines":
			r = self.d[self.p:].split(b"\n")
			r = [x + b"\n" for x in r[:-1]] + ([r[-1]] if r[-1] else [])
			self.p = len(self.d)
			return r
		raise core.HarnessError(op)


def perform(f, op):
	if op[0] == "read":
		return f.read() if op[1] == -1 else f.read(op[1])
	if op[0] == "seek":
		return f.seek(op[1], op[2])
	if op[0] == "size":
		return f.file_size()
	return list(f)


def build(c, data=None):
	total, size = SHAPES[c["shape"]]
	data = payload(total, c["name"]) if data is None else data
	arts, segs = nn.post(c["name"], data, size, single=total <= size)
	return data, arts, segs


def attempt(res, c, post, ops, faults=None, must=True, label=""):
	"""one file, one sequence of operations -> (requests made, what happened)"""
	data, arts, segs = post
	other = nn.post("other.sfv", bytes(b ^ 1 for b in data), SHAPES[c["shape"]][1], mid="other", single=len(segs) == 1)[0]
	# another post of the same name and other contents
	w = nn.World(arts, faults=faults, lines_header=c["lines"], other=other)
	m = Model(data)
	ended = []
	with nn.connected(w, lines=c["amount"]) as u:
		f = u.NNTPFile(u.connect_server(), nn.NzbFile(c["name"], segs))
		for i, op in enumerate(ops):
			if op[0] == "read" and op[1] < -1:
				continue
			was = m.p
			want = m.apply(op)
			try:
				got = perform(f, op)
			except core.CaseTimeout:
				res.bad("endless", "%s: more than %d requests at %r of %r" % (label, w.limit, op, ops))
				return w.log, "endless"
			except Exception as e:
				got = e
			if isinstance(got, Exception):
				ended.append(type(got).__name__)
				if want is IndexError and isinstance(got, IndexError):
					ended[-1] = "range"
					continue
				if must and not w.fired:
					res.bad("fails", "%s: %r of %r on %s in parts of %d fails: %s: %s" % (label, op, ops, len(data), SHAPES[c["shape"]][1], type(got).__name__, got))
					return w.log, "fails"
				if must == "retry":
					res.bad("no retry", "%s: %r of %r fails although the next server has the article: %s: %s" % (label, op, ops, type(got).__name__, str(got)[:100]))
				m.p = was
				# what is there after a failure is read on, from a known place
				if op[0] == "lines":
					break
				try:
					f.seek(m.p)
				except Exception:
					break
				continue
			if want is IndexError:
				res.bad("range", "%s: %r of %r gives %r outside the file" % (label, op, ops, got))
				return w.log, "range"
			if got != want:
				res.bad("wrong" + (" after fault" if w.fired else ""), "%s: %r of %r on %d bytes in parts of %d gives %s" % (label, op, ops, len(data), SHAPES[c["shape"]][1],
					got if isinstance(got, int) else "%d bytes instead of %d, or others: %r... for %r..." % (len(got), len(want), got[:20], want[:20]) if isinstance(want, bytes) else got))
				return w.log, "wrong"
			if op[0] != "lines" and f.tell() != m.p:
				res.bad("tell", "%s: after %r of %r tell() is %r instead of %d" % (label, op, ops, f.tell(), m.p))
				return w.log, "wrong"
			ended.append("ok")
	return w.log, " ".join(sorted(set(ended))) or "none"


def run_case(c):
	res = core.Result()
	res.data = globals()["case_" + c["k"]](c, res)
	res.outcome = c["k"]
	return res


def form(c):
	return "%s %s parts of %d of %d, Lines %s, %d lines" % (c["name"], -(-SHAPES[c["shape"]][0] // SHAPES[c["shape"]][1]), SHAPES[c["shape"]][1], SHAPES[c["shape"]][0], c["lines"], c["amount"])


def case_pairs(c, res):
	post = build(c)
	total, size = SHAPES[c["shape"]]
	seen = set()
	for x in lengths(size, c["full"]):
		for b in offsets(total, size, 5 if c["full"] else 3):
			for y in lengths(size, c["full"]):
				ops = [["seek", c["a"], 0], ["read", x], ["seek", b, 0], ["read", y]]
				_, e = attempt(res, c, post, ops, label=form(c))
				res.steps += 1
				seen.add(("pairs", c["name"], c["shape"], e))
	for x in lengths(size):
		for y in lengths(size):
			_, e = attempt(res, c, post, [["seek", c["a"], 0], ["read", x], ["read", y]], label=form(c))
			res.steps += 1
	return list(seen)


def case_seqs(c, res):
	post = build(c)
	seen = set()
	for rest in itertools.product(ALPHABET, repeat=c["n"]):
		ops = [ALPHABET[i] for i in c["pre"]] + list(rest)
		_, e = attempt(res, c, post, ops, label=form(c))
		res.steps += 1
		seen.add(("seqs", c["name"], c["shape"], e))
	return list(seen)


def concrete(d, log, k, segs):
	"""a damage with names -> for the article of this request, or None if it makes no difference"""
	mid = log[k][2]
	mids = [s[2] for s in segs]
	i = mids.index(mid)
	if isinstance(d, list):
		if d[0] == "part":
			o = mids[0] if d[1] == 1 else mids[-1]
			return None if o == mid else ("other", o)
		if d[0] == "foreign":
			if i == 0:
				return None
			return ("other", mid.replace("f.", "other."))
		if d[0] == "number":
			return ("number", (i + 1, d[1] if d[1] else (i + 1) % len(mids) + 1)) if len(mids) > 1 else None
		return tuple(d)
	if d == "text" and i == 0:
		return None
	return d


def case_faults(c, res):
	post = build(c)
	segs = post[2]
	ops = SEQS[c["seq"]]
	log, e = attempt(res, c, post, ops, label=form(c))
	seen = set()
	todo = range(len(log)) if c["where"] == "at" else [k for k in range(len(log)) if log[k][1:] not in [x[1:] for x in log[:k]]]
	for k in todo:
		for d in DAMAGE:
			cd = concrete(d, log, k, segs)
			if cd is None:
				continue
			body = log[k][1] == "BODY"
			if c["where"] == "at":
				faults = {"at": {k: cd}}
			elif c["where"] == "main":
				faults = {"on": {("main", log[k][2]): cd}}
			else:
				faults = {"on": {("main", log[k][2]): cd, ("alt", log[k][2]): cd}}
			must = "retry" if d in RETRY and body and c["where"] != "all" and not any(x[1] == "HEAD" for x in log) else False
			_, e = attempt(res, c, post, ops, faults, must, "%s, %r %s request %d" % (form(c), d, c["where"], k))
			res.steps += 1
			seen.add(("fault", c["where"], str(d), e))
	return list(seen)


def case_faults2(c, res):
	post = build(c)
	segs = post[2]
	ops = SEQS[c["seq"]]
	log, e = attempt(res, c, post, ops, label=form(c))
	seen = set()
	kinds = DAMAGE if c["all"] else PAIR
	for k1 in range(len(log)):
		for d1 in kinds:
			c1 = concrete(d1, log, k1, segs)
			if c1 is None:
				continue
			log1, _ = attempt(res, c, post, ops, {"at": {k1: c1}}, False, form(c))
			for k2 in range(k1 + 1, len(log1)):
				for d2 in kinds:
					c2 = concrete(d2, log1, k2, segs)
					if c2 is None:
						continue
					_, e = attempt(res, c, post, ops, {"at": {k1: c1, k2: c2}}, False, "%s, %r at request %d and %r at request %d" % (form(c), d1, k1, d2, k2))
					res.steps += 1
					seen.add(("fault2", str(d1), str(d2), e))
	return list(seen)


def case_missing(c, res):
	data, arts, segs = build(c)
	segs = [s for s in segs if s[1] != c["miss"]]
	seen = set()
	for a in offsets(*SHAPES[c["shape"]]):
		for x in lengths(256):
			for pre in ([], [["size"]], [["read", 5]]):
				_, e = attempt(res, c, (data, arts, segs), pre + [["seek", a, 0], ["read", x]], None, False, "%s, part %d isn't in the NZB" % (form(c), c["miss"]))
				res.steps += 1
				seen.add(("missing", c["name"], e))
	return list(seen)


def case_uneven(c, res):
	from mc import yencsyn as ys
	data = payload(sum(c["sizes"]), c["name"])
	arts, segs, at = {}, [], 0
	for i, n in enumerate(c["sizes"]):
		mid = "f.%d@h" % (i + 1)
		arts[mid] = ys.article(data, c["name"].encode(), part=(i + 1, len(c["sizes"]), at, at + n), width=16)
		segs.append((n * 2, i + 1, mid))
		at += n
	seen = set()
	for a in range(0, len(data) + 1, 1 if len(data) < 100 else 11):
		for x in (1, 7, 20, 60, -1):
			for pre in ([], [["read", 5]]):
				_, e = attempt(res, c, (data, arts, segs), pre + [["seek", a, 0], ["read", x]], None, False, "parts of %r" % c["sizes"])
				res.steps += 1
				seen.add(("uneven", c["name"], e))
	return list(seen)
