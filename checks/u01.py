"""U01: an SRR made from posted volumes is the SRR of the volumes, or there is none."""
import optparse
import os

from mc import core
from mc import nntpsyn as nn
from mc import nzbsyn
from mc import rarsyn as rs
from mc import rescenelib
from mc.rescenelib import write, read, sfv_text

PROPERTY = "U01"
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of how volumes are cut into articles and of server misbehaviour at every request, against the SRR written from the model of the volumes; the servers are simulated behind the real nntplib"
LEVEL_NOTE = ("Sets of 1 to 3 small volumes (7 forms), with and without SFV, every size of an article from 40 bytes to the whole volume, 4 settings of how much is downloaded. "
	"18 kinds of failure and damage at every request, once, on one server for good and on all servers; thorough: all pairs of two. "
	"One byte changed inside a RAR header is not claimed (the program ignores checksums for RAR volumes by design). Stored files other than the SFV are left out when they can't be read, by design.")
RULE = "one evaluation = one SRR creation from an NZB file with at most two faults; outcomes are (set, kind of fault, how it ended)"

SETS = {
	"one": ([rs.Member("a.bin", 300)], [], "old", {}),
	"split": ([rs.Member("a.bin", 400), rs.Member("b.bin", 20)], [(0, 130)], "old", {"cmt": "cmt"}),
	"three": ([rs.Member("a.bin", 500)], [(0, 170), (0, 340)], "old", {"end": None}),
	"new": ([rs.Member("a.bin", 400), rs.Member("e.bin", 0), rs.Member("c.bin", 90)], [(0, 150), (2, 50)], "new", {}),
	"rr": ([rs.Member("a.bin", 200)], [(0, 100)], "old", {"rr": ("new", 1)}),
	"many": ([rs.Member("f%d.bin" % i, 35) for i in range(6)], [(3, 10)], "old", {"end": "full"}),
	"pad": ([rs.Member("a.bin", 300)], [(0, 150)], "old", {"pad": b"padding!"}),
}


def neutral(m):
	return rs.Member(m.name, data=bytes(b if not 0x72 <= b <= 0x7b and b not in b"Rar!\x1a" else b ^ 0x80 for b in m.data), **m.kw)


def volumes(name):
	m, cuts, naming, kw = SETS[name]
	return rs.build_set([neutral(x) for x in m], cuts, naming, "rel", **kw)


DAMAGE = ["430", "400", "502", "reset", "timeout", "closed", "eof", "drop", ["flip", 0], ["flip", -1], ["lost", 0], ["lost", 2], ["lost", -1], "cut", "cutend", "headless", "empty", "text",
	["part", 1], ["part", -1], ["foreign"]]
RETRY = ["430", "empty", "headless"]
PAIR = ["430", "reset", "eof", "cut", "empty", ["lost", 0]]


def cases(ctx):
	cs = []
	for s in SETS:
		top = max(len(v.bytes()) for v in volumes(s)) + 2
		for size in range(40, top, ctx.pick(3, 1)):
			for sfv in (1, 0):
				cs.append({"k": "healthy", "set": s, "size": size, "sfv": sfv, "full": ctx.thorough})
	for s in SETS:
		for size in (90, 1000):
			for case in ("sfv", "files"):
				cs.append({"k": "healthy", "set": s, "size": size, "sfv": 1, "full": ctx.thorough, "case": case})
	for s in SETS:
		for size in (ctx.pick((90, 170, 1000), range(50, 301, 10))):
			for sfv in (1, 0):
				for amount in (4, -1):
					for where in ("at", "main", "all"):
						cs.append({"k": "faults", "set": s, "size": size, "sfv": sfv, "amount": amount, "where": where})
	for s in ("one", "split", "three", "many") if ctx.thorough else ("one", "split"):
		for size in (90, 170):
			for part in range(16):
				cs.insert(0, {"k": "faults2", "set": s, "size": size, "sfv": 1, "amount": 4, "all": ctx.thorough, "part": part})
	for s in SETS:
		for size in (90, 170):
			for sfv in (1, 0):
				cs.append({"k": "missing", "set": s, "size": size, "sfv": sfv, "amount": 4})
	return cs


def explore(ctx):
	cs = cases(ctx)
	allo = set()
	for d in ctx.run(cs):
		for o in d or ():
			allo.add(tuple(o))
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(allo))


# ----------------------------------------------------------------------
class Post(object):
	def __init__(self, name, size, sfv, width=16, case=""):
		self.vols = volumes(name)
		if case == "files":
			for v in self.vols:
				v.name = v.name.upper()
		there = {"sfv": lambda n: n.upper(), "files": lambda n: n.lower()}.get(case, lambda n: n)
		self.arts, self.files, self.data = {}, [], {}
		files = [("rel.nfo", b"an nfo\r\n" * 9)]
		if sfv:
			files.append(("rel.sfv", sfv_text([(there(v.name), rs.crc32(v.bytes())) for v in self.vols])))
		files += [(v.name, v.bytes()) for v in self.vols]
		for i, (n, d) in enumerate(files):
			arts, segs = nn.post(n, d, size, width=width, mid="f%d" % i, single=len(d) <= size)
			self.arts.update(arts)
			self.files.append((n, segs))
			self.data[n] = d
		self.other = {}
		for i, (n, d) in enumerate(files):
			self.other.update(nn.post("x" + n, bytes(b ^ 1 for b in d), size, width=width, mid="o%d" % i, single=len(d) <= size)[0])
		self.stored = [(n, d) for n, d in files if n[-4:] in (".nfo", ".sfv")]
		self.want = self.model()

	def model(self, without=()):
		return rs.build_srr(rescenelib.rescene.APPNAME, [x for x in self.stored if x[0] not in without], self.vols)

	def nzb(self, without=()):
		es = []
		for n, segs in self.files:
			ss = [x for x in segs if x[2] not in without]
			if ss:
				es.append(("p", 1234567890, '[1/9] - "%s" yEnc (1/%d)' % (n, len(segs)), ("a.b.c",), ss))
		return nzbsyn.build(es)


OLD = b"an older SRR of the same release"


def create(post, faults, lh="right", amount=4, without=(), hosts=("main", "alt"), old=False):
	"""-> (world, how it ended, the SRR or None)"""
	w = nn.World(post.arts, faults=faults, lines_header=lh, other=post.other, limit=3000, hosts=hosts)
	with core.scratch_dir() as root:
		p = write(os.path.join(root, "in", "rel.nzb"), post.nzb(without))
		target = os.path.join(root, "out", "rel.srr")
		if old:
			write(target, OLD)
		with nn.connected(w, lines=amount) as u:
			u.options.output_dir = os.path.join(root, "out")
			try:
				r = "made" if u.create_srr(p, u.options) else "not made"
			except core.CaseTimeout:
				r = "endless"
			except Exception as e:
				r = type(e).__name__
		found = [os.path.join(dp, f) for dp, _, fn in os.walk(os.path.join(root, "out")) for f in fn]
		srr = None
		if old and not r.endswith("made") or r == "not made":
			if old and (not os.path.isfile(target) or read(target) == b""):
				r = "strange files: the old SRR is gone"
			elif old and read(target) == OLD:
				found.remove(target)
		if len(found) == 1 and found[0].endswith(".srr"):
			srr = read(found[0])
			if os.path.basename(os.path.dirname(found[0])) == "srr_no_sfv" and r == "made":
				r = "no SFV, made"
		elif found:
			r = "strange files %s" % [os.path.relpath(f, root) for f in found]
	return w, r, srr


def judge(res, post, r, srr, label, must, skipped=False, w=None):
	fine = [post.want]
	if skipped:
		# other files than the SFV are left out when they can't be read
		fine += [post.model(("rel.nfo",))]
	if r.startswith("no SFV"):
		# the SFV itself can't be read: in a folder of its own
		fine += [post.model(("rel.sfv",)), post.model(("rel.sfv", "rel.nfo"))]
	if r == "endless":
		res.bad("endless", label + ": more than %d requests" % w.limit)
	elif r.startswith("strange"):
		res.bad("files", "%s: %s" % (label, r))
	elif srr is None:
		if r == "made":
			res.bad("said made", label + ": it says the SRR was created, but there is none")
		elif must:
			res.bad("not made", "%s: no SRR (%s)" % (label, r))
	elif not r.endswith("made"):
		res.bad("left", "%s: ends with %s but leaves an SRR (%s)" % (label, r, "complete" if srr == post.want else "of %d bytes instead of %d" % (len(srr), len(post.want))))
	elif srr not in fine:
		a, b = rs.SrrParse(srr), rs.SrrParse(post.want)
		res.bad("wrong", "%s: an SRR of %d bytes instead of %d; stored %s, volumes %s, metadata %s" % (label, len(srr), len(post.want),
			[(x[0], len(x[1])) for x in a.stored], a.rars, "right" if a.rest == b.rest else "wrong"))
	return r


def run_case(c):
	res = core.Result()
	res.data = globals()["case_" + c["k"]](c, res)
	res.outcome = c["k"]
	return res


def form(c):
	return "%s in articles of %d, %s" % (c["set"], c["size"], ("SFV" if c["sfv"] else "no SFV") + (", capitals in the " + c["case"] if c.get("case") else ""))


def case_healthy(c, res):
	seen = set()
	for width in (16, 128):
		post = Post(c["set"], c["size"], c["sfv"], width, c.get("case", ""))
		for amount, lh in ((4, "right"), (2, "right"), (20, "right"), (-1, "right"), (4, "none"), (4, "few"), (4, "many"), (4, "zero")):
			if not c["full"] and width == 128 and lh != "right":
				continue
			w, r, srr = create(post, None, lh, amount)
			res.steps += 1
			judge(res, post, r, srr, "%s, %d lines, Lines %s" % (form(c), amount, lh), True, w=w)
			seen.add(("healthy", c["set"], amount, lh, r))
	return list(seen)


def concrete(d, post, mid):
	ids = next([s[2] for s in segs] for n, segs in post.files if any(s[2] == mid for s in segs))
	if isinstance(d, list):
		if d[0] == "part":
			o = ids[0] if d[1] == 1 else ids[-1]
			return None if o == mid else ("other", o)
		if d[0] == "foreign":
			return ("other", "o" + mid[1:]) if mid != ids[0] else None
		return tuple(d)
	if d == "text" and mid == ids[0]:
		return None
	return d


def volume_of(post, mid):
	return next(n for n, segs in post.files if any(s[2] == mid for s in segs))


def case_faults(c, res):
	post = Post(c["set"], c["size"], c["sfv"])
	w0, r, srr = create(post, None, amount=c["amount"])
	log = w0.log
	seen = set()
	todo = range(len(log)) if c["where"] == "at" else [k for k in range(len(log)) if log[k][2] not in [x[2] for x in log[:k]]]
	for k in todo:
		for d in DAMAGE:
			mid = log[k][2]
			cd = concrete(d, post, mid)
			if cd is None:
				continue
			if c["where"] == "at":
				faults = {"at": {k: cd}}
			elif c["where"] == "main":
				faults = {"on": {("main", mid): cd}}
			else:
				faults = {"on": {("main", mid): cd, ("alt", mid): cd}}
			must = d in RETRY and c["where"] != "all"
			label = "%s, %d lines, %r %s %s (request %d, %s)" % (form(c), c["amount"], d, {"at": "once for", "main": "on the main server for", "all": "on all servers for"}[c["where"]], volume_of(post, mid), k, mid)
			w, r, srr = create(post, faults, amount=c["amount"], old=k % 2 == 0)
			res.steps += 1
			o = judge(res, post, r, srr, label, must, c["where"] == "all", w)
			seen.add((c["set"], c["where"], str(d), o))
	return list(seen)


def case_faults2(c, res):
	post = Post(c["set"], c["size"], c["sfv"])
	log = create(post, None)[0].log
	seen = set()
	kinds = DAMAGE if c["all"] else PAIR
	for k1 in range(c["part"], len(log), 16):
		for d1 in kinds:
			c1 = concrete(d1, post, log[k1][2])
			if c1 is None:
				continue
			log1 = create(post, {"at": {k1: c1}})[0].log
			for k2 in range(k1 + 1, len(log1)):
				for d2 in kinds:
					c2 = concrete(d2, post, log1[k2][2])
					if c2 is None:
						continue
					w, r, srr = create(post, {"at": {k1: c1, k2: c2}})
					res.steps += 1
					o = judge(res, post, r, srr, "%s, %r at request %d and %r at request %d" % (form(c), d1, k1, d2, k2), False, True, w)
					seen.add((c["set"], str(d1), str(d2), o))
	return list(seen)


def case_missing(c, res):
	"""articles that are not in the NZB file, and volumes"""
	post = Post(c["set"], c["size"], c["sfv"])
	seen = set()
	for n, segs in post.files:
		lots = [{s[2]} for s in segs] + [{s[2] for s in segs[k:]} for k in range(len(segs))]
		for miss in lots:
			if not c["sfv"] and n in [v.name for v in post.vols[1:]] and len(miss) == len(segs):
				continue	# as with files on the disk: what is there is the set
			w, r, srr = create(post, None, without=miss)
			res.steps += 1
			o = judge(res, post, r, srr, "%s, %s of %s not in the NZB" % (form(c), sorted(miss), n), False, True, w)
			seen.add((c["set"], n[-4:], o))
	return list(seen)
