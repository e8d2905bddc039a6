"""S01: AVI samples round trip."""
from mc import core, avisyn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge, chop, interleave, ambiguous, alike

PROPERTY = "S01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of AVI layouts, framings and cut positions against an independent AVI writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 3 (thorough 4) departures from a plain sample and movie over streams, chunk sizes, order, cut position, index, lists, OpenDML, padding and options is profiled, stored and rebuilt by the real code and "
	"compared byte for byte, plus every cut position of a small movie. Streams are incompressible test patterns of up to 4 KiB; recompressed or re-encoded movies are out.")
RULE = "one evaluation = one sample turned into an SRS and rebuilt from a movie; outcomes are layout classes"

SIZES = {"plain": [300, 120], "odd": [301, 77], "zero": [0, 200, 0, 0, 99], "tiny": [1, 2, 3], "edge": [255, 1, 256, 257], "one": [100000], "big": [1024], "z0": [0], "mix": [256, 0, 1]}
DIMS = {
	"tracks": [2, 1, 3],
	"len": [1000, 255, 256, 257, 40, 4001],
	"ssz": ["plain", "odd", "zero", "tiny", "edge", "one", "mix"],
	"msz": ["same", "odd", "zero", "tiny", "edge", "one", "big", "mix"],
	"order": ["rr", "serial", "blocks", "rev"],
	"morder": ["rr", "serial", "blocks", "rev"],
	"start": ["chunk", "zero", "mid", "mid1", "uneven"],
	"tail": [500, 0],
	"index": ["rel", "none", "abs", "bad"],
	"mindex": ["rel", "none", "abs", "bad"],
	"rec": [False, True],
	"mrec": [False, True],
	"odml": [False, True],
	"modml": [False, True],
	"junk": [False, True],
	"pad": [0, 0x41],
	"trailer": ["", "chunk", "junk"],
	"extra": ["none", "emptytrack", "mainearly", "mainall", "ids", "palette", "sampleonlyzero"],
	"alike": ["none", "own1", "own128", "own255", "end1", "end128", "end255", "mid1", "mid200", "two100", "three90", "self300", "zeros", "period"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(3, 4)):
		out.append(full(DIMS, d))
	for kind in ("own", "end", "mid", "two", "three"):
		for a in range(1, 256):
			if kind in ("own", "end") or a <= 120:
				out.append(dict(full(DIMS, {}), alike="%s%d" % (kind, a)))
				out.append(dict(full(DIMS, {}), alike="%s%d" % (kind, a), ssz="tiny", tracks=1))
				out.append(dict(full(DIMS, {}), alike="%s%d" % (kind, a), msz="edge", tracks=1))
	for a in range(0, ctx.pick(90, 300)):
		out.append(dict(full(DIMS, {}), cut=a, msz="tiny"))
		out.append(dict(full(DIMS, {}), cut=a, msz="odd", check=True))
		out.append(dict(full(DIMS, {}), cut=a, msz="edge", mindex="abs"))
		out.append(dict(full(DIMS, {}), cut=a, alike="period", mindex="none"))
		out.append(dict(full(DIMS, {}), cut=a, alike="period", ssz="tiny", msz="one"))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def streams(c):
	n = c["tracks"]
	pre = {"chunk": 420, "zero": 0, "mid": 437, "mid1": 421, "uneven": 420}[c["start"]]
	starts, sample, main = {}, {}, {}
	for t in range(n):
		st = c.get("cut", pre)
		if c["start"] == "uneven":
			st = pre * (t + 1) // 2
		ln = c["len"] if t == 0 else max(1, c["len"] // (t + 1))
		full_ = payload("stream%d" % t, st + ln + c["tail"])
		starts[t], main[t], sample[t] = st, full_, full_[st:st + ln]
	return starts, sample, main


def run_case(c):
	res = core.Result()
	starts, sample, main = streams(c)
	ssz = SIZES[c["ssz"]]
	msz = SIZES[c["msz"] if c["msz"] != "same" else c["ssz"]]
	n = c["tracks"]
	before = alike(c, starts, sample, main)
	ids = None
	if c["extra"] == "sampleonlyzero" and n > 1:
		sample[n - 1] = b""
	sp = dict((t, chop(sample[t], ssz) if sample[t] else [b"", b""]) for t in sample)
	# the movie is cut in chunks that start anew at the sample's start, unless the cut is in the middle
	mp = {}
	for t in main:
		if c["start"] in ("mid", "mid1") or "cut" in c:
			mp[t] = chop(main[t], msz)
		elif t == 0 and before:
			mp[t] = (chop(main[t][:starts[t] - sum(map(len, before))], msz)) + before + chop(main[t][starts[t]:], msz)
		else:
			mp[t] = (chop(main[t][:starts[t]], msz) if starts[t] else []) + chop(main[t][starts[t]:], msz)
	sf = interleave(sp, c["order"])
	mf = interleave(mp, c["morder"])
	sn = mn = n
	if c["extra"] == "emptytrack":
		sf.insert(1, (n, b""))
		mf.insert(1, (n, b""))
		sn = mn = n + 1
	elif c["extra"] == "mainearly":
		mf.insert(0, (n, payload("sub", 31)))
		mn = n + 1
	elif c["extra"] == "mainall":
		for k in range(0, len(mf) * 2, 2):
			mf.insert(k, (n, payload("aud%d" % k, 31)))
		mn = n + 1
	elif c["extra"] == "ids":
		ids = [7, 12, 99, 50]
	trailer = {"": b"", "chunk": avisyn.chunk(b"JUNK", b"trailing stuff"), "junk": b"0000" + bytes(4)}[c["trailer"]]
	if c["trailer"] == "junk":
		trailer = avisyn.chunk(b"idx1", b"")
	sb = avisyn.build(sf, sn, index=None if c["index"] == "none" else c["index"], rec=c["rec"], odml=c["odml"], junk=(0, 2) if c["junk"] else (), pad=c["pad"], trailer=trailer, ids=ids)
	mb = avisyn.build(mf, mn, index=None if c["mindex"] == "none" else c["mindex"], rec=c["mrec"], odml=c["modml"], junk=(1, 4) if c["junk"] else (), pad=c["pad"] and 0x42, ids=ids,
		extra_hdrl=avisyn.chunk(b"JUNK", b"only in the movie"))
	job = Job(core.scratch(), sb, mb, ".avi")
	amb = ambiguous(main, sample, starts)
	judge(res, job, sample.values(), c["check"], c["big"], c["m"], amb)
	res.outcome = "%d %s %s %s" % (c["tracks"], c["ssz"], c["start"], c["extra"])
	return res
