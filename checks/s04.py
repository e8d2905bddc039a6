"""S04: WMV samples round trip."""
from mc import core, asfsyn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge, chop, interleave, ambiguous, alike

PROPERTY = "S04"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of ASF packet layouts, payload kinds and cut positions against an independent ASF writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain sample and movie over streams, object sizes, packet sizes, payload kinds (single, multiple, compressed), field widths, padding, header and index objects and options is profiled, stored and "
	"rebuilt by the real code and compared byte for byte, plus every object position as the cut of a small movie. Packets without the error correction data that every Windows Media writer adds, and payload lengths other than words, are out: the tool refuses them.")
RULE = "one evaluation = one sample turned into an SRS and rebuilt from a movie; outcomes are layout classes"

SIZES = {"plain": [300, 120], "odd": [301, 77], "zero": [0, 200, 0, 0, 99], "tiny": [1, 2, 3], "edge": [255, 1, 256, 257, 254, 127], "one": [100000], "mix": [256, 0, 1], "ten": [10]}
PROPS = {"normal": 0x5d, "wide": 0x6e, "dword": 0x7f, "noobj": 0x4d, "nooff": 0x51, "norep": 0x5c, "none": 0x40, "words": 0x6a}
KIND = ["multi", "single", "comp", "compsingle", "mixed"]
EXTRA = ["none", "ext", "content", "index", "index2", "all"]
DIMS = {
	"tracks": [2, 1, 3],
	"len": [1500, 255, 256, 257, 40, 4001, 20000],
	"sz": ["plain", "odd", "zero", "tiny", "edge", "one", "mix"],
	"msz": ["same", "plain", "odd", "zero", "tiny", "edge", "one", "mix"],
	"order": ["rr", "serial", "blocks", "rev"],
	"morder": ["rr", "serial", "blocks", "rev"],
	"start": ["chunk", "zero", "mid", "uneven"],
	"tail": [700, 0],
	"psize": [500, 100, 1000, 60, 32000],
	"mpsize": [500, 100, 1000, 60, 32000],
	"kind": KIND,
	"mkind": KIND,
	"prop": list(PROPS),
	"mprop": list(PROPS),
	"fields": ["pad1", "pad2", "pad3", "len2", "len2pad1", "short", "seq1", "nopad"],
	"mfields": ["pad1", "pad2", "len2pad1", "short", "seq1", "nopad"],
	"fill": [0, 1, 2],
	"mfill": [0, 1],
	"rep": [8, 17, 40],
	"mrep": [8, 17],
	"most": [63, 1, 2],
	"numbers": ["low", "high", "two", "swap"],
	"extra": EXTRA,
	"mextra": EXTRA,
	"fileat": [0, 1, 9],
	"odd": ["none", "emptytrack", "mainearly", "undeclared", "sampleonlyzero", "zerotrack"],
	"alike": ["none", "own1", "own128", "own255", "end128", "mid120", "two100", "three90", "self300", "zeros", "period"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}
FIELDS = {"pad1": {}, "pad2": {"padtype": 2}, "pad3": {"padtype": 3}, "len2": {"padtype": 0, "lentype": 2}, "len2pad1": {"lentype": 2, "padtype": 2}, "short": {"lentype": 2, "short": True},
	"seq1": {"seqtype": 1, "padtype": 2}, "nopad": {"padtype": 0, "lentype": 3}}


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(2, 3)):
		out.append(full(DIMS, d))
	for a in range(0, ctx.pick(60, 300)):
		for sz in ("tiny", "ten", "zero", "edge"):
			for kind in ("multi", "single", "comp"):
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, msz=sz, mkind=kind, mpsize=100))
		out.append(dict(full(DIMS, {}), cut=a, sz="tiny", msz="odd", tracks=1))
		out.append(dict(full(DIMS, {}), cut=a, sz="ten", msz="one", tracks=1, check=True))
		out.append(dict(full(DIMS, {}), cut=a, sz="ten", msz="one", alike="period", tracks=1))
	for a in range(1, 256):
		out.append(dict(full(DIMS, {}), alike="own%d" % a))
		out.append(dict(full(DIMS, {}), alike="own%d" % a, msz="tiny", tracks=1))
		out.append(dict(full(DIMS, {}), alike="end%d" % a, tracks=1))
		out.append(dict(full(DIMS, {}), alike="two%d" % min(a, 120), mpsize=100, tracks=1))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def run_case(c):
	res = core.Result()
	n = c["tracks"]
	nums = {"low": [1, 2, 3, 4], "high": [15, 14, 1, 2], "two": [17, 1, 127, 33], "swap": [2, 1, 4, 3]}[c["numbers"]]
	pre = {"chunk": 420, "zero": 0, "mid": 437, "uneven": 420}[c["start"]]
	starts, sample, main = {}, {}, {}
	msz = c["sz"] if c["msz"] == "same" else c["msz"]
	for t in range(n):
		st = c.get("cut", pre)
		if c["start"] == "uneven":
			st = pre * (t + 1) // 2
		ln = c["len"] if t == 0 else max(1, c["len"] // (t + 1))
		data = payload("stream%d" % t, st + ln + c["tail"])
		starts[t], main[t], sample[t] = st, data, data[st:st + ln]
	before = alike(c, starts, sample, main)
	sp, mp = {}, {}
	for t in range(n):
		sp[t] = chop(sample[t], SIZES[c["sz"]])
		if c["start"] == "mid":
			mp[t] = chop(main[t], SIZES[msz])
			continue
		lead = main[t][:starts[t]]
		extra = before if t == 0 else []
		lead = lead[:len(lead) - sum(map(len, extra))]
		rest = main[t][starts[t]:]
		mp[t] = (chop(lead, SIZES[msz]) if lead else []) + list(extra) + chop(rest, SIZES[msz])
	streams = [nums[t] for t in range(n)]
	mstreams = list(streams)
	if c["odd"] in ("emptytrack", "zerotrack"):
		streams.append(nums[n])
		mstreams.append(nums[n])
		if c["odd"] == "zerotrack":
			sp[n] = [b"", b""]
			mp[n] = [b"main", b"only"]
	elif c["odd"] == "sampleonlyzero":
		streams.append(nums[n])
		sp[n] = [b"", b""]
	elif c["odd"] == "mainearly":
		mstreams.append(nums[n])
		mp[n] = [b"subtitle %d" % k for k in range(30)]
	elif c["odd"] == "undeclared":
		del streams[-1], mstreams[-1]

	def file(pieces, order, w):
		g = lambda k: c[("", "m")[w] + k]
		o = dict(FIELDS[g("fields")], psize=max(g("psize"), 120 if g("rep") == 40 else 0), kind=g("kind"), prop=PROPS[g("prop")], fill=g("fill"), rep=g("rep"), most=c["most"],
			extra=["ext", "content", "index", "index2"] if g("extra") == "all" else [g("extra")], fileat=c["fileat"])
		objs = [(nums[t], d) for t, d in interleave(pieces, order)]
		return asfsyn.build(objs, (streams, mstreams)[w], o)
	sb, mb = file(sp, c["order"], 0), file(mp, c["morder"], 1)
	amb = ambiguous(main, sample, starts)
	judge(res, Job(core.scratch(), sb, mb, ".wmv"), list(sample.values()), c["check"], c["big"], c["m"], amb)
	res.outcome = "%d %s %s %s %s" % (c["tracks"], c["sz"], c["kind"], c["prop"], c["odd"])
	return res
