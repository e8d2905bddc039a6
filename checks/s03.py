"""S03: MP4 samples round trip."""
from mc import core, mp4syn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge, chop, interleave, ambiguous, alike

PROPERTY = "S03"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of MP4 layouts, sample tables and cut positions against an independent MP4 writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain sample and movie over tracks, frame sizes, chunking, interleaving, sample tables, 64-bit fields, position and number of the metadata and data atoms, extra atoms and options is profiled, "
	"stored and rebuilt by the real code and compared byte for byte, plus every frame position as the cut of a small movie. Fragmented files and data atoms with unreferenced bytes are refused by design and out.")
RULE = "one evaluation = one sample turned into an SRS and rebuilt from a movie; outcomes are layout classes"

SIZES = {"plain": [300, 120], "odd": [301, 77], "zero": [0, 200, 0, 0, 99], "tiny": [1, 2, 3], "edge": [255, 1, 256, 257], "one": [100000], "mix": [256, 0, 1], "ten": [10], "same": [100]}
PER = {"one": [1], "two": [2], "mix": [3, 1, 1, 2], "all": [10000], "run": [2, 2, 2, 1, 1, 5]}
DIMS = {
	"tracks": [2, 1, 3],
	"len": [1500, 255, 256, 257, 40, 4001],
	"sz": ["plain", "odd", "zero", "tiny", "edge", "one", "mix", "ten", "same"],
	"per": ["two", "one", "mix", "all", "run"],
	"mper": ["two", "one", "mix", "all", "run"],
	"order": ["rr", "serial", "blocks", "rev"],
	"morder": ["rr", "serial", "blocks", "rev"],
	"start": ["chunk", "zero", "uneven"],
	"tail": [700, 0],
	"moov": ["front", "back", "mid"],
	"mmoov": ["front", "back", "mid"],
	"mdats": [1, 2, 3],
	"mmdats": [1, 2, 3],
	"header": ["plain", "wide", "toend"],
	"mheader": ["plain", "wide", "toend"],
	"co64": [False, True],
	"mco64": [False, True],
	"stsc": ["runs", "each"],
	"mstsc": ["runs", "each"],
	"stsz": ["table", "fixed", "stz16", "stz8", "stz4"],
	"mstsz": ["table", "fixed", "stz16", "stz8", "stz4"],
	"tables": ["norm", "rev"],
	"tkhd": [0, 1],
	"extras": ["none", "free", "wide8", "zero", "edts", "udta", "wide_moov"],
	"mextras": ["none", "free", "zero", "wide_moov"],
	"ids": ["low", "high", "big"],
	"odd": ["none", "emptytrack", "mainearly", "swap", "mswap", "sampleonlyzero"],
	"alike": ["none", "own1", "own128", "own255", "two100", "three90", "zeros", "period"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(2, 3)):
		out.append(full(DIMS, d))
	for a in range(0, ctx.pick(60, 300)):
		for sz in ("tiny", "ten", "zero", "edge"):
			for per in ("mix", "one"):
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, mper=per))
		out.append(dict(full(DIMS, {}), cut=a, sz="ten", mper="run", tracks=1, check=True))
	for a in range(1, 256):
		out.append(dict(full(DIMS, {}), alike="own%d" % a))
		out.append(dict(full(DIMS, {}), alike="own%d" % a, sz="tiny", tracks=1))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def run_case(c):
	res = core.Result()
	n = c["tracks"]
	ids = {"low": [1, 2, 3, 4], "high": [255, 300, 65535, 7], "big": [65536, 70000, 0xFFFFFFFF, 9]}[c["ids"]]
	pre = {"chunk": 420, "zero": 0, "uneven": 420}[c["start"]]
	sz = SIZES[c["sz"]]
	starts, sample, main, mp, sp = {}, {}, {}, {}, {}
	for t in range(n):
		st = pre if c["start"] != "uneven" else pre * (t + 1) // 2
		ln = c["len"] if t == 0 else max(1, c["len"] // (t + 1))
		data = payload("stream%d" % t, st + ln + c["tail"])
		starts[t], main[t], sample[t] = st, data, data[st:st + ln]
	before = alike(c, starts, sample, main)
	for t in range(n):
		if "cut" in c:
			pieces = chop(main[t], sz)
			k = first = min(c["cut"], max(0, len(pieces) - 4))
			starts[t] = sum(map(len, pieces[:first]))
			have = 0
			while have < len(sample[t]) and k < len(pieces):
				have += len(pieces[k])
				k += 1
			sp[t], mp[t] = pieces[first:k], pieces
			sample[t] = b"".join(sp[t])
			continue
		lead = main[t][:starts[t]]
		if t == 0 and before:
			lead = lead[:starts[t] - sum(map(len, before))]
		lp = chop(lead, sz) if lead else []
		if t == 0:
			lp = lp + before
		sp[t] = chop(sample[t], sz)
		rest = main[t][starts[t] + len(sample[t]):]
		mp[t] = lp + sp[t] + (chop(rest, sz) if rest else [])
	if c["odd"] == "sampleonlyzero" and n > 1:
		sp[n - 1] = [b"", b""]
		sample[n - 1] = b""

	def file(pieces, per, order, o, which):
		chunks = dict((t, mp4syn.group(pieces[t], PER[per])) for t in pieces)
		tr = [(ids[t], chunks[t]) for t in sorted(chunks)]
		turn = interleave(dict((t, [(t, k) for k in range(len(chunks[t]))]) for t in chunks), order)
		turn = [x[1] for x in turn]
		if c["odd"] == "emptytrack":
			tr.append((ids[n], []))
		elif c["odd"] == "mainearly" and which:
			tr.insert(0, (ids[n], [[b"sub", b"title"], [b"again"]]))
			turn = [(0, 0)] + [(t + 1, k) for t, k in turn] + [(0, 1)]
		elif c["odd"] == ("swap", "mswap")[which] and len(turn) > 3:
			turn = turn[2:] + turn[:2]
		return mp4syn.build(tr, turn, o)
	so = {"moov": c["moov"], "mdats": c["mdats"], "header": c["header"], "co64": c["co64"], "stsc": c["stsc"], "stsz": c["stsz"], "tables": c["tables"], "tkhd": c["tkhd"], c["extras"]: True}
	mo = {"moov": c["mmoov"], "mdats": c["mmdats"], "header": c["mheader"], "co64": c["mco64"], "stsc": c["mstsc"], "stsz": c["mstsz"], "tables": c["tables"], "tkhd": c["tkhd"], c["mextras"]: True, "udta": True}
	sb = file(sp, c["per"], c["order"], so, 0)
	mb = file(mp, c["mper"], c["morder"], mo, 1)
	amb = ambiguous(main, sample, starts)
	job = Job(core.scratch(), sb, mb, ".mp4")
	judge(res, job, sample.values(), c["check"], c["big"], c["m"], amb)
	res.outcome = "%d %s %s %s %s" % (c["tracks"], c["sz"], c["per"], c["header"], c["odd"])
	return res
