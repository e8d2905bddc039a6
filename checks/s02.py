"""S02: Matroska samples round trip."""
from mc import core, mkvsyn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge, chop, interleave, ambiguous, alike

PROPERTY = "S02"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of Matroska layouts, lacings, strippings and cut positions against an independent Matroska writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain sample and movie over tracks, frame sizes, order, lacing, block kind, clusters, size-field widths, header stripping, attachments, extra elements and options is profiled, stored and "
	"rebuilt by the real code and compared byte for byte, plus every frame position as the cut of a small movie. Clusters of unknown size and movies whose frames differ from the sample's are out.")
RULE = "one evaluation = one sample turned into an SRS and rebuilt from a movie; outcomes are layout classes"

SIZES = {"plain": [300, 120], "odd": [301, 77], "zero": [0, 200, 0, 0, 99], "tiny": [1, 2, 3], "edge": [255, 1, 256, 257, 254, 510, 127, 126, 128], "one": [100000], "mix": [256, 0, 1], "ten": [10], "wide": [1, 700, 2, 300, 1, 1, 900],
	"huge": [20000, 30000, 1000, 9100, 900, 300], "mega": [100, 1100000, 2000, 64, 70000]}
DIMS = {
	"tracks": [2, 1, 3],
	"len": [1500, 255, 256, 257, 40, 4001, 20000],
	"sz": ["plain", "odd", "zero", "tiny", "edge", "one", "mix", "wide"],
	"order": ["rr", "serial", "blocks", "rev"],
	"morder": ["rr", "serial", "blocks", "rev"],
	"start": ["chunk", "zero", "uneven"],
	"tail": [700, 0],
	"lace": ["none", "xiph", "ebml", "fixed", "mixed"],
	"mlace": ["none", "xiph", "ebml", "fixed", "mixed"],
	"group": ["simple", "group", "mixed", "blockadd"],
	"mgroup": ["simple", "group", "mixed", "blockadd"],
	"per": [5, 1, 1000],
	"mper": [5, 1, 1000],
	"width": [0, 8, 4],
	"mwidth": [0, 8, 4],
	"strip": ["none", "main", "sample", "same", "less", "more", "zlib", "zlibmain", "second", "deep", "firstonly"],
	"att": ["none", "one", "two", "dup", "dupsame", "dup3", "dupname", "empty", "noname", "extra", "nolist", "back", "mback", "reorder"],
	"numbers": ["low", "127", "high", "two", "big"],
	"extras": ["none", "seek", "void", "crc", "inner", "prev", "tags", "chapters", "private", "unknown", "all"],
	"mextras": ["none", "void", "crc", "inner", "all"],
	"odd": ["none", "emptytrack", "mainearly", "undeclared", "text", "longtext", "sampleonlyzero"],
	"alike": ["none", "own1", "own128", "own255", "two100", "three90", "zeros", "period"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}
STRIP = {0: b"\x01\x02\x03\x04\x05", 1: b"\x0b\x77", 2: b"\xff"}


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(2, 3)):
		out.append(full(DIMS, d))
	for a in range(0, ctx.pick(60, 300)):
		for sz in ("tiny", "ten", "zero", "edge"):
			for lac in ("none", "xiph", "ebml"):
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, mlace=lac))
		out.append(dict(full(DIMS, {}), cut=a, sz="tiny", strip="main", tracks=1))
		out.append(dict(full(DIMS, {}), cut=a, sz="ten", strip="sample", tracks=1, check=True))
	for sz, ln in (("huge", 90000), ("mega", 1200000)):
		for lac in ("xiph", "ebml", "mixed"):
			for a in range(0, 5):
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, mlace=lac, len=ln, tracks=1, tail=5 * ln))
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, lace=lac, strip="main", len=ln, tracks=1, tail=5 * ln))
				out.append(dict(full(DIMS, {}), cut=a, sz=sz, mlace=lac, strip="sample", len=ln, tracks=1, tail=5 * ln))
	for a in range(1, 256):
		out.append(dict(full(DIMS, {}), alike="own%d" % a, sz="plain"))
		out.append(dict(full(DIMS, {}), alike="own%d" % a, sz="tiny", tracks=1))
		out.append(dict(full(DIMS, {}), alike="own%d" % a, sz="tiny", tracks=1, mlace="ebml"))
	for head in (0, 255, 256, 300, 1500, 10200, 11000):
		for nth in (0, 1, 3):
			for check in (False, True):
				for m in (False, True):
					out.append(dict(full(DIMS, {}), x265=head, nth=nth, check=check, m=m, tracks=2))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def text(n, label):
	out = b""
	k = 0
	while len(out) < n:
		out += b"{\\an8}Line %d of the %s subtitle track.\r\n" % (k * k + 7, label.encode())
		k += 1
	return out[:n]


def numbers(c):
	return {"low": [1, 2, 3, 4], "127": [127, 126, 1, 2], "high": [130, 200, 255, 3], "two": [300, 128, 16382, 129], "big": [70000, 16384, 2097152, 65536]}[c["numbers"]]


def laced(pieces, kind, turn=0):
	"""group pieces of one track in blocks -> [(frames, lacing)]"""
	if kind == "none":
		return [([p], "none") for p in pieces]
	out = []
	i = 0
	while i < len(pieces):
		k = {"mixed": ["xiph", "none", "ebml", "fixed"][(i + turn) % 4]}.get(kind, kind)
		n = {"xiph": 3, "ebml": 4, "fixed": 2, "none": 1}[k]
		fr = pieces[i:i + n]
		if k == "fixed" and len(set(map(len, fr))) > 1:
			fr = fr[:1]
		out.append((fr, k))
		i += len(fr)
	return out


def x265(c):
	"""tracks of over a million bytes that start with text the same for each key frame"""
	head = (b"x265 options: rc=crf / ref=4 / " * 400)[:c["x265"]]
	key = [[head + payload("key%d" % k, 260000)] + [payload("p%d.%d" % (k, j), 130000) for j in range(8)] for k in range(4)]
	aud = [[payload("a%d.%d" % (k, j), 500) for j in range(9)] for k in range(4)]
	def blocks(r):
		out = []
		for k in r:
			for j in range(9):
				out.append((1, [key[k][j]], "none", False))
				out.append((2, [aud[k][j]], "none", False))
		return out
	tr = {1: (b"V_MPEGH/ISO/HEVC", None), 2: (b"A_AC3", None)}
	sb = mkvsyn.build(blocks(range(c["nth"], c["nth"] + 1)), tr, per=6)
	mb = mkvsyn.build(blocks(range(4)), tr, per=9)
	return sb, mb, []


def make(c):
	n = c["tracks"]
	nums = numbers(c)
	pre = {"chunk": 420, "zero": 0, "uneven": 420}[c["start"]]
	sz = SIZES[c["sz"]]
	starts, sample, main, mp, sp, first = {}, {}, {}, {}, {}, {}
	for t in range(n):
		st = pre if c["start"] != "uneven" else pre * (t + 1) // 2
		ln = c["len"] if t == 0 else max(1, c["len"] // (t + 1))
		data = payload("stream%d" % t, st + ln + c["tail"])
		if c["odd"] in ("text", "longtext") and t == n - 1:
			data = text(st + ln + c["tail"], "t%d" % t)
			if c["odd"] == "longtext":
				ln = 15000
				data = text(st + ln + c["tail"], "t%d" % t)
		starts[t], main[t], sample[t] = st, data, data[st:st + ln]
	before = alike(c, starts, sample, main)
	for t in range(n):
		if "cut" in c:
			pieces = chop(main[t], sz)
			first[t] = min(c["cut"], max(0, len(pieces) - 4))
			have, k = 0, first[t]
			while have < len(sample[t]) and k < len(pieces):
				have += len(pieces[k])
				k += 1
			sp[t], mp[t] = pieces[first[t]:k], pieces
			sample[t] = b"".join(sp[t])
			continue
		lead = main[t][:starts[t]]
		lp = chop(lead, sz) if lead else []
		if t == 0 and before:
			lead = lead[:starts[t] - sum(map(len, before))]
			lp = (chop(lead, sz) if lead else []) + before
		first[t] = len(lp)
		sp[t] = chop(sample[t], sz)
		rest = main[t][starts[t] + len(sample[t]):]
		mp[t] = lp + sp[t] + (chop(rest, sz) if rest else [])
	if c["odd"] == "sampleonlyzero" and n > 1:
		sp[n - 1] = [b"", b""]
		sample[n - 1] = b""
	return n, nums, starts, sample, main, sp, mp, first


def stripped(pieces, real, strip):
	"""the file's frames: every real frame begins with real; strip is what the file leaves out"""
	return [(real + p)[len(strip):] for p in pieces]


def run_case(c):
	res = core.Result()
	if "x265" in c:
		sb, mb, tracks = x265(c)
		amb = False
	else:
		sb, mb, tracks, amb = layout(c)
	job = Job(core.scratch(), sb, mb, ".mkv")
	judge(res, job, tracks, c["check"], c["big"], c["m"], amb)
	res.outcome = "%d %s %s %s %s" % (c["tracks"], c["sz"], c["lace"], c["strip"], c["odd"])
	return res


def layout(c):
	n, nums, starts, sample, main, sp, mp, first = make(c)
	# header stripping
	st = {}
	for t in range(n):
		real = b"" if c["odd"] in ("undeclared", "sampleonlyzero") or c["strip"] in ("none", "zlib", "zlibmain") else STRIP[t]
		s = m = None
		k = c["strip"]
		if k in ("main", "second", "firstonly"):
			m = real
		elif k == "sample":
			s = real
		elif k == "same":
			s = m = real
		elif k == "less":
			s, m = real[:1], real
		elif k == "more":
			s, m = real, real[:1]
		elif k == "deep":
			m = real
			real = real + b"\x99"
		if (k == "second" and t == 0) or (k == "firstonly" and t > 0):
			s = m = None
			real = b""
		if k == "second" and t == 0:
			pass
		if k == "zlib":
			s = m = "zlib"
		if k == "zlibmain":
			m = s = "zlib"
		st[t] = (real, s, m)
	def form(pieces, t, which):
		real, s, m = st[t]
		v = (s, m)[which]
		v = v if isinstance(v, bytes) else b""
		return stripped(pieces, real, v)
	def blocks(pieces, which, lacing, order, group):
		per = dict((t, laced(form(pieces[t], t, which), lacing, t)) for t in pieces)
		out = []
		for k, (t, (fr, lc)) in enumerate(interleave(per, order)):
			g = group != "simple" and (group != "mixed" or k % 2 == 0)
			out.append((nums[t], fr, lc, g))
		return out
	sbl = blocks(sp, 0, c["lace"], c["order"], c["group"])
	mbl = blocks(mp, 1, c["mlace"], c["morder"], c["mgroup"])
	str_ = dict((nums[t], (b"V_MPEG4/ISO/AVC" if t == 0 else b"A_AC3", st[t][1])) for t in range(n))
	mtr = dict((nums[t], (b"V_MPEG4/ISO/AVC" if t == 0 else b"A_AC3", st[t][2])) for t in range(n))
	if c["strip"] in ("second", "firstonly"):
		for k, d in enumerate((str_, mtr)):
			for t in range(n):
				if d[nums[t]][1] is None:
					d[nums[t]] = (d[nums[t]][0], "zlib")
	more = nums[n]
	if c["odd"] == "emptytrack":
		str_[more] = mtr[more] = (b"S_TEXT/UTF8", None)
	elif c["odd"] == "mainearly":
		mtr[more] = (b"S_TEXT/UTF8", None)
		for k in range(0, len(mbl) * 2, 2):
			mbl.insert(k, (more, [b"extra %d" % k], "none", True))
	elif c["odd"] == "undeclared":
		del str_[nums[n - 1]]
		del mtr[nums[n - 1]]
	f1, f2 = (b"font.ttf", payload("font", 900)), (b"f\xc3\xb6nt2.ttf", payload("font2", 300))
	f3 = [(f1[0], f1[1]), f2, (f1[0], payload("font3", 200)), (f1[0], payload("font4", 400)), (f1[0], b"")]
	satt, matt = {
		"none": (None, None), "nolist": (None, [f1]), "one": ([f1], [f1]), "two": ([f1, f2], [f1, f2]), "extra": ([f2], [f1, f2]),
		"dup": ([f1, (f1[0], f2[1])], [f1, (f1[0], f2[1])]), "dupsame": ([f1, f1], [f1, f1]), "dup3": (f3, f3), "dupname": ([(f1[0] + b".dupe", b"x" * 50)] + f3, [(f1[0] + b".dupe", b"x" * 50)] + f3), "empty": ([(b"e", b""), f1], [(b"e", b""), f1]),
		"noname": ([(b"", f1[1])], [(b"", f1[1])]), "back": ([f1], [f1]), "mback": ([f1], [f1]), "reorder": ([f1, f2], [f2, f1])}[c["att"]]
	sx = ["seek", "void", "crc", "inner", "prev", "tags", "chapters", "private", "unknown"] if c["extras"] == "all" else [c["extras"]]
	mx = ["seek", "void", "crc", "inner", "prev", "tags", "chapters", "private", "unknown"] if c["mextras"] == "all" else [c["mextras"]]
	if c["group"] == "blockadd":
		sx = sx + ["blockadd"]
	if c["mgroup"] == "blockadd":
		mx = mx + ["blockadd"]
	sb = mkvsyn.build(sbl, str_, satt, "back" if c["att"] == "back" else "front", c["per"], c["width"], sx)
	mb = mkvsyn.build(mbl, mtr, matt, "back" if c["att"] == "mback" else "front", c["mper"], c["mwidth"], mx)
	sf = dict((t, form(sp[t], t, 0)) for t in sp)
	mf = dict((t, stripped(mp[t], st[t][0], st[t][1] if isinstance(st[t][1], bytes) else b"")) for t in mp)
	amb = ambiguous(dict((t, b"".join(mf[t])) for t in mf), dict((t, b"".join(sf[t])) for t in sf), dict((t, sum(map(len, mf[t][:first[t]]))) for t in first))
	keep = [d for t, d in sample.items() if not (c["odd"] in ("text", "longtext") and t == n - 1)]
	return sb, mb, keep, amb
