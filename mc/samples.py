"""One small sample with its main file for every kind the sample tool knows."""
from mc import avisyn, mkvsyn, mp4syn, asfsyn, musicsyn
from mc.rarsyn import payload
from mc.resamplelib import chop, interleave

KINDS = ["avi", "mkv", "mp4", "wmv", "flac", "mp3", "vob"]
VIDEO = KINDS[:4]
EXT = dict((k, "." + k) for k in KINDS)


class Base(object):
	def __init__(self, kind, sample, main, streams):
		self.kind, self.sample, self.main, self.streams = kind, sample, main, streams
		self.ext = "." + kind


def pieces(n, lens, pre, tail, size, seed):
	sp, mp, data = {}, {}, []
	for t in range(n):
		d = payload("%s%d" % (seed, t), pre + lens[t] + tail)
		s = d[pre:pre + lens[t]]
		data.append(s)
		sp[t] = chop(s, size)
		mp[t] = (chop(d[:pre], size) if pre else []) + chop(d[pre:], size)
	return sp, mp, data


_bases = {}


def base(kind, **kw):
	key = (kind, repr(sorted(kw.items())))
	if key not in _bases:
		if len(_bases) > 200:
			_bases.clear()
		_bases[key] = make(kind, **kw)
	return _bases[key]


def make(kind, lens=(700, 400), pre=300, tail=200, size=(150, 90), seed="base", small=False, options=None):
	"""options: more for the builder (mp4: dict, avi: dict, wmv: dict, mkv: dict)"""
	o = options or {}
	n = len(lens)
	if kind == "avi":
		sp, mp, data = pieces(n, lens, pre, tail, size, seed)
		return Base(kind, avisyn.build(interleave(sp, "rr"), n, **o), avisyn.build(interleave(mp, "blocks"), n, extra_hdrl=avisyn.chunk(b"JUNK", b"main"), **o), data)
	if kind == "mkv":
		sp, mp, data = pieces(n, lens, pre, tail, size, seed)
		att = o.get("att")
		tr = dict((t + 1, (b"V_MPEG4/ISO/AVC" if t == 0 else b"A_AC3", None)) for t in range(n))
		b = lambda p, how: [(t + 1, [x], "none", False) for t, x in interleave(p, how)]
		return Base(kind, mkvsyn.build(b(sp, "rr"), tr, att, extras=o.get("extras", ["none"])), mkvsyn.build(b(mp, "blocks"), tr, att, extras=["void"]), data)
	if kind == "mp4":
		sp, mp, data = pieces(n, lens, pre, tail, size, seed)

		def f(p, how, opt):
			ch = dict((t, mp4syn.group(p[t], [2])) for t in p)
			turn = [x[1] for x in interleave(dict((t, [(t, k) for k in range(len(ch[t]))]) for t in ch), how)]
			return mp4syn.build([(t + 1, ch[t]) for t in sorted(ch)], turn, opt)
		std = {"moov": "front", "mdats": 1, "header": "plain", "co64": False, "stsc": "runs", "stsz": "table", "tables": "norm", "tkhd": 0}
		return Base(kind, f(sp, "rr", dict(std, **o)), f(mp, "blocks", dict(std, udta=True, **o)), data)
	if kind == "wmv":
		sp, mp, data = pieces(n, lens, pre, tail, size, seed)
		b = lambda p, how: [(t + 1, x) for t, x in interleave(p, how)]
		std = {"psize": 300, "kind": "multi", "prop": 0x5d, "extra": ["index"]}
		return Base(kind, asfsyn.build(b(sp, "rr"), list(range(1, n + 1)), dict(std, **o)), asfsyn.build(b(mp, "blocks"), list(range(1, n + 1)), dict(std, psize=500, **o)), data)
	if kind == "flac":
		a = musicsyn.audio(sum(lens), "flac", seed)
		m = lambda s: musicsyn.flac([(0, payload("si", 34)), (4, payload(s, 80))], a, before=musicsyn.id3v2(40, s))
		return Base(kind, m("s") + musicsyn.id3v1("s"), m("mm") + musicsyn.id3v1("m"), [a])
	if kind == "mp3":
		a = musicsyn.audio(sum(lens), "mp3", seed)
		return Base(kind, musicsyn.id3v2(40, "s") + a + musicsyn.lyrics2(50) + musicsyn.id3v1("s"), musicsyn.id3v2(90, "m") + a + musicsyn.id3v1("m"), [a])
	d = payload(seed, pre + sum(lens) + tail)
	s = b"\0\0\1\xba\x44\0\4\0\4\1" + d[pre + 10:pre + sum(lens)]
	return Base(kind, s, d[:pre] + s + d[pre + len(s):], [s])
