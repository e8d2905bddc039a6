"""S05: FLAC files round trip."""
import functools
import itertools

from mc import core, musicsyn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge

PROPERTY = "S05"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of FLAC metadata, tag and audio layouts of both files against an independent writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 3 (thorough 4) departures from a plain track and its retagged copy over metadata block lists, ID3 tags, audio sizes, contents and options is profiled, stored and "
	"rebuilt by the real code and compared byte for byte, plus all combinations of the tags, audio lengths and contents around the limits of the tag search and every audio length up to 600 bytes. The AcoustID tool is a stand-in that always answers the same.")
RULE = "one evaluation = one track turned into an SRS and rebuilt from a retagged copy; outcomes are layout classes"

META = {"info": [(0, 34)], "usual": [(0, 34), (4, 300), (1, 1000)], "zero": [(0, 34), (1, 0)], "zeros": [(0, 34), (4, 0), (1, 0)], "cover": [(0, 34), (6, 70000), (4, 50)], "seek": [(0, 34), (3, 180), (4, 40), (2, 4), (5, 10), (6, 8), (1, 1)],
	"stu": [(0, 34), (0x73, 10), (0x74, 20), (0x75, 30)], "stu2": [(0, 34), (0x75, 5), (0x73, 0)], "s": [(0, 34), (0x73, 300)], "reserved": [(0, 34), (7, 9), (126, 3)]}
ID3 = ["none", "one", "empty", "large", "names"]
LEN = [4000, 1, 2, 100, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 200001]
DIMS = {
	"meta": list(META),
	"mmeta": ["usual"] + [k for k in META if k != "usual"] + ["same"],
	"id3": ID3,
	"mid3": ID3 + ["same"],
	"v1": ["no", "yes"],
	"mv1": ["no", "yes"],
	"len": LEN,
	"audio": ["flac", "flac9", "tags", "tag128", "flaclike", "zeros", "ff"],
	"more": ["none", "ape", "lyrics", "byte"],
	"name": ["same", "upper"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}


def cases(ctx):
	out = [full(DIMS, d) for d in deviations(DIMS, ctx.pick(3, 4))]
	for id3, mid3, v1, mv1, more, audio, n in itertools.product(ID3[:3], ID3[:2], DIMS["v1"], DIMS["mv1"], DIMS["more"][:2], DIMS["audio"][:4], (4000, 1, 127, 128, 256, 65537)):
		out.append(dict(full(DIMS, {}), id3=id3, mid3=mid3, v1=v1, mv1=mv1, more=more, audio=audio, len=n))
	for id3, mid3 in (("huge", "none"), ("huge", "same"), ("one", "huge")):
		out.append(dict(full(DIMS, {}), id3=id3, mid3=mid3))
	for n in range(1, 600):
		for v1, mv1 in (("no", "no"), ("yes", "yes"), ("no", "yes"), ("yes", "no")):
			out.append(dict(full(DIMS, {}), len=n, v1=v1, mv1=mv1, meta="info", mmeta="info"))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


@functools.lru_cache(None)
def id3(kind, who):
	return {"none": b"", "one": musicsyn.id3v2(300, who), "empty": musicsyn.id3v2(0), "large": musicsyn.id3v2(70000, who), "huge": musicsyn.id3v2(2 * 1024 * 1024 + 700, who), "names": musicsyn.id3v2(90, who, b"ID3 TAG fLaC\xff\xf8 APETAGEX")}[kind]


def run_case(c):
	res = core.Result()
	n = c["len"]
	kind = c["audio"]
	a = musicsyn.audio(n, kind if kind == "flac9" else "flac")
	if kind == "tags":
		a = (a[:20] + b"TAGID3fLaCAPETAGEXLYRICSBEGIN" + a[50:])[:n]
	elif kind == "tag128" and n > 140:
		a = a[:-128] + b"TAG" + a[-125:]
	elif kind == "flaclike":
		a = (a[:10] + musicsyn.flac([(0, bytes(34))], a[:100]) + a[10:])[:n]
	elif kind == "zeros":
		a = a[:2] + bytes(n - len(a[:2]))
	elif kind == "ff":
		a = b"\xff" * n

	def file(w):
		g = lambda k: c[("", "m")[w] + k]
		meta = g("meta")
		if meta == "same":
			meta = c["meta"]
		who = "sm"[w] if g("meta") != "same" else "s"
		blocks = [(k, payload("block%s%d" % (who, i), size)) for i, (k, size) in enumerate(META[meta])]
		tag = g("id3") if g("id3") != "same" else c["id3"]
		more = {"none": b"", "ape": musicsyn.ape(2000, 60), "lyrics": musicsyn.lyrics2(50), "byte": b"\0"}[c["more"]] if w else b""
		return musicsyn.flac(blocks, a + more, id3(tag, who), musicsyn.id3v1(who) if g("v1") == "yes" else b"")
	# without a tag of its own the end of this audio can only be seen as one
	amb = kind == "tag128" and n > 140 and c["mv1"] == "no" and c["more"] == "none" and c["v1"] == "yes"
	sb, mb = file(0), file(1)
	judge(res, Job(core.scratch(), sb, mb, ".FLAC" if c["name"] == "upper" else ".flac"), [] if kind in ("zeros", "ff") else [a[:-128]], c["check"], c["big"], c["m"], amb)
	res.outcome = "%s %s %s %s" % (c["meta"], c["id3"], c["v1"], c["audio"])
	return res
