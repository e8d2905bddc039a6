"""S06: MP3 files round trip."""
import functools
import itertools

from mc import core, musicsyn
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge

PROPERTY = "S06"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of MP3 tag stacks and audio layouts of both files against an independent writer, driven through the command line"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 4) departures from a plain track and its retagged copy over leading ID3v2 tags, trailing APE, Lyrics3 and ID3v1 tags, audio start, size and content and options, all pairs of tag stacks of the two files, "
	"every audio length up to 400 bytes and every place in the signature where it resembles a tag, is profiled, stored and rebuilt by the real code and compared byte for byte. The AcoustID tool is a stand-in that always answers the same. "
	"Audio of which the end is itself a tag, while the main file lost the real ones, is out: nothing tells them apart.")
RULE = "one evaluation = one track turned into an SRS and rebuilt from a retagged copy; outcomes are layout classes"

HEADS = ["none", "one", "empty", "two", "three", "large", "names", "gap", "biggap"]
TAILS = ["none", "v1", "lyr1", "lyr2", "ape1", "ape2", "lyr1v1", "lyr2v1", "ape1v1", "ape2v1", "ape2lyr2v1", "ape1lyr1v1", "ape2lyr1lyr2v1", "plain2", "plain2v1", "ape2large", "lyr1max", "lyr2large", "names"]
LEN = [4000, 2, 3, 4, 31, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 200001]
DIMS = {
	"head": ["one"] + [h for h in HEADS if h != "one"],
	"mhead": HEADS,
	"tail": ["v1"] + [t for t in TAILS if t != "v1"],
	"mtail": TAILS,
	"len": LEN,
	"audio": ["mp3", "mp2", "riff", "junk", "zeros", "flacin", "names", "tag128"],
	"junk": [0, 1, 3, 300, 65534, 65536, 70000],  # bytes between the tag and the audio of the main file
	"name": [".mp3", ".MP3"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}
WORDS = [b"TAG", b"APETAGEX", b"LYRICSEND", b"LYRICS200", b"LYRICSBEGIN", b"ID3", b"SRSF", b"RIFF"]


def cases(ctx):
	out = [full(DIMS, d) for d in deviations(DIMS, ctx.pick(2, 4))]
	for h, t, mh, mt in itertools.product(HEADS[:ctx.pick(2, 4)], TAILS, HEADS[:ctx.pick(2, 4)], TAILS):
		out.append(dict(full(DIMS, {}), head=h, tail=t, mhead=mh, mtail=mt))
	for h, mh in (("huge", "none"), ("huge", "huge"), ("one", "huge")):
		out.append(dict(full(DIMS, {}), head=h, mhead=mh))
	for n in range(2, 400):
		for h, t, mh, mt in (("none", "none", "none", "none"), ("none", "v1", "none", "v1"), ("one", "none", "none", "v1"), ("one", "lyr1", "one", "lyr1"), ("none", "ape2", "none", "none")):
			out.append(dict(full(DIMS, {}), len=n, head=h, tail=t, mhead=mh, mtail=mt))
	for junk in list(range(65536 - 260, 65536 + 5)) + (list(range(2 * 65536 - 520, 2 * 65536 - 240)) if ctx.thorough else [2 * 65536 - 255 * k - d for k in (1, 2) for d in (-1, 0, 1, 2)]):
		out.append(dict(full(DIMS, {}), junk=junk))
	for word in range(len(WORDS)):
		for at in range(4, 256):
			out.append(dict(full(DIMS, {}), word=word, at=at, len=300, head="none", tail="none"))
			out.append(dict(full(DIMS, {}), word=word, at=at, head="gap", tail="lyr1", len=1000))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 4))


@functools.lru_cache(None)
def head(kind, who):
	one = musicsyn.id3v2(300, who)
	if kind == "none":
		return b""
	return {"one": one, "empty": musicsyn.id3v2(0), "two": one + musicsyn.id3v2(20, who + "2"), "three": musicsyn.id3v2(0) * 2 + one, "large": musicsyn.id3v2(70000, who), "huge": musicsyn.id3v2(2 * 1024 * 1024 + 700, who),
		"names": musicsyn.id3v2(90, who, b"ID3 TAG fLaC APETAGEX LYRICSBEGIN"), "gap": one + b"some info text\r\n" + musicsyn.id3v2(50, who + "3"), "biggap": one + b"text\r\n" * 11500 + musicsyn.id3v2(50, who + "3")}[kind]


@functools.lru_cache(None)
def tail(kind, who):
	out = b""
	if kind == "names":
		return musicsyn.ape(2000, 30, who) + b"TAG" + (b"ID3 LYRICSBEGIN APETAGEX LYRICSEND TAG" * 4)[:125]
	for part, data in (("plain2", musicsyn.ape(2000, 80, who, False)), ("ape1", musicsyn.ape(1000, 77, who)), ("ape2large", musicsyn.ape(2000, 70000, who)), ("ape2", musicsyn.ape(2000, 120, who)),
			("lyr1max", musicsyn.lyrics1(5080, who)), ("lyr1", musicsyn.lyrics1(200, who)), ("lyr2large", musicsyn.lyrics2(30000, who)), ("lyr2", musicsyn.lyrics2(90, who)), ("v1", musicsyn.id3v1(who))):
		if kind.startswith(part):
			kind = kind[len(part):]
			out += data
	assert kind in ("", "none"), kind
	return out


def run_case(c):
	res = core.Result()
	n = c["len"]
	kind = c["audio"]
	a = musicsyn.audio(n, kind if kind in ("mp3", "mp2", "riff") else "mp3")
	sh, mh = c["head"], c["mhead"]
	st, mt = c["tail"], c["mtail"]
	if kind == "junk":
		a = b"\0\0" + a
		sh, mh = sh if sh != "none" else "one", mh if mh != "none" else "one"
	elif kind == "zeros":
		a = a[:4] + bytes(n - len(a[:4]))
	elif kind == "flacin":
		a = musicsyn.flac([(0, bytes(34))], musicsyn.audio(n))
		sh, mh = "two", "three"
	elif kind == "names":
		a = (a[:20] + b"TAGID3APETAGEXLYRICSBEGINXXXX" + a[60:])[:n]
	elif kind == "tag128" and n > 140:
		a = a[:-128] + b"TAG" + a[-125:]
	if "word" in c:
		w = WORDS[c["word"]]
		a = a[:c["at"]] + w + a[c["at"] + len(w):]
	mjunk = bytes(c["junk"])
	if mjunk and mh == "none":
		mh = "one"
	sb = head(sh, "s") + a + tail(st, "s")
	mb = head(mh, "m") + mjunk + a + tail(mt, "m")
	# nothing recognizable is left
	amb = kind == "tag128" and n > 140 and st != "none" and mt == "none"
	if len(sb) < 14 or len(mb) < 14 or (n < 4 and "none" in (sh, mh)):
		res.outcome = "too small"
		return res
	job = Job(core.scratch(), sb, mb, c["name"])
	judge(res, job, [] if kind in ("zeros", "flacin") else [a[:-128]], c["check"], c["big"], c["m"], amb)
	res.outcome = "%s %s %s" % (sh, st, kind)
	return res
