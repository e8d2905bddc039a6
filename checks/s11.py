"""S11: a main movie can be used straight from its RAR volumes."""
import functools
import os
import tempfile

from mc import core, musicsyn, rarsyn
from mc.deviate import deviations, full
from mc.rarsyn import Member, payload
from mc.rescenelib import write, read
from mc.resamplelib import srs
from mc.samples import KINDS, base

PROPERTY = "S11"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of the places where the RAR volumes of a main movie split it, and of archive layouts, against the same operation on the unpacked movie"
LEVEL_NOTE = ("For main movies of 7 kinds (12 structures, 1.5 to 3 KB): every place a volume can end (wmv single: thorough only, else every third), every volume size up to 60 (thorough 400) bytes and every combination of 2 (thorough 3) departures over naming, volume counts, other members, names and block layouts. "
	"Checking against the volumes must give the SRS that checking against the unpacked movie gives, and rebuilding from the volumes must be exact with and without stored offsets. Store mode only.")
RULE = "one evaluation = one RAR set of a main movie used for a check and two or three rebuilds; outcomes are (kind, variant, naming, volume count class, verdicts)"

VARIANTS = {
	"avi": {"std": {}},
	"mkv": {"std": {}, "att": {"options": {"att": [(b"a.txt", b"attached" * 20), (b"b.ttf", b"font" * 30)]}}},
	"mp4": {"std": {}, "back": {"options": {"moov": "back", "co64": True, "stsc": "each"}}, "two": {"options": {"stsz": "const", "header": "64", "mdats": 2}}},
	"wmv": {"std": {}, "single": {"options": {"kind": "single", "prop": 0x55}}},
	"flac": {"std": {}, "plain": {}},
	"mp3": {"std": {}, "plain": {}, "riff": {}},
	"vob": {"std": {}},
}

DIMS = {
	"naming": ["old", "new", "new2", "num"],
	"parts": [2, 1, 3, 12],
	"before": ["none", "nfo", "srt", "sub", "dir", "two", "big"],
	"after": ["none", "nfo", "movie", "amovie", "dir", "suffix", "prefix", "folder", "case"],
	"name": ["plain", "folder", "upper", "uni", "space", "dots"],
	"end": ["full", "none", "bare"],
	"rr": ["none", "new", "old"],
	"cmt": ["none", "cmtstore", "oldcmt"],
	"empty": ["no", "first"],
	"large": [False, True],
	"start": ["first", "upper"],
}


def make(kind, variant):
	kw = dict(VARIANTS[kind][variant])
	if (kind, variant) in (("flac", "plain"), ("mp3", "plain"), ("mp3", "riff")):
		a = musicsyn.audio(410, kind, "base")
		if kind == "flac":
			m = lambda s: musicsyn.flac([(0, payload("si", 34)), (4, payload(s, 80))], a)
			return m("s"), m("m")
		if variant == "riff":
			m = lambda s: b"RIFF" + (len(a) + 36).to_bytes(4, "little") + b"WAVEfmt " + bytes([16, 0, 0, 0]) + payload("fmt", 16) + b"data" + len(a).to_bytes(4, "little") + a
			return m("s") + musicsyn.id3v1("s"), m("m")
		return a + musicsyn.id3v1("s"), a
	b = base(kind, lens=(420, 130) if variant != "single" else (280, 61), pre=90 if variant != "single" else 45, tail=60, size=(90, 61), **kw)
	return b.sample, b.main


def plan(kind, variant, **kw):
	c = full(DIMS, {})
	c.update(kind=kind, variant=variant, cuts=None, **kw)
	return c


def cases(ctx):
	out = []
	kv = [(k, v) for k in KINDS for v in sorted(VARIANTS[k])]
	for k, v in kv:
		n = len(make(k, v)[1])
		for p in range(1, n, ctx.pick(3, 1) if v == "single" else 1):
			out.append(plan(k, v, at=[p]))
		for size in list(range(11, ctx.pick(61, 401), ctx.pick(7, 1))) + [64, 100, 128, 255, 256, 257, 512]:
			out.append(plan(k, v, at=list(range(size, n, size))[:250], naming="old" if size % 2 else "new"))
		if ctx.thorough:
			for p in range(1, n):
				for d in (1, 2, 4, 8, 20):
					if p + d < n:
						out.append(plan(k, v, at=[p, p + d]))
		for d in deviations(DIMS, ctx.pick(2, 3)):
			c = plan(k, v, at=None)
			c.update(d)
			out.append(c)
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def volumes(c, ext, main):
	stem = {"plain": "movie", "folder": "CD1\\movie", "upper": "MOVIE", "uni": "m\u00f8vie", "space": "my movie", "dots": "My.Movie.1080p.x264-GRP"}[c["name"]]
	kw = {"uni": stem.replace("movie", "m\u0142vie") + ext} if c["name"] == "uni" else {}
	if c["large"]:
		kw["large"] = True
	name = stem + (ext.upper() if c["name"] == "upper" else ext)
	m = Member(name, data=main, **kw)
	before = {"none": [], "nfo": [Member("rel.nfo", 60)], "srt": [Member("movie.srt", 33)], "sub": [Member("Subs\\movie.idx", 20), Member("Subs\\movie.sub", 300)],
		"dir": [Member("CD1", is_dir=True)], "two": [Member("a.nfo", 0), Member("b.txt", 7)], "big": [Member("cover.jpg", 900)]}[c["before"]]
	after = {"none": [], "nfo": [Member("z.nfo", 60)], "movie": [Member("other" + ext, data=main[:8] + payload("other", 500))], "amovie": [Member("0" + ext, data=main[:8] + payload("other", 500))], "dir": [Member("Sub", is_dir=True)],
		"suffix": [Member("x" + name, data=payload("suffix", 400))], "prefix": [Member(name + ".txt", data=payload("prefix", 400)), Member(name[:-1], 50)],
		"folder": [Member("Extras\\" + name.split("\\")[-1], data=payload("folder", 400))], "case": [Member(name.swapcase(), data=payload("case", 400))]}[c["after"]]
	members = before + [m] + after
	i = len(before)
	at = c["at"]
	if at is None:
		k = c["parts"]
		at = [len(main) * j // k for j in range(1, k)]
	cuts = [(i, p) for p in at]
	if c["empty"] == "first" and before:
		cuts.insert(0, (i, -1))
	return rarsyn.build_set(members, cuts, naming=c["naming"], rr=(c["rr"], 1) if c["rr"] != "none" else None,
		end=c["end"] if c["end"] != "none" else None, cmt=c["cmt"] if c["cmt"] != "none" else None)


@functools.lru_cache(None)
def reference(kind, variant):
	"""-> (SRS without a check, SRS checked against the unpacked movie)"""
	sample, main = make(kind, variant)
	with tempfile.TemporaryDirectory(dir=core.scratch()) as root:
		s = write(os.path.join(root, "in", "sample." + kind), sample)
		m = write(os.path.join(root, "in", "movie." + kind), main)
		out = []
		for extra in ([], ["-c", m]):
			t = os.path.join(root, "x.srs")
			r = srs([s, "-o", t, "-y"] + extra)
			if r != 0:
				return None, r
			out.append(read(t))
		if srs([t, m, "-o", os.path.join(root, "out"), "-y"]) != 0 or read(os.path.join(root, "out", "sample." + kind)) != sample:
			return None, "rebuild"
	return tuple(out)


def run_case(c):
	res = core.Result()
	ext = "." + c["kind"]
	sample, main = make(c["kind"], c["variant"])
	ref = reference(c["kind"], c["variant"])
	if ref[0] is None:
		res.bad("unpacked", "the sample can't be handled with the unpacked movie: %r" % (ref[1],))
		return res
	vols = volumes(c, ext, main)
	root = core.scratch()
	for d in ("in", "srs", "out"):
		os.makedirs(os.path.join(root, d))
	for v in vols:
		write(os.path.join(root, "rar", v.name if c["start"] == "first" else v.name.upper()), v.bytes())
	first = os.path.join(root, "rar", vols[0].name if c["start"] == "first" else vols[0].name.upper())
	before = {n: read(os.path.join(root, "rar", n)) for n in os.listdir(os.path.join(root, "rar"))}
	s = write(os.path.join(root, "in", "sample" + ext), sample)
	t = os.path.join(root, "srs", "x.srs")
	r = srs([s, "-c", first, "-o", t, "-y"])
	have = read(t) if os.path.isfile(t) else None
	if r != 0:
		res.bad("check", "checking against the volumes failed: %r" % (r,))
	elif have != ref[1]:
		res.bad("check differs", "checking against the volumes gives another SRS than against the unpacked movie")
	verdicts = [r]
	for label, data, argv in (("no offsets", ref[0], []), ("offsets", ref[1], []), ("offsets ignored", ref[1], ["-m"])):
		if argv and c["at"] and len(c["at"]) == 1:
			continue
		write(t, data)
		q = srs([t, first, "-o", os.path.join(root, "out"), "-y"] + argv)
		verdicts.append(q)
		p = os.path.join(root, "out", "sample" + ext)
		got = read(p) if os.path.isfile(p) else None
		if q != 0:
			res.bad("rebuild", "rebuilding from the volumes (%s) failed: %r" % (label, q))
		elif got != sample:
			res.bad("wrong success", "rebuilding from the volumes (%s) gave another file" % label)
		if got is not None:
			os.unlink(p)
	if {n: read(os.path.join(root, "rar", n)) for n in os.listdir(os.path.join(root, "rar"))} != before:
		res.bad("touched", "the volumes were changed")
	n = len(vols)
	res.outcome = "%s %s %s %s %s" % (c["kind"], c["variant"], c["naming"], 1 if n == 1 else 2 if n == 2 else 9 if n < 10 else 99, verdicts)
	return res
