"""S10: a damaged sample is refused or still handled exactly."""
import os
import tempfile

from mc import core
from mc.rescenelib import write, read
from mc.resamplelib import srs, leaks
from mc.samples import KINDS, base
import resample

PROPERTY = "S10"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of every truncation, single byte change, removal, insertion and zeroed word of a sample of each kind, each taken through SRS creation and, if accepted, rebuilding"
LEVEL_NOTE = ("For samples of each of the 7 kinds (1 to 2.5 KB; variants with other structures of the container) every truncation length, 6 (thorough: 13) byte changes, a byte removed, "
	"a byte inserted, 4 bytes zeroed at every position, and 32 tails appended; a made SRS is rebuilt from the damaged sample itself in the place of the main movie.")
RULE = "one evaluation = one damaged sample through creation and rebuilding; outcomes are (kind, variant, damage, how creation and rebuilding ended)"

# containers' other structures: (kind, variant) -> keyword arguments for mc.samples.base
VARIANTS = {
	"avi": {"std": {}},
	"mkv": {"std": {}, "att": {"options": {"att": [(b"a.txt", b"attached" * 20), (b"b.ttf", b"font" * 30)]}}},
	"mp4": {"std": {}, "back": {"options": {"moov": "back", "co64": True, "stsc": "each"}}, "stz2": {"options": {"stsz": "const", "header": "64", "mdats": 2}}},
	"wmv": {"std": {}, "single": {"options": {"kind": "single", "prop": 0x55}}},
	"flac": {"std": {}},
	"mp3": {"std": {}},
	"vob": {"std": {}},
}
QUICK = ["cut", "xff", "x01", "x80", "zero", "ff", "del", "ins", "zero4"]
THOROUGH = QUICK + ["x02", "x04", "x08", "x10", "x20", "x40", "ff4", "swap", "dup"]


def small(kind, variant):
	kw = dict(VARIANTS[kind][variant])
	return base(kind, lens=(280, 130), pre=0, tail=0, size=(90, 61), **kw)


def cases(ctx):
	out = []
	for kind in KINDS:
		for v in sorted(VARIANTS[kind]):
			n = len(small(kind, v).sample)
			for how in ctx.pick(QUICK, THOROUGH):
				for p in range(n):
					out.append({"kind": kind, "variant": v, "how": how, "at": p})
			for tail in (1, 2, 3, 7, 8, 9, 16, 100):
				for fill in ("zero", "ff", "text", "head"):
					out.append({"kind": kind, "variant": v, "how": "tail", "at": tail, "fill": fill})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), damage=ctx.pick(QUICK, THOROUGH))


def damage(s, c):
	p, how = c["at"], c["how"]
	b = s[p] if p < len(s) else 0
	if how == "cut":
		return s[:p]
	if how[0] == "x":
		return s[:p] + bytes([b ^ int(how[1:], 16)]) + s[p + 1:]
	if how == "zero":
		return s[:p] + b"\0" + s[p + 1:]
	if how == "ff":
		return s[:p] + b"\xff" + s[p + 1:]
	if how == "zero4":
		return s[:p] + bytes(len(s[p:p + 4])) + s[p + 4:]
	if how == "ff4":
		return s[:p] + b"\xff" * len(s[p:p + 4]) + s[p + 4:]
	if how == "del":
		return s[:p] + s[p + 1:]
	if how == "ins":
		return s[:p] + b"\x5a" + s[p:]
	if how == "dup":
		return s[:p] + s[p:p + 16] + s[p:]
	if how == "swap":
		return s[:p] + s[p + 8:p + 16] + s[p:p + 8] + s[p + 16:]
	if how == "tail":
		return s + {"zero": bytes(p), "ff": b"\xff" * p, "text": (b"appended text " * 10)[:p], "head": s[:p]}[c["fill"]]
	raise core.HarnessError(how)


def misplaced(data):
	"""do the tables of an MP4 file say that its stream data overlaps, or is elsewhere than in the mdat atoms?
	(the project's own tests want such a sample to be accepted; it can't be put together again)"""
	mdats, tracks = [], []

	def walk(at, end):
		while at + 8 <= end:
			size = int.from_bytes(data[at:at + 4], "big")
			kind = data[at + 4:at + 8]
			head = 8
			if size == 1:
				size = int.from_bytes(data[at + 8:at + 16], "big")
				head = 16
			elif size == 0:
				size = 8 if kind == bytes(4) else end - at
			if size < head:
				return
			body = data[at + head:at + size]
			n = int.from_bytes(body[4:8], "big")
			num = lambda i, w=4: int.from_bytes(body[i:i + w], "big")
			if kind == b"mdat":
				mdats.append((at + head, at + size))
			elif kind == b"tkhd":
				tracks.append({})
			elif kind in (b"moov", b"trak", b"mdia", b"minf", b"stbl"):
				at += head
				continue
			elif tracks and kind == b"stco" and "co" not in tracks[-1]:
				tracks[-1]["co"] = [num(8 + 4 * i) for i in range(n)]
			elif tracks and kind == b"co64" and "co" not in tracks[-1]:
				tracks[-1]["co"] = [num(8 + 8 * i, 8) for i in range(n)]
			elif tracks and kind == b"stsc" and "sc" not in tracks[-1]:
				tracks[-1]["sc"] = [(num(8 + 12 * i), num(12 + 12 * i)) for i in range(n)]
			elif tracks and kind == b"stsz" and "sz" not in tracks[-1]:
				tracks[-1]["sz"] = [n] * num(8) if n else [num(12 + 4 * i) for i in range(num(8))]
			at += size
	walk(0, len(data))
	spans = []
	for t in tracks:
		sizes = list(t.get("sz", []))
		for i, o in enumerate(t.get("co", [])):
			per = [k for first, k in t.get("sc", []) if first <= i + 1]
			k = per[-1] if per else 0
			spans.append((o, o + sum(sizes[:k])))
			sizes = sizes[k:]
	spans = sorted(s for s in spans if s[1] > s[0])
	return (any(a[1] > b[0] for a, b in zip(spans, spans[1:]))
		or not all(any(m[0] <= s[0] and s[1] <= m[1] for m in mdats) for s in spans)
		or any(a[0] == b[0] for a, b in zip(spans, spans[1:])))


def run_case(c):
	res = core.Result()
	b = small(c["kind"], c["variant"])
	data = damage(b.sample, c)
	root = core.scratch()
	for d in ("in", "srs", "out", "tmp"):
		os.makedirs(os.path.join(root, d))
	old = tempfile.tempdir
	tempfile.tempdir = os.path.join(root, "tmp")
	try:
		sample = write(os.path.join(root, "in", "sample" + b.ext), data)
		target = os.path.join(root, "srs", "x.srs")
		r = srs([sample, "-o", target])
		res.outcome = "%s %s %s create %s" % (c["kind"], c["variant"], c["how"], r)
		extra = [n for d in ("srs", "tmp", "in") for n in os.listdir(os.path.join(root, d))]
		if isinstance(r, str):
			res.bad("escape", "creating: %s" % r)
		if read(sample) != data:
			res.bad("touched", "creating changed the sample")
		if r not in (0, 1, 2):
			res.bad("undocumented", "creating: a damaged sample ends in exit code %r" % (r,))
		if r != 0:
			if sorted(extra) != ["sample" + b.ext]:
				res.bad("left", "refused (%r), but left: %s" % (r, sorted(extra)))
			return res
		if sorted(extra) != ["sample" + b.ext, "x.srs"]:
			res.bad("left", "created, but left: %s" % sorted(extra))
		q = srs([target, sample, "-o", os.path.join(root, "out")])
		res.outcome += " rebuild %s" % q
		got = os.path.join(root, "out", "sample" + b.ext)
		have = read(got) if os.path.isfile(got) else None
		if isinstance(q, str):
			res.bad("escape", "rebuilding: %s" % q)
		if q == 0 and have != data:
			res.bad("wrong success", "success reported for a file that differs from the damaged sample")
		elif q != 0 and c["kind"] == "mp4" and misplaced(data):
			res.outcome += " misplaced"
		elif q != 0:
			res.bad("no rebuild", "an SRS was made, but rebuilding it from the damaged sample itself gave %r" % (q,))
		if read(sample) != data:
			res.bad("touched", "rebuilding changed the main file")
	finally:
		tempfile.tempdir = old
	return res
