"""S09: SRS records and the integers of the container formats survive writing and reading."""
import io
import os
import sys

from mc import core
from mc.deviate import deviations, full
from mc.rarsyn import payload
from mc.rescenelib import write
from mc.resamplelib import srs
from mc.samples import KINDS, base
import resample
from resample import ebml, mp3

PROPERTY = "S09"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of the boundary values of every record field in every container, and of every integer up to a bound plus all width boundaries, through the real writers and readers"
LEVEL_NOTE = ("In each of the 7 containers every combination of at most 2 (thorough 3) fields at a boundary value, every signature length up to 300 and every file name length up to 300; variable-width integers: every value "
	"below 2^20 (thorough 2^24) and everything within 3 of each power of two up to the largest representable.")
RULE = "one evaluation = one SRS written and read back, or one range of integers; outcomes are (container, field classes)"

W = [0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
BIGW = W + [2 ** 32, 2 ** 32 + 1, 2 ** 40 + 5, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
NAMES = ["sample", "a", "n" * 126, "n" * 200, "with space", "d.o.t.s", "caf\xe9", "\u65e5\u672c", "SRST", "tab\there", "quote'\"", "\U0001f600", "x" * 300, "\x7f", "-y"]
DIMS = {
	"size": [None] + BIGW,
	"crc": [None, 0, 1, 255, 0xff000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x00ffffff],
	"name": NAMES,
	"app": [None, "a", "", "x" * 255, "x" * 256, "caf\xe9", "long" * 1000],
	"flags": [None, 0, 1, 2, 3],
	"number": [None, 0, 1, 2, 127, 128, 255, 256, 65535, 65536, 70000, 2 ** 32 - 1],
	"numbers": [1, 2, 5, 0, 40],
	"len": [None] + BIGW,
	"offset": [None] + BIGW,
	"sig": [256, 0, 1, 2, 14, 95, 96, 97, 110, 111, 112, 113, 114, 127, 128, 255, 257, 300, 65535],
	"mark": ["", "SRST", "SRSF", "fLaC", "\x1a\x45\xdf\xa3", "\x00", "\xff", "ID3\x03", "TAG", "mdat", "LIST"],
	"big": [False, True],
	"fp": [None, 0, 1, 255, 256, 70000],
	"duration": [None, 0, 1, 65536, 2 ** 32 - 1],
}
OLDLEN = 2 ** 32 - 1


def applies(kind, d):
	if kind not in ("flac", "mp3"):
		if "fp" in d or "duration" in d:
			return False
	elif d.get("numbers", 1) != 1 or "number" in d:
		return False
	if kind == "vob" and (d.get("numbers", 1) != 1 or "number" in d):
		return False
	return True


def cases(ctx):
	out = []
	step = 1 << 12
	top = 1 << ctx.pick(20, 24)
	for lo in range(0, top, step):
		out.append({"ints": [lo, lo + step]})
	for k in range(1, 57):
		out.append({"ints": [max(0, (1 << k) - 3), (1 << k) + 3]})
	out.append({"bytes": True})
	for kind in KINDS:
		for d in deviations(DIMS, ctx.pick(2, 3), lambda d: applies(kind, d)):
			out.append(dict(full(DIMS, d), kind=kind))
		for n in range(0, 300):
			out.append(dict(full(DIMS, {}), kind=kind, sig=n))
			out.append(dict(full(DIMS, {}), kind=kind, name="n" * n if n else "z"))
			if n % 2:
				out.append(dict(full(DIMS, {}), kind=kind, name="\xe9" * n))
			out.append(dict(full(DIMS, {}), kind=kind, app="a" * n))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def run_case(c):
	res = core.Result()
	if "ints" in c:
		return ints(res, *c["ints"])
	if "bytes" in c:
		return all_bytes(res)
	return records(res, c)


def width(n):
	"""of an EBML integer that may use every value"""
	w = 1
	while n >= 1 << (7 * w):
		w += 1
	return w


def ints(res, lo, hi):
	for n in range(lo, hi):
		if n < (1 << 56):
			b = bytes(ebml.MakeEbmlUInt(n))
			if ebml.GetUIntLength(b[0]) != len(b):
				res.bad("ebml length", "%d is written as %s" % (n, b.hex()))
			if ebml.GetEbmlUInt(b, 0, len(b)) != n or ebml.GetEbmlUInt(b"?" + b + b"?", 1, len(b)) != n:
				res.bad("ebml", "%d is written as %s and read as %d" % (n, b.hex(), ebml.GetEbmlUInt(b, 0, len(b))))
			if ebml.GetEbmlUIntStream(io.BytesIO(b + b"\xff")) != (n, len(b)):
				res.bad("ebml stream", "%d is read from a stream as %r" % (n, ebml.GetEbmlUIntStream(io.BytesIO(b))))
			# any legal width
			for w in range(width(n), 9):
				x = (n | 1 << (7 * w)).to_bytes(w, "big")
				if ebml.GetUIntLength(x[0]) != w or ebml.GetEbmlUInt(x, 0, w) != n or ebml.GetEbmlUIntStream(io.BytesIO(x)) != (n, w):
					res.bad("ebml width", "%d in %d bytes is misread" % (n, w))
		x = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
		for pad in (b"", b"\0", b"\0\0\0"):
			if ebml.GetUInt(pad + x) != n:
				res.bad("uint", "%d is read as %d" % (n, ebml.GetUInt(pad + x)))
		if n < (1 << 28):
			e = bytes(mp3.encode_id3_size(n))
			ref = bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])
			if mp3.decode_id3_size(ref) != n:
				res.bad("id3 decode", "a tag of %d bytes is seen as %d" % (n, mp3.decode_id3_size(ref)))
			if e != ref:
				res.bad("id3 encode", "%d is written as %s" % (n, e.hex()))
	res.outcome = "ints %d" % hi.bit_length()
	return res


def all_bytes(res):
	for b in range(256):
		ref = 0 if not b else 9 - b.bit_length()
		if ebml.GetUIntLength(b) != ref:
			res.bad("length descriptor", "byte %02x: %d" % (b, ebml.GetUIntLength(b)))
	for k in range(1, 5):
		for i in range(256):
			ident = bytes([(1 << (8 - k)) | (i & ((1 << (8 - k)) - 1))]) + bytes(range(i % 250, i % 250 + k - 1))
			if ebml.GetEbmlElementID(io.BytesIO(ident + b"more")) != ident:
				res.bad("element id", "%s is misread" % ident.hex())
	res.outcome = "bytes"
	return res


class Out(io.StringIO):
	encoding = "utf-8"


def records(res, c):
	kind = c["kind"]
	b = base(kind)
	name = c["name"]
	src = write(os.path.join(core.scratch(), "in", "sample" + b.ext), b.sample)
	s = resample.sample_class_factory(resample.file_type_info(src).file_type)
	from resample import fpcalc
	fpcalc.fpcalc_executable = os.path.join(core.VERIF, "mc", "shim", "bin", "fpcalc")
	data = resample.FileData(file_name=src)
	tracks, _ = s.profile_sample(data)
	data.sample_name = os.path.join("some", "folder", name + b.ext)
	if c["size"] is not None:
		data.size = c["size"]
	if c["crc"] is not None:
		data.crc32 = c["crc"]
	if c["flags"] is not None:
		data.flags = c["flags"]
	first = tracks[min(tracks)]
	if c["len"] is not None:
		first.data_length = c["len"]
	if c["offset"] is not None:
		first.match_offset = c["offset"]
	if c["sig"] != 256 or c["mark"]:
		m = c["mark"].encode("latin-1")
		sig = payload("sig", c["sig"])
		if m in (b"\0", b"\xff"):
			sig = m * c["sig"]
		elif m:
			sig = (m + sig + m)[:c["sig"]]
			sig = sig[:-len(m)] + m if len(sig) > 2 * len(m) else sig
		first.signature_bytes = sig
	if c["number"] is not None:
		del tracks[first.track_number]
		tracks.pop(c["number"], None)
		first.track_number = c["number"]
		tracks[c["number"]] = first
	if kind not in ("flac", "mp3", "vob") and c["numbers"] != 1:
		if c["numbers"] == 0:
			tracks.clear()
		for k in range(1, c["numbers"]):
			t = resample.TrackData()
			t.track_number = 1000 + k * 77
			t.data_length = k * 3
			t.match_offset = k << 33
			t.signature_bytes = payload("s%d" % k, k)
			tracks[t.track_number] = t
	if c["fp"] is not None:
		first.fingerprint = b"F" * c["fp"]
	if c["duration"] is not None:
		first.duration = c["duration"]
	app = resample.APPNAME
	if c["app"] is not None:
		resample.APPNAME = c["app"]
	want = dict((n, (t.track_number, t.data_length, t.match_offset, bytes(t.signature_bytes), getattr(t, "fingerprint", None), getattr(t, "duration", None) and int(t.duration))) for n, t in tracks.items())
	wfile = (data.size, data.crc32 & 0xFFFFFFFF, name + b.ext, resample.APPNAME, data.flags)
	out = os.path.join(core.scratch(), "x.srs")
	toolong = any(t.data_length > OLDLEN for t in tracks.values()) and not c["big"]
	try:
		try:
			s.create_srs(tracks, data, src, out, c["big"])
		finally:
			resample.APPNAME = app
	except Exception as e:
		if not toolong:
			res.bad("write", "writing failed: %s: %s" % (type(e).__name__, e))
		res.outcome = "refused"
		return res
	if toolong:
		res.bad("silent", "a stream of %d bytes was written into a 32-bit field" % first.data_length)
		return res
	s2 = resample.sample_class_factory(resample.file_type_info(out).file_type)
	if type(s2) is not type(s):
		res.bad("type", "the SRS is seen as another type")
		return res
	d2, t2 = s2.load_srs(out)
	got = (d2.size, d2.crc32, d2.name, d2.appname, d2.flags)
	for what, a, z in zip(("size", "checksum", "name", "application", "flags"), wfile, got):
		if a != z:
			res.bad("file " + what, "%s %r is read as %r" % (what, a, z))
	gott = dict((n, (t.track_number, t.data_length, t.match_offset, bytes(t.signature_bytes), getattr(t, "fingerprint", None), getattr(t, "duration", None))) for n, t in t2.items())
	if set(gott) != set(want):
		res.bad("tracks", "streams %r are read as %r" % (sorted(want), sorted(gott)))
	else:
		for n in want:
			for what, a, z in zip(("number", "length", "offset", "signature", "fingerprint", "duration"), want[n], gott[n]):
				if a != z:
					res.bad("track " + what, "%s %r of stream %d is read as %r" % (what, a if not isinstance(a, bytes) else len(a), n, z if not isinstance(z, bytes) else len(z)))
	if tracks and set(gott) == set(want):
		listed(res, c, out, wfile, want)
	res.outcome = "%s %s" % (kind, "/".join(k for k in DIMS if c[k] != DIMS[k][0]))
	return res


def listed(res, c, out, wfile, want):
	"""what the tool shows"""
	old = sys.stdout
	sys.stdout = Out()
	try:
		r = srs([out, "-l"])
		text = sys.stdout.getvalue()
	finally:
		sys.stdout = old
	if r != 0:
		res.bad("list", "listing gave %r" % (r,))
		return
	flat = text.replace(",", "").replace(".", "").replace(" ", "")
	for what, v in (("Sample Size", str(wfile[0])), ("Sample CRC", "%08X" % wfile[1]), ("Sample Name", wfile[2].replace(".", "").replace(",", "").replace(" ", ""))):
		if (what.replace(" ", "") + ":" + v) not in flat:
			res.bad("list " + what, "%s is not listed as %s" % (what, v))
	for n, t in want.items():
		if "Track%d:%dbytes" % (n, t[1]) not in flat:
			res.bad("list track", "stream %d of %d bytes is not listed so" % (n, t[1]))
