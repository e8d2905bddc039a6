"""S08: the sample tool reports success only for the exact sample."""
import errno
import os
import tempfile
import zlib

from mc import core
from mc import faults as F
from mc.deviate import deviations, full
from mc.rarsyn import payload
from mc.rescenelib import write, read, tree
from mc.resamplelib import srs, Asked
from mc.samples import KINDS, VIDEO, base
from resample import main as rmain
import resample

PROPERTY = "S08"
SHIM = True
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of main-file and SRS damage, of answers and options about existing files, and of one failing, torn or interrupted file operation at every position"
LEVEL_NOTE = ("For a sample of each of the 7 kinds: every truncation and one changed byte at every position of the main file and of the SRS, every kind of file in the place of the main file, every combination of options, answers and "
	"existing files, names that lead out of the folder, and one failing, interrupted or final write at every position of creation and rebuilding. Samples of about 1.5 KB with up to two streams.")
RULE = "one evaluation = one run of the tool on one damaged or hindered input; outcomes are (kind, operation, damage, how it ended)"

OLD = b"an older file of the user that is not the sample" * 3
_cache = {}
SRS_MAX = {"avi": 1400, "mkv": 1000, "mp4": 1800, "wmv": 1600, "flac": 800, "mp3": 750, "vob": 450}  # no SRS here is bigger


def made(kind):
	"""-> (base, SRS bytes)"""
	if kind not in _cache:
		b = base(kind)
		root = os.path.join(core.scratch(), "made")
		s = write(os.path.join(root, "sample" + b.ext), b.sample)
		o = os.path.join(root, "x.srs")
		r = srs([s, "-o", o, "-y"])
		if r != 0:
			raise AssertionError("the sample of kind %s is refused: %r" % (kind, r))
		_cache[kind] = b, read(o)
	return _cache[kind]


def sizes(kind):
	b = base(kind)
	return len(b.sample), len(b.main)


MODES = {
	"eio": (F.FAIL, errno.EIO), "enospc": (F.FAIL_FROM, errno.ENOSPC), "eacces": (F.FAIL, errno.EACCES), "short": (F.SHORT, 0), "torn": (F.TORN, 0), "die": (F.DIE_BEFORE, 0), "dead": (F.DIE_AFTER, 0),
	"int": (F.INT_AFTER, 0), "intb": (F.INT_BEFORE, 0)}

OPT = {
	"there": ["none", "other", "same", "folder"],
	"answer": ["y", "n", "-y"],
	"keep": [False, True],
	"m": [False, True],
	"main": ["exact", "data", "half", "none", "flipall"],
	"place": ["out", "missing", "cwd", "nested"],
}
MAKE = {
	"there": ["none", "other", "same", "folder"],
	"answer": ["y", "n", "-y"],
	"input": ["exact", "cut", "none", "empty", "folder", "text", "wrongext", "cutcheck"],
	"to": ["file", "folder", "d", "dd", "ddd", "nofolder", "nosub", "cwd"],
	"check": ["no", "main", "wrong", "cutmain", "otherkind", "none"],
	"info": [False, True],
}


def cases(ctx):
	out = []
	for kind in KINDS:
		sn, mn = sizes(kind)
		for p in range(0, mn, 1):
			out.append({"op": "main", "kind": kind, "cut": p, "m": p % 2 == 0})
			out.append({"op": "main", "kind": kind, "at": p, "x": 0xff, "m": p % 2 == 1})
			if ctx.thorough:
				for x in (1, 0x80, 0x20):
					out.append({"op": "main", "kind": kind, "at": p, "x": x, "m": False})
		for p in range(0, SRS_MAX[kind]):
			out.append({"op": "srs", "kind": kind, "cut": p})
			for x in (0xff, 0x01) if not ctx.thorough else (0xff, 1, 2, 0x10, 0x80):
				out.append({"op": "srs", "kind": kind, "at": p, "x": x})
		for d in deviations(OPT, ctx.pick(3, 6)):
			out.append(dict(full(OPT, d), op="opt", kind=kind))
		for d in deviations(MAKE, ctx.pick(3, 6)):
			out.append(dict(full(MAKE, d), op="make", kind=kind))
		for other in KINDS + ["empty", "missing", "folder", "text", "tiny", "rar", "itself", "sample"]:
			for m in (False, True):
				for keep in (False, True):
					out.append({"op": "other", "kind": kind, "other": other, "m": m, "keep": keep})
		for name in ("../up.bin", "/abs.bin", "a/b.bin", "..", ".", "../../x", "a\\b.bin", "..\\w.bin", "x/../../y", "n\0ul", "-y", "in/main", "tmp/../../q"):
			for keep in (False, True):
				for good in (False, True):
					out.append({"op": "name", "kind": kind, "name": name, "keep": keep, "good": good})
		for v in ("crc", "size", "sizeup", "crczero"):
			for keep in (False, True):
				for there in ("none", "other", "same"):
					out.append({"op": "field", "kind": kind, "field": v, "keep": keep, "there": there})
		for step in ("create", "rebuild", "retag"):
			if step == "retag" and kind in VIDEO + ["vob"]:
				continue
			for there in ("none", "other"):
				for mode in MODES:
					for keep in (False, True) if step != "create" else (False,):
						if keep and mode not in ("eio", "torn", "short"):
							continue
						out.append({"op": "fault", "kind": kind, "step": step, "there": there, "mode": mode, "keep": keep})
		if kind not in VIDEO + ["vob"]:
			for same in ("same", "link", "hard"):
				for keep in (False, True):
					for dam in ["none"] + list(range(0, mn, 7)):
						out.append({"op": "retag", "kind": kind, "same": same, "keep": keep, "damage": dam})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), fault_modes=sorted(MODES))


class World(object):
	def __init__(self, kind, there="none", main=None, srs_bytes=None, out="out", name=None):
		self.b, good = made(kind)
		self.root = core.scratch()
		d = os.path.join(self.root, "world")
		self.d = d
		for n in ("in", "srs", "tmp"):
			os.makedirs(os.path.join(d, n), exist_ok=True)
		self.name = name or "sample" + self.b.ext
		self.srs = write(os.path.join(d, "srs", "x.srs"), good if srs_bytes is None else srs_bytes)
		self.main = os.path.join(d, "in", "main" + self.b.ext)
		if main is not None:
			write(self.main, main)
		self.out = os.path.join(d, out)
		if there != "none":
			os.makedirs(self.out, exist_ok=True)
		self.target = os.path.join(self.out, self.name)
		self.set(there)
		tempfile.tempdir = os.path.join(d, "tmp")
		os.chdir(d)
		self.before = self.snap()

	def set(self, there):
		if there == "other":
			write(self.target, OLD)
		elif there == "same":
			write(self.target, self.b.sample)
		elif there == "folder":
			os.makedirs(self.target)
			write(os.path.join(self.target, "inside"), b"inside")

	def snap(self):
		t = {}
		for base_, ds, fs in os.walk(self.d):
			for n in ds:
				t[os.path.relpath(os.path.join(base_, n), self.d) + "/"] = None
			for n in fs:
				p = os.path.join(base_, n)
				t[os.path.relpath(p, self.d)] = read(p) if os.path.isfile(p) else "special"
		return t

	def changes(self):
		"""{path: (old, new)}"""
		a = self.snap()
		return dict((k, (self.before.get(k, "absent"), a.get(k, "absent"))) for k in set(a) | set(self.before) if a.get(k, "absent") != self.before.get(k, "absent"))


def settle(res, w, r, may, allowed, label, tmp_ok=False, made_dirs=()):
	"""r: exit code; may: list of bytes the target may now hold (None: gone/absent as before is always fine)
	allowed: the target may change at all"""
	if isinstance(r, str):
		res.bad("escape", "%s: %s" % (label, r))
	rel = os.path.relpath(w.target, w.d)
	for p, (old, new) in sorted(w.changes().items()):
		if p == rel and allowed:
			if new in may:
				continue
			res.bad("target", "%s (exit %r): the result file is now %s" % (label, r, "gone" if new == "absent" else "%d other bytes" % len(new)))
		elif p.endswith(".tmp"):
			if not tmp_ok:
				res.bad("temp", "%s (exit %r): a temporary file was left: %s" % (label, r, p.split("-")[0]))
		elif p.rstrip("/") in made_dirs:
			pass
		else:
			res.bad("touched", "%s (exit %r): %s %s" % (label, r, p, "is gone" if new == "absent" else "appeared" if old == "absent" else "was changed"))


def recorded(path, kind):
	"""size and checksum in an SRS, as the tool reads them"""
	s = resample.sample_class_factory(resample.file_type_info(path).file_type)
	d, _ = s.load_srs(path)
	return d.size, d.crc32


def run_case(c):
	res = core.Result()
	os.umask(0o022)
	old = tempfile.tempdir
	try:
		globals()["op_" + c["op"]](res, c)
	finally:
		tempfile.tempdir = old
	return res


def op_main(res, c):
	b, _ = made(c["kind"])
	m = b.main
	if "cut" in c:
		m = m[:c["cut"]]
	else:
		m = m[:c["at"]] + bytes([m[c["at"]] ^ c["x"]]) + m[c["at"] + 1:]
	w = World(c["kind"], main=m)
	r = srs([w.srs, w.main, "-o", w.out, "-y"] + (["-m"] if c["m"] else []))
	settle(res, w, r, [b.sample], r == 0, "damaged main", made_dirs=["out"])
	if r == 0 and (not os.path.isfile(w.target) or read(w.target) != b.sample):
		res.bad("wrong success", "success without the sample")
	res.outcome = "%s main %s %s" % (c["kind"], "cut" if "cut" in c else "flip", r)


def op_srs(res, c):
	b, good = made(c["kind"])
	if c.get("cut", c.get("at")) >= len(good):
		res.outcome = "past"
		return
	if "cut" in c:
		s = good[:c["cut"]]
	else:
		s = good[:c["at"]] + bytes([good[c["at"]] ^ c["x"]]) + good[c["at"] + 1:]
	w = World(c["kind"], main=b.main, srs_bytes=s)
	r = srs([w.srs, w.main, "-o", w.out, "-y"])
	verdict(res, w, r, "damaged SRS")
	res.outcome = "%s srs %s %s" % (c["kind"], "cut" if "cut" in c else "flip", r)


def verdict(res, w, r, label, keep=False):
	"""only files right inside the output folder may appear, and only of the recorded size and checksum"""
	if isinstance(r, str):
		res.bad("escape", "%s: %s" % (label, r))
	new = []
	rel = os.path.relpath(w.out, w.d)
	for p, (old, now) in w.changes().items():
		if p == rel + "/":
			continue
		if os.path.dirname(p) == rel and not p.endswith(".tmp") and not p.endswith("/"):
			new.append((p, now))
		elif p.endswith(".tmp"):
			res.bad("temp", "%s (exit %r): a temporary file was left" % (label, r))
		else:
			res.bad("touched", "%s (exit %r): %s was touched" % (label, r, p))
	if r == 0:
		if len(new) != 1 or new[0][1] == "absent":
			res.bad("wrong success", "%s: success with %d files" % (label, len(new)))
			return
		size, crc = recorded(w.srs, w.b.kind)
		data = new[0][1]
		if len(data) != size or zlib.crc32(data) & 0xFFFFFFFF != crc:
			res.bad("wrong success", "%s: success for a file of %d bytes with checksum %08X; recorded are %d and %08X" % (label, len(data), zlib.crc32(data), size, crc))
	elif new and not keep:
		res.bad("left", "%s (exit %r): files were left" % (label, r))


def op_opt(res, c):
	b, _ = made(c["kind"])
	m = b.main
	at = m.find(b.streams[0][-60:-20]) if c["kind"] != "vob" else m.find(b.sample[-60:-20])
	if at < 0:
		at = m.find(b.streams[0][-30:-20])
	assert at > 0
	if c["main"] == "data":
		m = m[:at] + bytes([m[at] ^ 1]) + m[at + 1:]
	elif c["main"] == "half":
		m = m[:len(m) // 2]
	elif c["main"] == "none":
		m = None
	elif c["main"] == "flipall":
		m = m[:len(m) // 3] + bytes(x ^ 0x55 for x in m[len(m) // 3:])
	place = {"out": "out", "missing": "not there", "cwd": ".", "nested": "deep/er"}[c["place"]]
	w = World(c["kind"], c["there"], m, out=place)
	argv = [w.srs, w.main]
	if place != ".":
		argv += ["-o", w.out]
	if c["m"]:
		argv.append("-m")
	if c["keep"]:
		argv.append("-k")
	ans = c["answer"]
	if ans == "-y":
		argv.append("-y")
		ans = None
	asks = c["there"] in ("other", "same")
	r = srs(argv, ans if asks else None)
	allowed = c["there"] == "none" or (asks and ans != "n")
	may = [b.sample]
	dirs = [os.path.relpath(w.out, w.d), "deep"]
	if c["keep"] and r == 5 and c["main"] in ("data", "flipall"):
		got = read(w.target) if os.path.isfile(w.target) else b""
		if len(got) == len(b.sample) and (c["main"] == "flipall" or sum(x != y for x, y in zip(got, b.sample)) == 1):
			may = [got]
	settle(res, w, r, may, allowed, "rebuild", made_dirs=dirs)
	want = c["main"] == "exact" and allowed and c["there"] != "folder"
	if want and (r != 0 or read(w.target) != b.sample):
		res.bad("refused", "the exact main file and a free target gave %r" % (r,))
	if r == 0 and not want:
		res.bad("wrong success", "success reported with main=%s there=%s answer=%s" % (c["main"], c["there"], c["answer"]))
	res.outcome = "%s opt %s %s %s %r" % (c["kind"], c["main"], c["there"], c["answer"], r)


def op_other(res, c):
	b, s = made(c["kind"])
	o = c["other"]
	data = b.main
	if o in KINDS:
		if o == c["kind"]:
			data = base(o, seed="different").main
		else:
			data = made(o)[0].main
	else:
		data = {"empty": b"", "missing": None, "folder": None, "text": b"nothing like a movie\r\n" * 50, "tiny": b"\x1aE\xdf\xa3", "rar": b"Rar!\x1a\x07\0" + payload("r", 90), "itself": s, "sample": b.sample}[o]
	w = World(c["kind"], main=data)
	if o == "folder":
		os.mkdir(w.main)
		w.before = w.snap()
	r = srs([w.srs, w.main, "-o", w.out, "-y"] + (["-m"] if c["m"] else []) + (["-k"] if c["keep"] else []))
	if o == "sample" and r == 0:
		settle(res, w, r, [b.sample], True, "sample as main", made_dirs=["out"])
	else:
		if r == 0 and not (c["kind"] == "vob" or o in KINDS):
			res.bad("wrong success", "success with %s for a main file" % o)
		if r != 0 and c["keep"]:
			may = read(w.target) if os.path.isfile(w.target) else "absent"
			settle(res, w, r, [may], True, "other main", made_dirs=["out"])
		else:
			verdict(res, w, r, "other main")
	if o == "sample" and c["m"] and r != 0:
		# the sample is a main file that starts at the sample
		if c["kind"] in ("flac", "mp3", "vob"):
			res.bad("refused", "the sample itself as the main file gave %r" % (r,))
	res.outcome = "%s other %s %r" % (c["kind"], o, r)


def crafted(kind, **kw):
	"""an SRS of which the file record says something else"""
	key = (kind, tuple(sorted(kw.items())))
	b, _ = made(kind)
	root = os.path.join(core.scratch(), "craft")
	p = write(os.path.join(root, "sample" + b.ext), b.sample)
	o = os.path.join(root, "y.srs")
	old = rmain.FileData.serialize
	oldname = rmain.basename

	def serialize(self, *a):
		if "name" in kw:
			rmain.basename = lambda _p: kw["name"]
		if "crc" in kw:
			self.crc32 = kw["crc"](self.crc32)
		if "size" in kw:
			self.size = kw["size"](self.size)
		return old(self, *a)
	rmain.FileData.serialize = serialize
	try:
		r = srs([p, "-o", o, "-y"])
	finally:
		rmain.FileData.serialize = old
		rmain.basename = oldname
	if r != 0:
		raise AssertionError("crafting failed: %r" % (r,))
	return read(o)


def op_name(res, c):
	n = c["name"]
	b, _ = made(c["kind"])
	w0 = os.path.join(core.scratch(), "world")
	if n.startswith("/"):
		n = w0 + "/in" + n
	s = crafted(c["kind"], name=n.encode() if False else n)
	m = b.main
	if not c["good"]:
		at = m.find(b.streams[0][-60:-20]) if c["kind"] != "vob" else m.find(b.sample[-60:-20])
		if at < 0:
			at = m.find(b.streams[0][-30:-20])
		m = m[:at] + bytes([m[at] ^ 1]) + m[at + 1:]
	w = World(c["kind"], main=m, srs_bytes=s, out="deep/out")
	os.makedirs(w.out)
	write(os.path.join(w.d, "deep", "up.bin"), OLD)
	w.before = w.snap()
	r = srs([w.srs, w.main, "-o", w.out, "-y"] + (["-k"] if c["keep"] else []))
	verdict(res, w, r, "name %r" % c["name"], keep=c["keep"])
	res.outcome = "%s name %s %r" % (c["kind"], c["name"][:3], r)


def op_field(res, c):
	f = {"crc": ("crc", lambda x: x ^ 1), "crczero": ("crc", lambda x: 0), "size": ("size", lambda x: x - 1), "sizeup": ("size", lambda x: x + 1)}[c["field"]]
	s = crafted(c["kind"], **{f[0]: f[1]})
	b, _ = made(c["kind"])
	w = World(c["kind"], c["there"], b.main, s)
	r = srs([w.srs, w.main, "-o", w.out, "-y"] + (["-k"] if c["keep"] else []))
	if r == 0:
		res.bad("wrong success", "success although the recorded %s differs" % c["field"])
	got = read(w.target) if os.path.isfile(w.target) else "absent"
	settle(res, w, r, [b.sample, got] if c["keep"] else [], True, "field", made_dirs=["out"])
	res.outcome = "%s field %s %r" % (c["kind"], c["field"], r)


def op_make(res, c):
	b, good = made(c["kind"])
	i = c["input"]
	w = World(c["kind"])
	os.unlink(w.srs)
	d = os.path.join(w.d, "rel", "Sample")
	os.makedirs(d)
	os.makedirs(os.path.join(w.d, "cwd"))
	src = os.path.join(d, "sample" + b.ext)
	data = {"exact": b.sample, "cut": b.sample[:len(b.sample) // 2], "cutcheck": b.sample[:-len(b.sample) // 5], "none": None, "empty": b"", "folder": None, "text": b"some text\r\n" * 30, "wrongext": b.sample}[i]
	if i == "wrongext":
		src = os.path.join(d, "sample" + (".avi" if c["kind"] != "avi" else ".mkv"))
	if i == "folder":
		os.mkdir(src)
	elif data is not None:
		write(src, data)
	ck = c["check"]
	if ck != "no":
		m = {"main": b.main, "wrong": base(c["kind"], seed="different").main, "cutmain": b.main[:b.main.find(b.streams[0][:20])], "otherkind": made("mkv" if c["kind"] != "mkv" else "avi")[0].main, "none": None}[ck]
		if m is not None:
			write(w.main, m)
	os.chdir(os.path.join(w.d, "cwd"))
	argv = [src]
	to = c["to"]
	odir = os.path.join(w.d, "srs")
	w.target = {"file": os.path.join(odir, "y.srs"), "folder": os.path.join(odir, "sample.srs"), "d": os.path.join(odir, "Sample.srs"), "dd": os.path.join(odir, "rel.srs"), "ddd": os.path.join(w.d, "rel", "sample.srs"),
		"nofolder": os.path.join(w.d, "no", "sample.srs"), "nosub": os.path.join(odir, "no", "y.srs"), "cwd": os.path.join(w.d, "cwd", "sample.srs")}[to]
	argv += {"file": ["-o", w.target], "folder": ["-o", odir], "d": ["-o", odir, "--d"], "dd": ["-o", odir, "--dd"], "ddd": ["--ddd"], "nofolder": ["-o", os.path.join(w.d, "no")], "nosub": ["-o", w.target], "cwd": []}[to]
	there = c["there"]
	if to in ("nofolder", "nosub"):
		there = "none"
	if there == "other":
		write(w.target, OLD)
	elif there == "same":
		write(w.target, good)
	elif there == "folder":
		os.makedirs(w.target)
	w.before = w.snap()
	if ck != "no":
		argv += ["-c", w.main]
	if c["info"]:
		argv += ["-i"]
	ans = c["answer"]
	if ans == "-y":
		argv.append("-y")
		ans = None
	asks = there in ("other", "same")
	r = srs(argv, ans if asks else None)
	allowed = not c["info"] and (there == "none" or (asks and ans != "n"))
	got = read(w.target) if os.path.isfile(w.target) else None
	ok = r == 0 and got is not None and to not in ("nofolder", "nosub")
	settle(res, w, r, [got] if ok else [], allowed and r == 0, "create")
	if r == 0 and allowed:
		if i in ("none", "empty", "folder") or (i == "text" and c["kind"] != "vob"):
			res.bad("wrong success", "success with %s for a sample" % i)
		elif got is None:
			res.bad("wrong success", "success without an SRS")
		elif i in ("exact",) and ck == "no":
			n = b"" if i == "exact" else None
			if got != good:
				res.bad("srs", "the SRS depends on how it was asked for")
		if ck in ("wrong", "cutmain", "none"):
			res.bad("wrong success", "an SRS for a sample that is not in the %s main file" % ck)
		if ck == "otherkind" and c["kind"] != "vob":
			res.bad("wrong success", "an SRS for a sample checked against another kind of file")
	if r != 0 and i == "exact" and ck in ("no", "main") and to not in ("nofolder", "nosub") and there != "folder":
		res.bad("refused", "creating from a good sample gave %r" % (r,))
	# what is made can be used
	if ok and allowed and data is not None and i != "wrongext":
		name = os.path.join(w.d, "back")
		mainf = write(os.path.join(w.d, "in", "m2" + b.ext), b.main)
		r2 = srs([w.target, mainf, "-o", name, "-y"])
		p = os.path.join(name, os.path.basename(src))
		if r2 == 0 and read(p) != data:
			res.bad("wrong success", "success for another file than the sample")
		elif r2 != 0 and i == "exact" and ck in ("no", "main"):
			res.bad("unusable", "the new SRS does not rebuild: %r" % (r2,))
		elif r2 != 0 and i in ("cut", "cutcheck") and c["kind"] not in ("flac", "mp3"):
			res.outcome = "cut"
	res.outcome = "%s make %s %s %s %r" % (c["kind"], i, ck, there, r)


def op_retag(res, c):
	"""the music file lies where the result goes"""
	b, _ = made(c["kind"])
	w = World(c["kind"])
	os.makedirs(w.out)
	m = b.main
	if c["damage"] != "none":
		p = c["damage"]
		m = m[:p] + bytes([m[p] ^ 0xff]) + m[p + 1:]
	if c["same"] == "same":
		write(w.target, m)
		w.main = w.target
	else:
		w.main = write(os.path.join(w.d, "in", "main" + b.ext), m)
		(os.symlink if c["same"] == "link" else os.link)(w.main, w.target)
	w.before = w.snap()
	r = srs([w.srs, w.main, "-o", w.out, "-y"] + (["-k"] if c["keep"] else []))
	now = read(w.target) if os.path.isfile(w.target) else "absent"
	kept = c["keep"] and c["same"] == "hard" and r != 0  # another file than the source: the failure may be kept
	settle(res, w, r, [b.sample] if r == 0 else [now] if kept and now != "absent" else [], r == 0 or kept, "retag", tmp_ok=c["keep"] and r != 0)
	if r == 0 and read(w.target) != b.sample:
		res.bad("wrong success", "success without the sample")
	if r != 0 and c["damage"] == "none":
		res.bad("refused", "renewing the tags gave %r" % (r,))
	res.outcome = "%s retag %s %r" % (c["kind"], c["same"], r)


def op_fault(res, c):
	mode, err = MODES[c["mode"]]
	b, good = made(c["kind"])
	step = c["step"]

	def world():
		for n in os.listdir(core.scratch()):
			p = os.path.join(core.scratch(), n)
			os.chdir(core.scratch())
			core._rmtree(p) if os.path.isdir(p) else os.unlink(p)
		w = World(c["kind"], main=b.main)
		os.makedirs(w.out)
		if step == "create":
			os.unlink(w.srs)
			src = write(os.path.join(w.d, "in", "sample" + b.ext), b.sample)
			w.target = os.path.join(w.d, "srs", "x.srs")
			w.want = good
			argv = [src, "-o", w.target, "-y"]
			if c["there"] == "other":
				write(w.target, OLD)
		else:
			if step == "retag":
				write(w.target, b.main)
				argv = [w.srs, w.target, "-o", w.out, "-y"]
			else:
				if c["there"] == "other":
					write(w.target, OLD)
				argv = [w.srs, w.main, "-o", w.out, "-y"]
			w.want = b.sample
			if c["keep"]:
				argv.append("-k")
		w.before = w.snap()
		return w, lambda: srs(argv)
	w, go = world()
	r = F.run(go, w.d)
	if r["ret"] != 0 or r["etype"]:
		res.bad("refused", "%s without a fault gave %r %r" % (step, r["ret"], r["error"]))
		return
	n = r["count"]
	seen = set()
	for k in range(n):
		w, go = world()
		r = F.run(go, w.d, mode, k, err)
		label = "%s, %s at operation %d of %d" % (step, c["mode"], k, n)
		dead = r["died"]
		ret = None if dead else (r["etype"] or r["ret"])
		old = w.before.get(os.path.relpath(w.target, w.d), "absent")
		now = read(w.target) if os.path.isfile(w.target) else "absent"
		if ret == "timeout":
			res.bad("timeout", "%s did not end" % label)
		if now == w.want:
			pass
		elif now == old:
			if ret == 0:
				res.bad("wrong success", "%s: success without the file" % label)
		elif not (c["keep"] and step == "rebuild" and now != "absent"):
			res.bad("target", "%s (%r): the file is %s" % (label, ret, "gone" if now == "absent" else "%d bytes of another kind" % len(now)))
		elif ret == 0:
			res.bad("wrong success", "%s: success for another file" % label)
		for p, (a, z) in w.changes().items():
			if p == os.path.relpath(w.target, w.d):
				continue
			if p.endswith(".tmp") or p.startswith("tmp/"):
				# the clean-up itself may be what fails
				if not dead and not (c["keep"] and step == "retag") and c["mode"] not in ("eio", "eacces", "enospc", "int", "intb"):
					res.bad("temp", "%s (%r): a temporary file was left" % (label, ret))
				continue
			res.bad("touched", "%s (%r): %s was touched" % (label, ret, p))
		seen.add("dead" if dead else "ok" if ret == 0 else "refused")
	res.steps = n
	res.outcome = "%s fault %s %s %s" % (c["kind"], step, c["mode"], "/".join(sorted(seen)))
