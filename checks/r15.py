"""R15: a new SRR holds exactly what it was asked to hold."""
import os
import struct
import zlib

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, write, read, tree, sfv_text

PROPERTY = "R15"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of creation requests (volume sets, ways of naming the inputs, folders, stored files, options, call histories) against an independent model of the SRR file"
LEVEL_NOTE = ("Requests made of 14 volume sets, 9 ways to hand over the inputs, 6 ways to write their paths, 7 base folders, paths kept or not, 21 lists of stored files, the hash option, and 7 entry points "
	"(functions, functions called twice with the same arguments, the srr command with its ways to name the result): every combination of at most 3 (thorough 4) departures from the default. Each SRR is compared byte for byte.")
RULE = "one evaluation = one creation of an SRR; outcomes are (the departures from the default, how it ended)"

DIMS = {
	"set": ["old", "new", "num", "single", "cds", "same", "samecds", "upper", "sfvupper", "mixed", "dups", "mp3", "video", "shuffled"],
	"input": ["sfv", "rar", "str", "tuple", "both", "swap", "second", "later", "twice"],
	"how": ["abs", "rel", "dot", "up", "away", "twist"],
	"base": ["rel", "slash", "none", "dot", "parent", "sub", "other"],
	"paths": [True, False],
	"store": ["none", "nfo", "two", "owt", "sub", "abs", "sfv", "again", "againabs", "missing", "between", "dir", "glob", "globsub", "globdir", "literal", "unicode", "empty", "tuple", "outside", "large"],
	"oso": [True, False],
	"entry": ["api", "tmp", "twice", "nextto", "cli", "clidir", "clid"],
}

REL = "Some.Release-GRP"
VIDEO = rs.payload("video", 70001)


class World(object):
	def __init__(self, case):
		self.files = {}
		self.sets = []          # (folder, [(name for the SRR, disk name, Volume)], sfv path or None, osos)
		getattr(self, "set_" + case["set"])()
		for n, d in (("grp.nfo", b"info"), ("GRP-B.NFO", b"INFO"), ("b.nfo", b"b"), ("[x].nfo", b"literal"), ("x.nfo", b"x"), ("Proof/p.jpg", b"jpg"), ("Proof/a.nfo", b"a"), ("Proof/q.jpg", b"qpg"),
				("Sample/s.srs", b"srs"), ("r\u00e9l \u0416.nfo", b"unicode"), ("empty.nfo", b""), ("large.jpg", rs.payload("large", 200001))):
			self.files[n] = d

	def add(self, folder, vols, sfv, sfvname=None, lower=None, extra=(), order=None):
		names = []
		lines = []
		for v in vols:
			disk, listed = v.name, v.name
			if lower == "sfv":
				listed = listed.lower()
			elif lower == "disk":
				disk = disk.lower()
			self.files[folder + disk] = v.bytes()
			lines.append((listed, zlib.crc32(v.bytes())))
			names.append((v.name, disk, v))
		lines = [lines[i] for i in (order or range(len(lines)))] + list(extra)
		if sfv:
			self.files[folder + sfv] = sfv_text(lines)
		osos = []
		seen = {}
		for v in vols:
			for b in v.blocks:
				if b.kind == "file":
					m = b.member[0]
					if m.name not in seen:
						seen[m.name] = 1
						if m.name.lower().endswith((".avi", ".mkv", ".mp4")) and len(m.data) >= 65536:
							osos.append((m.name, len(m.data), oso(m.data)))
		self.sets.append((folder, names, sfv, osos))

	def set_old(self):
		self.add("", rs.build_set([rs.Member("a.bin", 90), rs.Member("b.txt", 10)], [(0, 30), (0, 60)], "old", "grp"), "grp.sfv")

	def set_new(self):
		self.add("", rs.build_set([rs.Member("a.bin", 90)], [(0, 30), (0, 60)], "new", "grp"), "grp.sfv")

	def set_num(self):
		self.add("", rs.build_set([rs.Member("a.bin", 90)], [(0, 30)], "num", "grp"), "grp.sfv")

	def set_single(self):
		self.add("", rs.build_set([rs.Member("a.bin", 50), rs.Member("dir", is_dir=True)], [], "old", "grp", pad=b"pad", cmt="cmt"), "grp.sfv")

	def set_cds(self):
		self.add("CD1/", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "grp-cd1"), "grp-cd1.sfv")
		self.add("CD2/", rs.build_set([rs.Member("b.bin", 60)], [(0, 30)], "new", "grp-cd2"), "grp-cd2.sfv")

	def set_same(self):
		self.add("", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "zz"), "zz.sfv")
		self.add("", rs.build_set([rs.Member("b.bin", 60)], [(0, 30)], "old", "aa"), "aa.sfv")

	def set_samecds(self):
		self.add("CD1/", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "grp"), "1.sfv")
		self.add("CD2/", rs.build_set([rs.Member("a.bin", 61)], [(0, 30)], "old", "grp"), "2.sfv")

	def set_upper(self):
		self.add("", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "GRP-Rel"), "grp.sfv", lower="sfv")

	def set_sfvupper(self):
		self.add("", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "GRP-Rel"), "grp.sfv", lower="disk")

	def set_mixed(self):
		self.add("", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "grp"), "grp.sfv", extra=[("b.nfo", zlib.crc32(b"b")), ("x.nfo", 7)])

	def set_dups(self):
		self.add("", rs.build_set([rs.Member("a.bin", 60)], [(0, 30)], "old", "grp"), "grp.sfv", order=[0, 1, 0, 1])

	def set_mp3(self):
		self.add("", [], "grp.sfv", extra=[("01.mp3", 5), ("02.mp3", 6)])

	def set_video(self):
		self.add("", rs.build_set([rs.Member("m.avi", data=VIDEO), rs.Member("small.mkv", 100), rs.Member("n.MKV", data=VIDEO[::-1])], [(0, 30000), (2, 65000)], "old", "grp"), "grp.sfv")

	def set_shuffled(self):
		self.add("", rs.build_set([rs.Member("a.bin", 120)], [(0, 10 * i) for i in range(1, 12)], "new2", "grp"), "grp.sfv", order=[11, 3, 0, 7, 1, 2, 10, 9, 8, 4, 5, 6])


def oso(data):
	"""published OpenSubtitles hash, as the tool gives it from 64 KiB on"""
	h = len(data)
	for part in (data[:65536], data[-65536:]):
		for (v,) in struct.iter_unpack("<Q", part):
			h = (h + v) & 0xffffffffffffffff
	return "%016x" % h


def sensible(d):
	"""requests with a defined answer"""
	s, i, h, b, e = (d.get(k, DIMS[k][0]) for k in ("set", "input", "how", "base", "entry"))
	p, st = d.get("paths", True), d.get("store", "none")
	two = s in ("cds", "same", "samecds")
	if i in ("both", "swap") and not two:
		return False
	if i in ("rar", "second", "later") and s in ("mp3",):
		return False
	if i == "rar" and s in ("upper", "sfvupper", "shuffled"):
		return False  # another name is right then
	if i in ("second", "later") and s in ("single", "shuffled", "upper", "sfvupper", "video"):
		return False
	if s == "samecds" and (not p or b == "other"):
		return False  # two volumes with one name
	if b == "other" and st == "globdir":
		return False
	if e.startswith("cli"):
		if i in ("str", "tuple") or b in ("none",) and h == "away" or s == "num" and i in ("rar", "later", "both", "swap"):
			return False
		if st == "tuple":
			return False
	return True


def cases(ctx):
	return [full(DIMS, d) for d in deviations(DIMS, ctx.pick(3, 4), sensible)]


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def store_list(kind, rel, root, infolder, w):
	"""-> (list for the call, [path of each file, in order]); names are relative to the base folder"""
	def r(n):
		out = os.path.relpath(os.path.join(rel, n), infolder)
		return os.path.join(rel, n) if out.startswith("..") else out  # (".." is from the current folder)
	a = lambda n: os.path.join(rel, n)
	sfv = w.sets[0][0] + w.sets[0][2]
	files = {
		"none": [], "nfo": ["grp.nfo"], "two": ["grp.nfo", "b.nfo"], "owt": ["b.nfo", "grp.nfo"], "sub": ["Proof/p.jpg", "Sample/s.srs"], "between": ["grp.nfo", None, "b.nfo"],
		"sfv": [sfv, "b.nfo"], "literal": ["[x].nfo"], "unicode": ["r\u00e9l \u0416.nfo"], "empty": ["empty.nfo", "b.nfo"], "tuple": ["grp.nfo", "b.nfo"], "large": ["large.jpg"],
	}
	if kind in files:
		out = [r(n) if n else r("not there.nfo") for n in files[kind]]
		return tuple(out) if kind == "tuple" else out, [a(n) for n in files[kind] if n]
	if kind == "abs":
		return [a("Proof/p.jpg")], [a("Proof/p.jpg")]
	if kind == "again":
		return [r("b.nfo"), r("grp.nfo"), r("b.nfo")], [a("b.nfo"), a("grp.nfo")]
	if kind == "againabs":
		return [r("b.nfo"), a("b.nfo"), a("Proof/../b.nfo")], [a("b.nfo")]
	if kind == "missing":
		return [r("not there.nfo"), a("not there/either.nfo")], []
	if kind == "dir":
		return [r("Proof"), r("b.nfo")], [a("b.nfo")]
	if kind == "glob":
		return [r("?.nfo"), r("none*.nfo")], [a("b.nfo"), a("x.nfo")]
	if kind == "globsub":
		return [r("Proof/*.jpg"), r("grp.*nfo")], [a("Proof/p.jpg"), a("Proof/q.jpg"), a("grp.nfo")]
	if kind == "globdir":
		return [r("*/*.srs"), r("*/p.*")], [a("Sample/s.srs"), a("Proof/p.jpg")]
	if kind == "outside":
		return [os.path.join(root, "elsewhere", "o.nfo")], [os.path.join(root, "elsewhere", "o.nfo")]
	raise ValueError(kind)


def run_case(c):
	res = core.Result()
	root = os.path.join(core.scratch(), "k")
	rel = os.path.join(root, "in", REL)
	w = World(c)
	for n, d in w.files.items():
		write(os.path.join(rel, n), d)
	write(os.path.join(root, "elsewhere", "o.nfo"), b"outside")
	out = os.path.join(root, "out")
	os.makedirs(out)
	# how paths are written
	h = c["how"]
	cwd = {"abs": out, "rel": rel, "dot": rel, "up": os.path.join(root, "in"), "away": os.path.join(root, "elsewhere"), "twist": rel}[h]
	os.chdir(cwd)

	def p(path):
		full_ = os.path.join(rel, path)
		if h == "abs":
			return full_
		if h == "twist":
			return os.path.join(rel, "Proof", "..", path)
		return ("./" if h == "dot" else "") + os.path.relpath(full_, cwd)
	infolder = {"rel": rel, "slash": rel + "/", "none": "", "dot": os.path.relpath(rel, cwd), "parent": os.path.dirname(rel), "sub": os.path.join(rel, "Proof"), "other": os.path.join(root, "elsewhere")}[c["base"]]
	base = os.path.abspath(infolder or cwd)
	# the inputs and the volumes they stand for
	ins, volumes, osos, sfvs = [], [], [], []
	kind = c["input"]
	expect = True
	sets = list(w.sets)
	if kind == "swap":
		sets.reverse()
	for k, (folder, names, sfv, oso) in enumerate(sets):
		byrar = kind in ("rar", "second", "later") or kind in ("both", "swap") and k
		if byrar:
			at = 1 if kind == "second" and not k else len(names) - 1 if kind == "later" and not k else 0
			if at:
				expect = False
			ins.append(p(folder + names[at][1]))
		else:
			ins.append(p(folder + sfv))
			sfvs.append(os.path.join(rel, folder + sfv))
		volumes += [(folder + n, v) for n, _d, v in names]
		osos += oso
	if kind == "twice":
		ins = ins + [ins[0]]
		volumes += [(sets[0][0] + n, v) for n, _d, v in sets[0][1]]
	# a volume that is named twice can only be there once
	uniq = []
	for n, v in volumes:
		if n not in [x[0] for x in uniq]:
			uniq.append((n, v))
	volumes = uniq
	infiles = ins
	if kind == "str" and len(ins) == 1:
		infiles = ins[0]
	elif kind == "tuple":
		infiles = tuple(ins)
	store, stored = store_list(c["store"], rel, root, base, w)
	for s in sfvs:
		if s not in stored:
			stored.append(s)

	def name(path):
		if not c["paths"]:
			return os.path.basename(path)
		n = os.path.relpath(path, base)
		return os.path.basename(path) if n.startswith("..") else n
	want = rs.srr_header(rescene.APPNAME)
	for s in stored:
		want += rs.srr_stored(name(s), read(s))
	for n, v in volumes:
		want += rs.srr_rarfile(name(os.path.join(rel, n))) + v.srr_meta()
	if c["oso"]:
		for n, size, hx in osos:
			want += rs.srr_oso(n, size, hx)
	before = tree(os.path.join(root, "in")), tree(os.path.join(root, "elsewhere"))
	entry = c["entry"]
	rmain.can_overwrite = lambda _p: True
	target = os.path.join(out, "x.srr")
	copies = (list(ins), list(store))
	how = "?"
	try:
		if entry.startswith("cli"):
			from rescene import srr as cli
			cli.MessageThread.sleeptime = 0.0005
			cli.mthread = cli.MessageThread()
			argv = list(ins) + ["-y"]
			if infolder:
				argv += ["-i", infolder]
			if c["paths"]:
				argv += ["-p"]
			for s in store:
				argv += ["-s", s]
			if not c["oso"]:
				argv += ["--no-isdb"]
			if entry == "cli":
				argv += ["-o", target]
			else:
				argv += ["-o", out]
				stem = os.path.basename(ins[0])[:-4]
				if entry == "clid":
					argv += ["-d"]
					stem = os.path.basename(os.path.normpath(base))
				target = os.path.join(out, stem + ".srr")
			try:
				cli.main(argv)
				how = "no exit"
			except SystemExit as e:
				how = "exit %s" % (e.code,)
			ok = how in ("exit 0", "exit None")
		else:
			tmp = None
			if entry == "tmp":
				tmp = os.path.join(out, "work.tmp")
			if entry == "nextto":
				target = os.path.join(rel, "x.srr")
			for k in range(2 if entry == "twice" else 1):
				if k:
					os.unlink(target)
				r = rmain.create_srr(target, infiles, infolder, store, c["paths"], False, c["oso"], tmp)
			if tmp:
				os.rename(tmp, target)
			how = repr(r)
			ok = r is True
	except Exception as e:
		how = "%s: %s" % (type(e).__name__, e)
		ok = False
	os.chdir(core.scratch())
	key = "/".join("%s" % (c[k] if c[k] is not False else "no " + k,) for k in sorted(DIMS) if c[k] != DIMS[k][0]) or "default"
	made = None
	if os.path.isfile(target):
		made = read(target)
		os.unlink(target)
	if (tree(os.path.join(root, "in")), tree(os.path.join(root, "elsewhere"))) != before:
		res.bad("files " + key, "files of the user were changed or left behind")
	if tree(out):
		res.bad("left " + key, "left in the output folder: %r" % sorted(tree(out)))
	if (list(ins), list(store)) != copies:
		res.bad("args " + key, "the caller's lists were changed: %r" % (store,))
	if not expect:
		if ok or made is not None:
			res.bad("first " + key, "does not start with the first volume, but: %s" % how)
		res.outcome = key + ":refused"
		return res
	if not ok or made is None:
		res.bad("fail " + key, "creation failed: %s" % how)
	elif made != want:
		res.bad("srr " + key, "the SRR holds %s, expected %s" % (listing(made), listing(want)))
	res.outcome = key
	return res


def listing(data):
	out = []
	try:
		for k in rs.SrrParse(data).items():
			out.append(k)
	except Exception:
		pos = 0
		while pos + 7 <= len(data):
			_c, t, fl, hs = struct.unpack_from("<HBHH", data, pos)
			if t in (0x6a, 0x71, 0x6b):
				o = {0x6a: 11, 0x71: 7, 0x6b: 23}[t]
				l, = struct.unpack_from("<H", data, pos + o)
				out.append("%02x %s" % (t, data[pos + o + 2:pos + o + 2 + l].decode("utf-8", "replace")))
			pos += hs
			if t == 0x6a:
				pos += struct.unpack_from("<I", data, pos - hs + 7)[0]
			elif t in (0x7a, 0x6c):
				pos += struct.unpack_from("<I", data, pos - hs + 7)[0]
	return out
