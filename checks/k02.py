"""K02: one complete SRR for a release folder."""
import builtins
import itertools
import os
import struct
import sys
import tempfile
import time
import zlib

from mc import core, rarsyn, relsyn
from mc.deviate import deviations, full
from mc.rescenelib import write, read, tree
from mc.resamplelib import srs as srstool

core.setup_repo_path()
import pyrescene  # noqa: E402
from rescene import main as rmain  # noqa: E402

PROPERTY = "K02"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of release folders composed from a component alphabet, of directory listing orders, options and reruns, against an independent model of the SRR"
LEVEL_NOTE = ("Release folders from 30 main contents x 13 info file sets x 19 samples x 17 proofs x 21 subtitle sets with options, places, reruns, batches and three listing orders: every combination of at most 2 (thorough 3) departures from the default; "
	"17 folders under every order of each of their directories of up to 4 (thorough 6) entries, larger ones under every exchange and rotation; 6 folders with the run stopped, or an I/O error, at every file that is opened. "
	"The SRR must be complete, name every file once, hold the right bytes, and nothing else may change. Guesses the tool documents as guesses (main volumes named like subtitles) are left out; unrar and fpcalc are stand-ins.")
RULE = "one evaluation = one run of the release tool over a release folder; outcomes are (components that depart from the default, exit code)"

DIMS = {
	"main": ["set", "new", "num", "cds", "twosfv", "twins", "upper", "compressed", "subsname", "single", "mp3", "flac", "badmp3", "listcaps", "discs", "mixed", "mv", "mvs", "nfoonly", "fixrar", "fixset", "fixtwo", "subpack", "missing", "garbage", "cut", "CAPS", "CAPSNEW", "MP3", "FLAC"],
	"texts": ["nfo", "none", "upper", "more", "sites", "nonfo", "onfo", "tiny", "twins", "lists", "odd", "empty", "CAPS"],
	"sample": ["avi", "none", "root", "two", "same", "between", "three", "upper", "vob", "rarvob", "RARVOB", "broken", "unknown", "brokentwo", "empty", "emptyvob", "badvob", "cds", "CAPS"],
	"proof": ["none", "jpg", "many", "root", "grab", "folder", "numbered", "big", "bigother", "poster", "rar", "rarsfv", "rarmissing", "jpgsfv", "CAPS", "RARSFV", "RARs"],
	"subs": ["none", "subs", "volumes", "nested", "upper", "srt", "rootname", "cdsubs", "subscd", "SUBSCD", "samename", "samenames", "badlist", "badlist1", "badlist01", "badlist001", "twosets", "codec", "dirfix", "CAPS", "NESTED"],
	"srs": ["none", "alone", "with"],
	"loose": ["none", "movie"],
	"skip": ["none", "name", "regex", "both", "list", "listname"],
	"opts": ["plain", "c", "s", "i", "nosrs", "v", "best", "bestno", "d", "noisdb", "report"],
	"rerun": ["fresh", "no", "yes", "askno", "askyes"],
	"place": ["plain", "proofs", "sample", "cover", "slash", "dot"],
	"more": ["one", "two", "twofail", "pack", "prefix", "discpack", "deep", "packnfo", "cousin", "single"],
	"order": ["asc", "desc", "odd"],
}


def cases(ctx):
	out = []
	for d in deviations(DIMS, ctx.pick(2, 3), sensible):
		out.append(full(DIMS, d))
	for d in orders(ctx):
		out.append(d)
	for what in ("abort", "eio"):
		for d in STOPPED:
			for rerun in ("fresh", "yes"):
				for k in range(16):
					out.append(dict(full(DIMS, d), rerun=rerun, stop=[what, k, 16]))
	return out


def sensible(d):
	"""not: where only a guess can tell the main volumes from the others"""
	if d.get("main") in ("subsname", "nfoonly", "fixrar", "fixset", "fixtwo", "subpack"):
		return d.get("subs", "none") in ("none", "subs", "srt", "nested")
	return True


ORDERED = [
	{"sample": "between"}, {"sample": "three"}, {"main": "mixed"}, {"main": "mvs"}, {"main": "cds", "sample": "cds"}, {"texts": "lists"}, {"proof": "many"},
	{"texts": "twins"}, {"main": "twosfv"}, {"main": "discs"}, {"subs": "twosets", "opts": "v"}, {"subs": "cdsubs", "opts": "v"}, {"sample": "brokentwo"}, {"srs": "with"}, {"texts": "more"},
	{"proof": "rarsfv", "texts": "lists"}, {"texts": "sites", "sample": "same"},
]


STOPPED = [{"texts": "lists", "proof": "jpg"}, {"main": "cds", "sample": "rarvob"}, {"main": "mp3"}, {"subs": "nested", "opts": "best"}, {"sample": "broken", "proof": "rarsfv"}, {"main": "fixrar", "sample": "same"}]


class Stop(object):
	"""ends the run (abort) or fails (eio) at the n-th file that is opened"""
	def __init__(self, root):
		self.root, self.n, self.error, self.on, self.hit = root, 0, None, False, False
		self.where = None

	def __call__(self, event, args):
		if not self.on or event != "open" or not isinstance(args[0], str) or not isinstance(args[1], str):
			return
		if not os.path.abspath(args[0]).startswith(self.root):
			return
		self.n -= 1
		if self.n == 0:
			self.on = False
			self.hit = True
			self.where = (args[0], args[1])
			raise KeyboardInterrupt if self.error == "abort" else OSError(5, "Input/output error", args[0])


_stop = []


def stopped(c):
	"""every n-th point where the run of this release can be stopped"""
	what, k, of = c["stop"]
	root = os.path.join(core.scratch(), "k")
	if not _stop:
		_stop.append(Stop(root))
		sys.addaudithook(_stop[0])
	st = _stop[0]
	st.root = root
	res = core.Result()
	n = k + 1
	codes = set()
	while True:
		where = os.path.join(root, "in")
		if os.path.isdir(root):
			core._rmtree(root)
		out, tmp = os.path.join(root, "out"), os.path.join(root, "tmp")
		t = build(c)
		rel = os.path.join(where, t.name)
		for d in (rel, out, tmp):
			os.makedirs(d)
		for name, d in t.files.items():
			write(os.path.join(rel, name), d)
		srr = os.path.join(out, t.name + ".srr")
		old = None
		if c["rerun"] == "yes":
			old = b"the SRR of before"
			write(srr, old)
		before = tree(where)
		os.chdir(tmp)
		st.n, st.error, st.hit = n, what, False
		st.on = True
		err, sout = sys.stderr, sys.stdout
		try:
			code, _asked = tool(["-t", tmp, "-o", out, "-y"] + OPTS[c["opts"]] + [rel], None, True)
		except KeyboardInterrupt:
			code = "interrupt"
		finally:
			st.on = False
			sys.stderr, sys.stdout = err, sout
			os.chdir(core.scratch())
		res.steps += 1
		if not st.hit:
			break
		codes.add(str(code)[:20])
		at = "%s %s" % (os.path.relpath(st.where[0], root).replace(os.path.basename(tmp) + "/", "", 0), st.where[1])
		key = "%s at %s %s" % (what, st.where[1], os.path.splitext(st.where[0])[1][:4])
		if tree(where) != before:
			res.bad(key, "the release folder was changed, %s" % at)
		now = tree(out)
		made = now.pop(t.name + ".srr", None)
		if now:
			res.bad(key, "left in the output folder: %r, %s" % (sorted(now), at))
		if made != old:
			if made is None:
				res.bad(key, "the SRR of before is gone, %s" % at)
			else:
				r = core.Result()
				judge(r, key, t, made, set(), c)
				bad = [m for _k, m in r.problems if what == "abort" or not m.startswith("stored files") and "not the SRS checked" not in m]
				if code not in (0, 1):
					pass
				for m in bad:
					res.bad(key, "%s, %s" % (m, at))
		elif code == 0:
			res.bad(key, "success without an SRR, %s" % at)
		if what == "abort":
			if code not in (0, 1):
				res.bad(key, "%r, %s" % (code, at))
			if os.listdir(tmp):
				res.bad(key, "left in the temporary folder, %s" % at)
		n += of
	res.outcome = "%s:%s:%s" % (what, c["main"], ",".join(sorted(codes)))
	return res


def orders(ctx):
	"""every permutation of one directory of the release, the others sorted"""
	for d in ORDERED:
		c = full(DIMS, d)
		t = build(c)
		dirs = {}
		for p in t.files:
			parts = p.split("/")
			for i in range(len(parts)):
				dirs.setdefault("/".join(parts[:i]), set()).add(parts[i])
		for dn in sorted(dirs):
			n = len(dirs[dn])
			if n <= ctx.pick(4, 6):
				perms = list(itertools.permutations(range(n)))
			else:  # every pair of positions exchanged, every rotation
				perms = []
				for i, j in itertools.combinations(range(n), 2):
					p = list(range(n))
					p[i], p[j] = p[j], p[i]
					perms.append(p)
				for r in range(1, n):
					perms.append(list(range(r, n)) + list(range(r)))
			for p in perms:
				yield dict(c, order=[dn, list(p)])


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def build(c, name="Some.Movie.2010.DVDRip.XviD-GRP"):
	t = relsyn.Tree(name)
	o = c["opts"]
	vob = o in ("v", "best")
	relsyn.main_part(t, c["main"])
	relsyn.texts_part(t, c["texts"])
	m = c["main"]
	# the sample is part of the movie in these
	verify = o in ("s", "best", "bestno") and m in ("set", "new", "num", "cds", "twosfv", "twins", "upper", "subsname", "single", "missing", "garbage", "cut", "CAPS", "CAPSNEW")
	relsyn.sample_part(t, c["sample"], verify)
	relsyn.proof_part(t, c["proof"], o == "i")
	relsyn.subs_part(t, c["subs"], vob)
	if c["loose"] == "movie":
		t.add("movie.mkv", b"not a sample")
	if c["srs"] == "alone":
		t.add("Sample/old-sample.srs", existing("old-sample.avi"), True)
	elif c["srs"] == "with":
		t.add("Sample/grp-sample.srs", existing("grp-sample.avi"))
		if "Sample/grp-sample.srs" not in t.stored or o == "nosrs":
			t.stored["Sample/grp-sample.srs"] = ("bytes", t.files["Sample/grp-sample.srs"])
	if o == "nosrs":
		for n in [n for n, w in t.stored.items() if w[0] in ("srs", "txt", "srr")]:
			del t.stored[n]
	if m == "compressed" and o not in ("c", "best", "bestno"):
		t.fails = True
	for n in [n for n in t.stored if n.startswith("?v ")]:
		w = t.stored.pop(n)
		if vob:
			t.stored[n[3:]] = w
	return t


def existing(name):
	data = relsyn.movie().sample
	return reference(name, data, None)


_ref = {}


def reference(name, data, volumes):
	"""the SRS the sample tool makes; volumes: {name: bytes} of the main movie"""
	key = (name, zlib.crc32(data), volumes is not None and tuple(sorted((n, zlib.crc32(b)) for n, b in volumes.items())))
	if key not in _ref:
		with core.Quiet(), tempfile.TemporaryDirectory(dir=core.scratch()) as root:
			s = write(os.path.join(root, "in", name), data)
			argv = [s, "-y", "-o", os.path.join(root, "x.srs")]
			if volumes:
				for n in volumes:
					write(os.path.join(root, "in", n), volumes[n])
				argv += ["-c", os.path.join(root, "in", sorted(volumes, key=lambda n: (not n.lower().endswith((".rar", ".001")), n))[0])]
			r = srstool(argv)
			if r != 0:
				raise core.HarnessError("no reference SRS for %s: %r" % (name, r))
			_ref[key] = read(os.path.join(root, "x.srs"))
	return _ref[key]


class Listing(object):
	"""os.scandir and os.listdir give their entries in the order of the case"""
	def __init__(self, order, root):
		self.order, self.root = order, root

	def sort(self, path, names, key):
		names = sorted(names, key=key)
		o = self.order
		if o == "desc":
			names.reverse()
		elif o == "odd":
			names = names[1::2] + names[::2]
		elif isinstance(o, list):
			if isinstance(path, str) and os.path.relpath(os.path.abspath(path), self.root) == (o[0] or "."):
				if len(names) == len(o[1]):
					names = [names[i] for i in o[1]]
		return names

	def __enter__(self):
		self.scandir, self.listdir = os.scandir, os.listdir
		me = self

		class It(object):
			def __init__(self, path):
				with me.scandir(path) as it:
					self.it = iter(me.sort(path, it, lambda e: e.name))

			def __iter__(self):
				return self

			def __next__(self):
				return next(self.it)

			def __enter__(self):
				return self

			def __exit__(self, *a):
				pass

			def close(self):
				pass
		os.scandir = lambda path=".": It(path)
		os.listdir = lambda path=".": me.sort(path, me.listdir(path), lambda n: n)

	def __exit__(self, *a):
		os.scandir, os.listdir = self.scandir, self.listdir


def tool(argv, answer, unrar):
	asked = []

	def ask(*_a):
		asked.append(1)
		if answer is None or len(asked) > 20:
			raise RuntimeError("unexpected question")
		return answer
	shim = os.path.join(core.VERIF, "mc", "shim", "bin")
	path = os.environ["PATH"]
	rest = os.pathsep.join(p for p in path.split(os.pathsep) if p != shim)
	sleep, old_in, old_over = time.sleep, builtins.input, rmain.can_overwrite
	pyrescene.raw_input = ask
	builtins.input = ask
	pyrescene.unrar_executable = None
	from resample import fpcalc
	fpcalc.fpcalc_executable = os.path.join(shim, "fpcalc")
	os.environ["PATH"] = shim + os.pathsep + rest if unrar else os.path.join(shim, "none")
	time.sleep = lambda s: sleep(min(s, 0.0005))
	try:
		try:
			r = pyrescene.main(argv)
			return (0 if r is None else r), bool(asked)
		except SystemExit as e:
			return (0 if e.code is None else e.code), bool(asked)
		except Exception as e:
			return "raise:%s: %s" % (type(e).__name__, e), bool(asked)
	finally:
		time.sleep = sleep
		builtins.input = old_in
		rmain.can_overwrite = old_over
		os.environ["PATH"] = path


OPTS = {"plain": [], "c": ["-c"], "s": ["-s"], "i": ["-i"], "nosrs": ["--no-srs"], "v": ["-v"], "best": ["--best"], "bestno": ["--best"], "d": ["-d"], "noisdb": ["--no-isdb"], "report": ["-l"]}
PLACES = {"plain": "in", "proofs": "in/proofs", "sample": "in/samples/x", "cover": "in/covers", "slash": "in", "dot": "in"}


def run_case(c):
	if "stop" in c:
		return stopped(c)
	res = core.Result()
	root = os.path.join(core.scratch(), "k")
	parent = os.path.join(root, PLACES[c["place"]])
	out, tmp, cwd = (os.path.join(root, n) for n in ("out", "tmp", "cwd"))
	for d in (parent, out, tmp, cwd):
		os.makedirs(d)
	os.chdir(cwd)
	t = build(c)
	rel = [(t, os.path.join(parent, t.name))]
	if c["more"] == "cousin":
		if t.name.endswith("2010.DVDRip.XviD-GRP"):
			t.name = "Other.Movie-XY"
		rel = [(t, os.path.join(parent, t.name))]
	if c["more"] == "packnfo":
		write(os.path.join(parent, "season.nfo"), b"the nfo of a site")
	if c["more"] == "deep":
		rel = [(t, os.path.join(parent, "Movies", "XviD", t.name))]
		os.makedirs(os.path.join(parent, "empty", "er"))
	if c["more"] not in ("one", "single"):
		t2 = build(full(DIMS, {"main": "missing" if c["more"] == "twofail" else "cds" if c["more"] == "discpack" else "single", "sample": "vob", "opts": c["opts"]}), "Other.Movie-XYZ")
		folder = parent
		if c["more"] == "prefix":
			folder = os.path.join(parent, t.name + ".and.more")
		rel.append((t2, os.path.join(folder, t2.name)))
	for x, where in rel:
		os.makedirs(where)
		for n, d in x.files.items():
			write(os.path.join(where, n), d)
	before = tree(os.path.join(root, "in"))
	argv = ["-t", tmp]
	if c["opts"] != "d":
		argv += ["-o", out]
	argv += OPTS[c["opts"]]
	# what is skipped
	gone = set()
	names = sorted(n for n in t.stored if n.rsplit("/", 1)[-1].rsplit(".", 1)[-1].lower() in ("nfo", "srs", "m3u", "jpg"))
	if c["skip"] != "none" and names:
		victim = names[0]
		bn = victim.rsplit("/", 1)[-1]
		if c["skip"] in ("name", "both", "listname"):
			argv += ["-x", bn if c["skip"] != "listname" else names[-1].rsplit("/", 1)[-1]]
			gone.add(bn if c["skip"] != "listname" else names[-1].rsplit("/", 1)[-1])
		if c["skip"] in ("regex", "both"):
			import re
			argv += ["--skip-regex", "^%s$" % re.escape(victim).upper().replace("\\", "\\")]
			gone.add("/" + victim.lower())
		if c["skip"] in ("list", "listname"):
			argv += ["--skip-list", write(os.path.join(root, "skip.txt"), bn.encode("utf-8") + b"\nother.nfo\n")]
			gone.add(bn)
	if c["rerun"] in ("no", "yes"):
		argv += ["-n" if c["rerun"] == "no" else "-y"]
	answer = {"askno": "n", "askyes": "y"}.get(c["rerun"])
	if c["more"] not in ("one", "two", "twofail"):
		argv += ["-r", parent]
	else:
		for _t, where in rel:
			argv.append(where + "/" if c["place"] == "slash" else os.path.relpath(where, cwd) if c["place"] == "dot" else where)
	old = {}
	srrs = []
	for x, where in rel:
		p = os.path.join(where if c["opts"] == "d" else out, x.name + ".srr")
		srrs.append(p)
	if c["rerun"] != "fresh":
		old[srrs[0]] = write(srrs[0], b"the SRR of before") and b"the SRR of before"
	outbefore = tree(out)
	with Listing(c["order"], rel[0][1]):
		code, asked = tool(argv, answer, c["opts"] != "bestno")
	dev = "/".join("%s" % (c[k],) for k in sorted(DIMS) if c[k] != DIMS[k][0] and k != "order")
	key = dev
	keep = c["rerun"] in ("no", "askno")
	fails = any(x.fails for x, _w in rel[1:]) or (t.fails and c["rerun"] not in ("no", "askno")) or c["rerun"] == "askno"
	res.outcome = "%s:%s" % (dev, code)
	if code not in (0, 1):
		res.bad(key, "%r" % (code,))
	elif bool(code) != fails:
		res.bad(key, "exit code %r, should %s" % (code, "fail" if fails else "succeed"))
	if asked != (c["rerun"] in ("askno", "askyes")):
		res.bad(key, "the user was %sasked" % ("" if asked else "not "))
	os.chdir(core.scratch())
	if os.listdir(tmp):
		res.bad(key, "left in the temporary folder: %r" % sorted(tree(tmp))[:5])
	if os.listdir(cwd):
		res.bad(key, "left in the current folder: %r" % sorted(tree(cwd))[:5])
	after = tree(os.path.join(root, "in"))
	wanted_in = dict(before)
	wanted_out = dict(outbefore)
	for (x, where), p in zip(rel, srrs):
		made = None
		if os.path.isfile(p):
			made = read(p)
		first = x is t
		if first and (keep or (t.fails and p in old)):
			if made != old[p]:
				res.bad(key, "the SRR of before was changed (%s)" % ("gone" if made is None else "%d bytes" % len(made)))
		elif x.fails:
			if made is not None:
				res.bad(key, "an SRR was made of a release that misses volumes")
		elif made is None:
			res.bad(key, "no SRR for %s" % x.name)
		else:
			judge(res, key, x, made, gone, c)
		for d, base in ((wanted_in, os.path.join(root, "in")), (wanted_out, out)):
			if p.startswith(base + os.sep) and made is not None:
				d[os.path.relpath(p, base)] = made
	if c["opts"] == "report":
		gotout = dict((n, b) for n, b in tree(out).items() if not n.startswith("pyReScene_report"))
	else:
		gotout = tree(out)
	if after != wanted_in:
		res.bad(key, "the release folder was changed: %r" % sorted(n for n in set(after) | set(wanted_in) if after.get(n, 1) != wanted_in.get(n, 1))[:5])
	if gotout != wanted_out:
		res.bad(key, "in the output folder: %r" % sorted(n for n in set(gotout) | set(wanted_out) if gotout.get(n, 1) != wanted_out.get(n, 1))[:5])
	return res


def judge(res, key, t, made, gone, c):
	p = rarsyn.SrrParse(made)
	if p.error:
		res.bad(key, "SRR: %s" % p.error)
		return
	names = [n for n, _d in p.stored]
	want = dict((n, w) for n, w in t.stored.items() if n.rsplit("/", 1)[-1] not in gone and "/" + n.lower() not in gone)
	for n in sorted(set(names)):
		if names.count(n) > 1:
			res.bad(key, "%s is stored %d times" % (n, names.count(n)))
	if set(names) != set(want):
		res.bad(key, "stored files: not there %r, too many %r" % (sorted(set(want) - set(names)), sorted(set(names) - set(want))))
	for n, d in p.stored:
		if n in want:
			m = content(want[n], d, t, n)
			if m:
				res.bad(key, "%s: %s" % (n, m))
	rest = p.rest
	todo = list(t.sets)
	while todo:
		for s in todo:
			if rest.startswith(s.meta()):
				rest = rest[len(s.meta()):]
				todo.remove(s)
				break
		else:
			res.bad(key, "volumes: %r" % p.rars)
			return
	if rest:
		res.bad(key, "more than the volumes: %r" % p.rars)


def content(w, d, t, name):
	if w[0] == "bytes":
		return None if d == w[1] else "other bytes (%d, should be %d)" % (len(d), len(w[1]))
	if w[0] == "srs":
		fn = w[1].encode("utf-8")
		if struct.pack("<H", len(fn)) + fn + struct.pack("<QI", len(w[2]), zlib.crc32(w[2])) not in d:
			return "not the SRS of %s" % w[1]
		if w[3]:
			s = t.sets[0]
			if d != reference(w[1], w[2], dict((n, v.bytes()) for n, v in zip(s.names, s.volumes))):
				return "not the SRS checked against the main movie"
		elif d != reference(w[1], w[2], None):
			return "not the SRS the sample tool makes"
		return None
	if w[0] == "txt":
		return None
	if w[0] == "srr":
		p = rarsyn.SrrParse(d)
		if p.error or p.stored or p.rest != rarsyn.srr_rarfile(w[1]) + w[2].srr_meta():
			return "not the SRR of %s" % w[1]
		return None
	if w[0] == "subs":
		_k, vols, nested, idxs = w
		p = rarsyn.SrrParse(d)
		if p.error:
			return p.error
		if vols is None:
			return None
		if p.rest != b"".join(rarsyn.srr_rarfile(v.name) + v.srr_meta() for v in vols):
			return "volumes %r" % p.rars
		st = dict(p.stored)
		if len(st) != len(p.stored) or sorted(st) != sorted([n for n, _v in nested] + (["languages.diz"] if idxs else [])):
			return "stored in it: %r" % [n for n, _d in p.stored]
		for n, vs in nested:
			q = rarsyn.SrrParse(st[n])
			if q.error or q.rest != b"".join(rarsyn.srr_rarfile(v.name) + v.srr_meta() for v in vs):
				return "%s in it" % n
		if idxs:
			for n, b in idxs:
				text = b"# " + n.encode() + b"\n" + b"".join(l for l in b.splitlines(True) if l.startswith(b"id: "))
				if text not in st["languages.diz"]:
					return "languages"
		return None
	raise core.HarnessError(w[0])
