"""B01: the batch tools act on every file they are pointed at, and on nothing else."""
import contextlib
import importlib
import io
import itertools
import optparse
import os
import re
import runpy
import sys

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, write, read, tree, allow_overwrite
from mc.resamplelib import srs
from mc.samples import KINDS, base

PROPERTY = "B01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of folder trees, of SRR contents and of option combinations, each run through the real batch tool and compared with a model of what it must list, make, move or extract"
LEVEL_NOTE = ("Every tree of up to 4 files (thorough 6) from 10 kinds of samples, files and earlier results for srs_batch; every list of up to 2 stored files from 14 names (3 from 9; thorough 3 from all) times 9 kinds of volume sets times every option of srr_sort, "
	"moving to every kind of target; every list of up to 3 stored files for the extractor; merging and the two sample listers over deviation-bounded inputs.")
UNPRIVILEGED = True
RULE = "one evaluation = one run of a tool on one folder tree; outcomes are (tool, options, what happened) classes"

# srs_batch: what can lie in the input folder
ITEMS = ["good", "UP", "sub", "deep", "broken", "empty", "text", "made", "madesub", "rarred"]
STORED = ["a.nfo", "B.NFO", "a.sfv", "C.SFV", "x.txt", "Y.TXT", "Proof/p.jpg", "p.JPG", "q.jpeg", "q.png", "sub/my-proof.gif", "Sample/s.srs", "S.SRS", "nfo"]
SETS = ["none", "old", "new", "compressed", "two", "twomembers", "repack", "upper", "numbered"]
OPTS = ["-c", "-e", "-v", "-t", "-u", "-p", "-i", "-f", "-m", "-s", "-n", "--txt", "-r", "-2"]


def cases(ctx):
	out = []
	for k in range(ctx.pick(5, 7)):
		for items in itertools.combinations(ITEMS, k):
			for keep in (False, True):
				for form in ("abs", "rel", "slash"):
					if form == "abs" or k < 3:
						out.append({"tool": "batch", "items": list(items), "keep": keep, "form": form})
	for kind in KINDS[:4] + ["vob"]:
		for keep in (False, True):
			for item in ITEMS:
				out.append({"tool": "batch", "items": [item], "keep": keep, "form": "abs", "kind": kind})
	for k in range(ctx.pick(3, 4)):
		for stored in itertools.product(range(len(STORED)), repeat=k):
			for s in SETS if k < 2 else ("old", "none"):
				out.append({"tool": "sort", "stored": list(stored), "set": s})
	for stored in itertools.product((0, 1, 2, 5, 6, 7, 8, 10, 12), repeat=3) if not ctx.thorough else ():
		out.append({"tool": "sort", "stored": list(stored), "set": "none" if stored[0] % 2 else "old"})
	for s in SETS:
		for opt in OPTS:
			for arg in ("file", "folder", "two", "UP", "brackets", "garbage", "emptyfirst"):
				for to in ("none", "there", "new", "same", "taken"):
					out.append({"tool": "sortmove", "set": s, "opt": opt, "arg": arg, "to": to})
	for k in range(ctx.pick(3, 4)):
		for stored in itertools.permutations(range(len(STORED)), k):
			out.append({"tool": "extract", "stored": list(stored), "name": "r.srr"})
	for name in ("r.srr", "R.SRR", "x y.srr", "\u00fc.srr"):
		out.append({"tool": "extract", "stored": [11, 12, 0], "name": name})
	for n in (2, 3):
		for ins in itertools.product(("plain", "music", "rars"), repeat=n):
			for o in ("none", "o", "osub"):
				out.append({"tool": "merge", "ins": list(ins), "o": o})
	for kind in KINDS:
		for at in (-1, 0, 1, 10 ** 9):
			for name in ("s.srs", "S.SRS", "sub/s.srs"):
				out.append({"tool": "size", "kind": kind, "at": at, "name": name})
	for kinds in itertools.chain(itertools.product(KINDS, repeat=1), itertools.product(("avi", "mp3", "vob"), repeat=2)):
		for checked in (False, True):
			for opt in ([], ["-l"], ["-p"]):
				for which in (["-s"], ["-t"], ["-s", "-t"]):
					for txt in ("", "s.avi.txt", "sub/t.mp3.txt", "readme.txt", "S.AVI.txt", "SUB/T.MP3.TXT"):
						out.append({"tool": "bad", "kinds": list(kinds), "checked": checked, "opt": opt, "which": which, "txt": txt})
	# some checked, in one folder or with one name in two
	for kinds in (["avi", "avi"], ["avi", "mp4"], ["mkv", "avi", "avi"]):
		for checked in itertools.product((False, True), repeat=len(kinds)):
			for names in ("folder", "same", "UP", "CAPS"):
				for opt in ([], ["-l"], ["-p"]):
					out.append({"tool": "bad", "kinds": kinds, "checked": list(checked), "opt": opt, "which": ["-s"], "txt": "", "names": names})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes))


def run(tool, argv, cwd):
	"""runs bin/<tool>.py as the command does -> (exit code, output)"""
	old = os.getcwd()
	os.chdir(cwd)
	out = io.StringIO()
	argv0 = sys.argv
	err0 = sys.stderr
	sys.argv = [tool] + argv
	allow_overwrite(False)
	try:
		with contextlib.redirect_stdout(out):
			try:
				runpy.run_path(os.path.join(core.REPO, "bin", tool + ".py"), run_name="__main__")
				r = 0
			except SystemExit as e:
				r = 0 if e.code is None else e.code
			except Exception as e:
				r = "raise:%s: %s" % (type(e).__name__, e)
	finally:
		sys.argv = argv0
		os.chdir(old)
	redirected = sys.stderr is not err0
	sys.stderr = err0
	return r, out.getvalue(), redirected


def diff(before, after):
	return sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))


def run_case(c):
	return {"batch": batch, "sort": sort, "sortmove": sortmove, "extract": extract, "merge": merge, "size": size, "bad": bad}[c["tool"]](c)


_srs = {}


def srs_of(kind, name, checked=False):
	key = (kind, name, checked)
	if key not in _srs:
		b = base(kind)
		with core.scratch_dir() as d:
			s = write(os.path.join(d, name), b.sample)
			m = write(os.path.join(d, "in", "main." + kind), b.main)
			if srs([s, "-y", "-o", os.path.join(d, "r.srs")] + (["-c", m] if checked else [])) != 0:
				raise core.HarnessError("no reference SRS")
			_srs[key] = read(os.path.join(d, "r.srs"))
	return _srs[key]


def batch(c):
	res = core.Result()
	root = core.scratch()
	ind, outd = os.path.join(root, "in"), os.path.join(root, "out")
	os.makedirs(ind)
	os.makedirs(outd)
	kind = c.get("kind", "avi")
	b = base(kind)
	good, bad_, old = {}, {}, {}
	for item in c["items"]:
		if item in ("good", "UP", "sub", "deep"):
			p = {"good": "r/a.b.%s", "UP": "r/UP.%s", "sub": "r/Sample/s s.%s", "deep": "x/y/z/\u00fc.%s"}[item] % (kind.upper() if item == "UP" else kind)
			write(os.path.join(ind, p), b.sample)
			good[p] = p[:-4] + ".srs"
		elif item in ("made", "madesub"):
			p = {"made": "o.%s", "madesub": "x/y/o2.%s"}[item] % kind
			write(os.path.join(ind, p), b.sample)
			good[p] = p[:-4] + ".srs"
			old[good[p]] = b"made earlier"
			write(os.path.join(outd, good[p]), b"made earlier")
		elif item in ("broken", "empty"):
			p = {"broken": "r/cut.%s", "empty": "x/e.%s"}[item] % kind
			write(os.path.join(ind, p), b"" if item == "empty" else b"this is not what the name says" * 30)
			if item == "empty" or kind != "vob":
				bad_[p] = p + ".txt"
			else:
				good[p] = p[:-4] + ".srs"
		elif item == "text":
			write(os.path.join(ind, "r", "r.nfo"), b"nfo")
			write(os.path.join(ind, "r", "s.srs"), b"an SRS")
		elif item == "rarred":
			write(os.path.join(ind, "r", "r.rar"), rs.build_set([rs.Member("s.avi", 900)], [], "old", "r")[0].bytes())
	before = tree(root)
	f = {"abs": (ind, outd), "rel": ("in", "out"), "slash": (ind + "/", "./out/")}[c["form"]]
	argv = ["-i", f[0], "-o", f[1]] + (["-n"] if c["keep"] else [])
	r, text, redirected = run("srs_batch", argv, root)
	after = tree(root)
	res.outcome = "batch %s %s: %s" % (",".join(c["items"]), c["keep"], r)
	if r != 0:
		res.bad("batch", "%r: ended with %r" % (c["items"], r))
	if redirected:
		res.bad("stderr", "%r: error output stays redirected" % (c["items"],))
	changed = diff(before, after)
	for k in changed:
		if not k.startswith("out/"):
			res.bad("input", "%r: the input folder was changed: %s" % (c["items"], k))
	made = {}
	for p, s in good.items():
		got = after.get("out/" + s)
		made["out/" + s] = 1
		if c["keep"] and s in old:
			if got != old[s]:
				res.bad("kept", "%s was to be kept" % s)
		elif got is None or got == b"made earlier":
			res.bad("missing", "%r: no SRS was made for %s" % (c["items"], p))
		elif got != srs_of(kind, os.path.basename(p)) and "cut" not in p:
			res.bad("content", "%r: other SRS than the sample tool makes for %s" % (c["items"], p))
	for p, t in bad_.items():
		made["out/" + t] = 1
		if after.get("out/" + t) is None:
			res.bad("txt", "%r: nothing tells that %s failed" % (c["items"], p))
	for k in changed:
		if k.startswith("out/") and k not in made and not k.endswith("/"):
			res.bad("extra", "%r: not asked for: %s" % (c["items"], k))
	return res


def rar_sets(kind):
	"""-> (volumes, facts)"""
	m = [rs.Member("v.bin", 500)]
	facts = {"rars": True, "compressed": False, "several": False, "repack": False, "upper": False}
	if kind == "none":
		return [], dict(facts, rars=False)
	if kind == "old":
		return rs.build_set(m, [(0, 200)], "old", "grp-x"), facts
	if kind == "new":
		return rs.build_set(m, [(0, 200)], "new", "grp-x"), facts
	if kind == "compressed":
		return rs.build_set([rs.Member("v.bin", 500, method=0x33)], [(0, 200)], "old", "grp-x"), dict(facts, compressed=True)
	if kind == "two":
		return rs.build_set(m, [(0, 200)], "old", "grp-x") + rs.build_set([rs.Member("w.bin", 400)], [(0, 200)], "new", "grp-y"), facts
	if kind == "twomembers":
		return rs.build_set(m + [rs.Member("w.bin", 100)], [(0, 200)], "old", "grp-x"), dict(facts, several=True)
	if kind == "repack":
		return rs.build_set(m, [(0, 200)], "old", "grp-x-rpk"), dict(facts, repack=True)
	if kind == "numbered":
		return rs.build_set(m, [(0, 200)], "num", "grp-x"), facts
	return rs.build_set(m, [(0, 200)], "old", "GRP-x"), dict(facts, upper=True)


def verdict(opt, stored, facts):
	low = [n.lower() for n in stored]
	images = [n for n in low if os.path.splitext(n)[1] in (".jpg", ".png", ".bmp", ".gif", ".jpeg")]
	return {
		"-c": facts["compressed"], "-e": not facts["rars"], "-v": False,
		"-t": sum(n.endswith(".nfo") for n in low) > 1, "-u": len(set(stored)) < len(stored),
		"-p": any("proof" not in n for n in images), "-i": bool(images), "-f": not stored, "-m": facts["several"],
		"-s": not any(n.endswith(".sfv") for n in low), "-n": not any(n.endswith(".nfo") for n in low),
		"--txt": any(n.endswith(".txt") for n in low), "-r": facts["repack"], "-2": facts["upper"],
	}[opt]


def make_srr(path, stored, kind):
	vols, facts = rar_sets(kind)
	write(path, rs.build_srr("pyReScene 0.7", [(n, b"data of " + n.encode()) for n in stored], vols))
	return facts, vols


def sort(c):
	"""every question about one SRR"""
	res = core.Result()
	root = core.scratch()
	stored = [STORED[i] for i in c["stored"]]
	facts, vols = make_srr(os.path.join(root, "d", "r-GRP.srr"), stored, c["set"])
	total = sum(len(v.bytes()) for v in vols)
	before = tree(root)
	got = ""
	for opt in OPTS:
		if opt == "-u" and len(set(stored)) == len(stored) and len(stored) > 1:
			continue
		want = verdict(opt, stored, facts)
		r, text, _ = run("srr_sort", [opt, "d/r-GRP.srr"], root)
		lines = text.splitlines()
		listed = "r-GRP.srr" in lines
		got += "%d" % listed
		if r != 0:
			res.bad("sort", "%s on %r, %s: ended with %r" % (opt, stored, c["set"], r))
		elif listed != want:
			res.bad("sort " + opt, "%s on %r, %s: %slisted: %r" % (opt, stored, c["set"], "" if listed else "not ", text[:200]))
		if opt == "-v" and total and "%d bytes" % total not in lines:
			res.bad("sizes", "%s: the sizes are %r instead of %d" % (c["set"], lines[:1], total))
	if tree(root) != before:
		res.bad("changed", "listing changed files")
	res.outcome = "sort %s %s" % (c["set"], got)
	return res


def sortmove(c):
	res = core.Result()
	root = core.scratch()
	folder = {"brackets": "d[1]", "UP": "d"}.get(c["arg"], "d")
	names = ["r-GRP.srr"] if c["arg"] != "two" else ["r-GRP.srr", "s-GRP.srr"]
	if c["arg"] == "UP":
		names = ["R-GRP.SRR"]
	want = {}
	for n in names:
		stored = ["a.nfo", "q.jpg", "x.txt"] if n[0] in "rR" else ["a.sfv"]
		facts, _v = make_srr(os.path.join(root, folder, n), stored, c["set"] if n[0] in "rR" else "none")
		want[n] = verdict(c["opt"], stored, facts)
	write(os.path.join(root, folder, "keep.me"), b"other")
	if c["arg"] == "garbage":
		write(os.path.join(root, folder, "a-bad.srr"), b"this is no SRR file at all" * 9)
	if c["arg"] == "emptyfirst":
		write(os.path.join(root, folder, "a-bad.srr"), b"")
	to = {"none": None, "there": "to", "new": "new/er", "same": folder, "taken": "to"}[c["to"]]
	if c["to"] in ("there", "taken"):
		write(os.path.join(root, "to", "keep.me"), b"other")
	if c["to"] == "taken":
		write(os.path.join(root, "to", names[0]), b"another SRR of that name")
	before = tree(root)
	args = [folder] if c["arg"] in ("folder", "two", "brackets", "garbage", "emptyfirst") else [os.path.join(folder, n) for n in names]
	r, text, _ = run("srr_sort", [c["opt"]] + (["-o", to] if to else []) + args, root)
	after = tree(root)
	res.outcome = "sortmove %s %s %s: %s" % (c["opt"], c["to"], c["arg"], r)
	what = "%s -o %s %s (%s)" % (c["opt"], to, args, c["set"])
	if r != 0:
		res.bad("move", "%s: ended with %r" % (what, r))
	for n in names:
		src, dst = folder + "/" + n, (to or folder) + "/" + n
		if not want[n] or not to or to == folder:
			if after.get(src) != before[src]:
				res.bad("moved", "%s: %s is gone" % (what, n))
		elif c["to"] == "taken" and n == names[0]:
			if after.get(dst) != before[dst] or after.get(src) != before[src]:
				res.bad("lost", "%s: an SRR of the same name was overwritten" % what)
		elif after.get(dst) != before[src] or src in after:
			res.bad("not moved", "%s: %s wasn't moved" % (what, n))
	known = set(folder + "/" + n for n in names) | set((to or folder) + "/" + n for n in names)
	other = [k for k in diff(before, after) if k not in known and not k.endswith("/")]
	if other:
		res.bad("other", "%s: changed %r" % (what, other))
	if not to:
		for n in names:
			if (n in text.splitlines()) != want[n]:
				res.bad("listed", "%s: %s %slisted" % (what, n, "not " if want[n] else ""))
	return res


def extract(c):
	res = core.Result()
	root = core.scratch()
	stored = [STORED[i] for i in c["stored"]]
	make_srr(os.path.join(root, c["name"]), stored, "old")
	write(os.path.join(root, "out", "keep.me"), b"other")
	want = tree(root)
	for n in stored:
		if n.lower().endswith(".srs"):
			want["out/" + n] = b"data of " + n.encode()
			if "/" in n:
				want["out/" + n.split("/")[0] + "/"] = None
	r, text, _ = run("srr_extract_srs", [c["name"], "out"], root)
	got = tree(root)
	res.outcome = "extract %d: %s" % (sum(n.lower().endswith(".srs") for n in stored), r)
	if r != 0:
		res.bad("extract", "%r: ended with %r" % (stored, r))
	if got != want:
		res.bad("tree", "%r: wrong %r" % (stored, diff(want, got)))
	return res


def merge(c):
	res = core.Result()
	root = core.scratch()
	names = []
	stored, rars = [], []
	for k, kind in enumerate(c["ins"]):
		n = "in%d.srr" % k
		st = ["f%d.nfo" % k] + (["g%d.srs" % k] if kind == "music" else [])
		vols = [] if kind == "music" else rs.build_set([rs.Member("v%d.bin" % k, 300)], [(0, 100)] if kind == "rars" else [], "old", "r%d" % k)
		write(os.path.join(root, n), rs.build_srr("app", [(x, b"data of " + x.encode()) for x in st], vols))
		names.append(n)
		stored += [(x, b"data of " + x.encode()) for x in st]
		rars += [v.name for v in vols]
	os.mkdir(os.path.join(root, "sub"))
	argv, dest = {"none": ([], "in0_joined.srr"), "o": (["-o", "new.srr"], "new.srr"), "osub": (["-o", "sub/new.srr"], "sub/new.srr")}[c["o"]]
	before = tree(root)
	r, text, _ = run("srr_merge", names + argv, root)
	after = tree(root)
	res.outcome = "merge %d %s: %s" % (len(names), c["o"], r)
	if r != 0:
		res.bad("merge", "%r: ended with %r" % (c["ins"], r))
	if diff(before, after) != [dest]:
		res.bad("place", "%r: changed %r instead of %r" % (argv, diff(before, after), dest))
		return res
	p = rs.SrrParse(after[dest])
	if p.error or sorted(p.stored) != sorted(stored) or p.rars != rars:
		res.bad("content", "%r: %s %r %r" % (c["ins"], p.error, [n for n, _d in p.stored], p.rars))
	return res


def size(c):
	res = core.Result()
	root = core.scratch()
	n = "s." + c["kind"]
	write(os.path.join(root, "d", c["name"]), srs_of(c["kind"], n))
	write(os.path.join(root, "d", "other.nfo"), b"x")
	have = len(base(c["kind"]).sample)
	before = tree(root)
	limit = have + c["at"] if c["at"] < 10 else c["at"]
	r, text, _ = run("srs_size", ["d", "-s", str(limit)], root)
	listed = os.path.join("d", c["name"]) in text.splitlines()
	res.outcome = "size %s %s" % (c["at"], listed)
	if r != 0 or listed != (have > limit):
		res.bad("size", "%s of %d bytes, limit %d: %slisted, ended with %r" % (c["name"], have, limit, "" if listed else "not ", r))
	if tree(root) != before:
		res.bad("changed", "listing changed files")
	return res


def bad(c):
	res = core.Result()
	root = core.scratch()
	import tempfile
	stored = [("r.nfo", b"nfo")]
	want = []
	for k, kind in enumerate(c["kinds"]):
		n = "s%d.%s" % (k, kind)
		checked = c["checked"][k] if isinstance(c["checked"], list) else c["checked"]
		name = {"folder": "Sample/s%d.srs" % k, "same": "CD%d/Sample/s.srs" % k, "UP": "CD%d/S.srs" % k if k else "s.srs", "CAPS": "SAMPLE/S%d.SRS" % k}[c.get("names", "folder")]
		stored.append((name, srs_of(kind, n, checked)))
		if "-s" in c["which"] and kind not in ("mp3", "flac") and not checked:
			if os.path.basename(name) not in want:
				want.append(os.path.basename(name))
	if c["txt"]:
		stored.append((c["txt"], b"failed"))
		if "-t" in c["which"] and c["txt"] != "readme.txt":
			want.append(c["txt"])
	write(os.path.join(root, "d", "sub", "r-GRP.srr"), rs.build_srr("app", stored, []))
	tmp = os.path.join(root, "tmp")
	os.mkdir(tmp)
	before = tree(root)
	old = tempfile.tempdir
	tempfile.tempdir = tmp
	try:
		r, text, _ = run("srs_bad", ["d"] + c["which"] + c["opt"], root)
	finally:
		tempfile.tempdir = old
	lines = text.splitlines()
	res.outcome = "bad %s %s: %s" % (c["which"], c["opt"], r)
	expect = []
	if want:
		expect = {"": ["d/sub/r-GRP.srr"] + sorted("-> " + w for w in want), "-l": ["r-GRP"], "-p": ["d/sub"]}[c["opt"][0] if c["opt"] else ""]
	if r != 0 or lines != expect:
		res.bad("bad", "%r %r: ended with %r, %r instead of %r" % (c["which"], stored and [n for n, _d in stored], r, lines, expect))
	if tree(root) != before:
		res.bad("changed", "changed or left behind: %r" % diff(before, tree(root)))
	return res
