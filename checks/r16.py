"""R16: the srr tool's command line works on the files and folders it was given, and on nothing else."""
import builtins
import contextlib
import io
import os
import re

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, write, read, tree, sfv_text
from mc.resamplelib import Asked

PROPERTY = "R16"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of deviation-bounded combinations of commands, options, path forms, working folders, answers and existing files of the srr tool, each run through the command line and compared with a model of the folder tree it must leave"
LEVEL_NOTE = ("Every combination of at most 3 (thorough 4) departures from a plain creation over 9 dimensions, extraction over 9, rebuilding over 8 and adding over 6, and every listing and refusal. "
	"The whole folder tree is compared before and after. Exit codes after a declined overwrite are left open, as is what a regular expression matches that fits only further on in a name.")
RULE = "one evaluation = one run of the command on one folder tree; outcomes are (command, options, exit kind) classes"

CREATE = {
	"ins": ["sfv", "rar", "sfv2", "UP"],
	"cwd": ["rel", "top", "cd", "other"],
	"path": ["rel", "abs", "dots"],
	"o": ["none", "abs", "rel", "slash", "missing", "bare", "file", "absfile", "UPPER", "upfile", "missingfile", "dotted"],
	"d": [False, True],
	"i": ["none", "rel", "abs", "slash", "dot"],
	"p": [False, True],
	"s": ["none", "glob", "abs", "two"],
	"exists": ["no", "y", "n", "yflag", "nflag", "decoy", "decoyn"],
}
EXTRACT = {
	"what": ["all", ".*\\.nfo$", ".*(nfo|sfv)$", "^sample/.*", "SAMPLE/.*", "zzz", "^.*$", "a.*"],
	"srr": ["v.srr", "V.SRR", "a.b.srr", "\u00fc x.srr"],
	"cwd": ["top", "other", "to"],
	"path": ["rel", "abs", "dots"],
	"o": ["none", "abs", "rel", "slash", "dot", "missing", "nested"],
	"d": [False, True],
	"p": [True, False],
	"i": ["none", "other"],
	"exists": ["no", "y", "n", "yflag", "nflag", "decoy", "decoyn"],
}
REBUILD = {
	"srr": ["v.srr", "V.SRR", "\u00fc x.srr"],
	"cwd": ["top", "other", "to"],
	"path": ["rel", "abs"],
	"o": ["none", "abs", "rel", "slash", "missing"],
	"i": ["abs", "rel", "cwd"],
	"p": [True, False],
	"u": [False, True],
	"exists": ["no", "y", "n", "yflag", "nflag", "decoy", "decoyn"],
}
ADD = {
	"srr": ["v.srr", "V.SRR"],
	"cwd": ["top", "other"],
	"s": ["one", "glob", "two", "abs", "sub", "none"],
	"i": ["none", "abs", "rel"],
	"p": [False, True],
	"more": ["", "o", "d", "y"],
}
FREE = ("no", "decoy", "decoyn")  # nothing in the way
BAD = ["noinput", "missing", "ext", "both", "regex", "tempdir", "garbage", "emptysrr", "garbagesfv", "second", "folder"]


def cases(ctx):
	n = ctx.pick(3, 4)
	out = [dict(full(CREATE, d), do="create") for d in deviations(CREATE, n)]
	out += [dict(full(EXTRACT, d), do="extract") for d in deviations(EXTRACT, n)]
	out += [dict(full(REBUILD, d), do="rebuild") for d in deviations(REBUILD, n)]
	out += [dict(full(ADD, d), do="add") for d in deviations(ADD, n)]
	for srr in EXTRACT["srr"]:
		for opt in ("-l", "-e", "-q"):
			for o in ("none", "abs"):
				for cwd in EXTRACT["cwd"]:
					out.append({"do": "show", "srr": srr, "opt": opt, "o": o, "cwd": cwd})
	for bad in BAD:
		for o in ("none", "abs", "file"):
			for d in (False, True):
				out.append({"do": "bad", "bad": bad, "o": o, "d": d})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def run(argv, cwd, answer):
	"""-> (exit code, what was printed)"""
	from rescene import srr as tool

	def ask(*_a):
		if answer is None:
			raise Asked("unexpected question")
		return answer
	tool.raw_input = ask
	old_in = builtins.input
	builtins.input = ask
	tool.MessageThread.sleeptime = 0.001
	tool.mthread = tool.MessageThread()
	del tool.o.events[:]
	old = os.getcwd()
	os.chdir(cwd)
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out):
			try:
				r = tool.main(argv)
				r = 0 if r is None else r
			except SystemExit as e:
				r = 0 if e.code is None else e.code
			except Exception as e:
				r = "raise:%s: %s" % (type(e).__name__, e)
	finally:
		os.chdir(old)
		builtins.input = old_in
	return r, out.getvalue()


def diff(before, after):
	return sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))


def form(path, how, cwd):
	if how == "abs":
		return path
	if how == "dots":
		d = os.path.dirname(path)
		return os.path.join(os.path.relpath(d, cwd), "..", os.path.basename(d), ".", os.path.basename(path))
	return os.path.relpath(path, cwd)


def places(*names):
	root = os.path.join(core.scratch(), "t", "w\u00f6rk")
	for n in ("other", os.path.join("to", "here.d")) + names:
		os.makedirs(os.path.join(root, n))
	for dp, _dn, _fn in list(os.walk(root)):
		write(os.path.join(dp, "keep.me"), b"stays " + dp.encode("utf-8"))
	return root


def at_top(path):
	return os.path.relpath(os.path.realpath(path), os.path.realpath(core.scratch()))


def volumes(base):
	return rs.build_set([rs.Member("%s.bin" % base, 900)], [(0, 400)], "old", base)


def dest(o, root, cwd):
	"""-> (argument, folder, file name or None)"""
	to = os.path.join(root, "to", "here.d")
	return {
		"none": (None, cwd, None), "abs": (to, to, None), "rel": (os.path.relpath(to, cwd), to, None), "slash": (to + "/", to, None), "dot": (".", cwd, None),
		"missing": (os.path.join(root, "to", "nowhere"), os.path.join(root, "to", "nowhere"), None),
		"nested": ("new/er", os.path.join(cwd, "new", "er"), None),
		"bare": ("My.Name.srr", cwd, "My.Name.srr"), "file": (os.path.join(os.path.relpath(to, cwd), "my.srr"), to, "my.srr"),
		"absfile": (os.path.join(to, "my.srr"), to, "my.srr"), "UPPER": ("MY.SRR", cwd, "MY.SRR"), "upfile": ("../my.srr", os.path.dirname(cwd), "my.srr"),
		"missingfile": (os.path.join(root, "to", "nowhere", "my.srr"), os.path.join(root, "to", "nowhere"), "my.srr"), "dotted": ("./my.srr", cwd, "my.srr"),
	}[o]


def decoys(exists, targets, root):
	"""files with the names of the results in every place where no result goes"""
	if not exists.startswith("decoy"):
		return
	for d in (root, os.path.join(root, "other"), os.path.join(root, "to"), os.path.join(root, "to", "here.d")):
		for t in targets:
			p = os.path.join(d, os.path.basename(t))
			if not os.path.exists(p) and p not in targets:
				write(p, b"not in the way")


def answers(exists, argv):
	if exists == "decoyn":
		argv.append("-n")
	if exists == "yflag":
		argv.append("-y")
	if exists == "nflag":
		argv.append("-n")
	return exists if exists in ("y", "n") else None


def run_case(c):
	return {"create": create, "extract": extract, "rebuild": rebuild, "add": add, "show": show, "bad": refused}[c["do"]](c)


def create(c):
	res = core.Result()
	root = places("Some.Rel-GRP/CD1", "Some.Rel-GRP/CD2")
	rel = os.path.join(root, "Some.Rel-GRP")
	write(os.path.join(rel, "rel.nfo"), b"the nfo")
	write(os.path.join(rel, "b.nfo"), b"other nfo")
	ins = []
	for n in ("1", "2"):
		vols = volumes("cd%s.x" % n)
		d = os.path.join(rel, "CD" + n)
		for v in vols:
			write(os.path.join(d, v.name), v.bytes())
		ins.append(write(os.path.join(d, "CD%s.Y.SFV" % n if c["ins"] == "UP" else "cd%s.y.sfv" % n), sfv_text([(v.name, rs.crc32(v.bytes())) for v in vols])))
	if c["ins"] == "rar":
		ins = [os.path.join(rel, "CD1", "cd1.x.rar")]
	elif c["ins"] != "sfv2":
		ins = ins[:1]
	cwd = {"rel": rel, "top": root, "cd": os.path.join(rel, "CD1"), "other": os.path.join(root, "other")}[c["cwd"]]
	argv = [form(p, c["path"], cwd) for p in ins]
	o, folder, name = dest(c["o"], root, cwd)
	if o:
		argv += ["-o", o]
	if c["d"]:
		argv.append("-d")
	base = cwd
	if c["i"] != "none":
		base = cwd if c["i"] == "dot" else rel
		argv += ["-i", {"rel": os.path.relpath(rel, cwd), "abs": rel, "slash": rel + "/", "dot": "."}[c["i"]]]
	if c["p"]:
		argv.append("-p")
	if c["s"] == "glob":
		argv += ["-s", "*.nfo"]
	elif c["s"] == "abs":
		argv += ["-s", os.path.join(rel, "rel.nfo")]
	elif c["s"] == "two":
		argv += ["-s", "b.nfo", "-s", os.path.join(rel, "rel.nfo")]
	if name is None:
		stem = os.path.basename(base) if c["d"] else os.path.basename(ins[0])[:-4]
		name = stem + ".srr"
	target = os.path.join(folder, name)
	refuse = c["o"].startswith("missing")
	if not refuse:
		decoys(c["exists"], [target], root)
	if c["exists"] not in FREE and not refuse:
		write(target, b"an older file")
	answer = answers(c["exists"], argv)
	before = tree(core.scratch())
	r, text = run(argv, cwd, answer)
	after = tree(core.scratch())
	changed = diff(before, after)
	what = "srr " + " ".join(argv)
	res.outcome = "create -o %s %s %s: %s" % (c["o"], c["exists"], c["s"], r)
	if refuse:
		if r == 0 or not isinstance(r, int):
			res.bad("not refused", "%s: exit %r" % (what, r))
		if changed:
			res.bad("refused but wrote", "%s: %r" % (what, changed))
		return res
	if c["exists"] in ("n", "nflag"):
		if changed:
			res.bad("overwrote", "%s: changed although the answer was no: %r" % (what, changed))
		return res
	if r != 0:
		res.bad("failed", "%s: exit %r" % (what, r))
	t = at_top(target)
	if changed != [t]:
		res.bad("place", "%s: changed %r; the SRR belongs at %r" % (what, changed, t))
		return res
	p = rs.SrrParse(after[t])
	vols = [v.name for n in ("1", "2")[:len(ins)] for v in volumes("cd%s.x" % n)]
	if p.error or [os.path.basename(n) for n in volume_names_of(p)] != vols:
		res.bad("content", "%s: holds the volumes %r: %s" % (what, volume_names_of(p), p.error))
	return res


def volume_names_of(p):
	return [v[0] if isinstance(v, (tuple, list)) else v for v in p.rars]


STORED = [("rel.nfo", b"top nfo"), ("sample/s.nfo", b"sample nfo"), ("sample/s.srs", b"srs"), ("v.sfv", b""), ("Proof/a b/p\u00fc.jpg", rs.payload("jpg", 400)), ("UP.NFO", b"upper")]


def srr_file(path):
	vols = volumes("v")
	stored = [(n, sfv_text([(v.name, rs.crc32(v.bytes())) for v in vols]) if n == "v.sfv" else d) for n, d in STORED]
	return write(path, rs.build_srr("app", stored, vols)), stored, vols


def extract(c):
	res = core.Result()
	root = places()
	srr, stored, _vols = srr_file(os.path.join(root, c["srr"]))
	cwd = {"top": root, "other": os.path.join(root, "other"), "to": os.path.join(root, "to")}[c["cwd"]]
	argv = [form(srr, c["path"], cwd)]
	argv += ["-x"] if c["what"] == "all" else ["--extract-regex", c["what"]]
	o, folder, _n = dest(c["o"], root, cwd)
	if o:
		argv += ["-o", o]
	if c["d"]:
		argv.append("-d")
		folder = os.path.join(folder, c["srr"][:-4])
	if c["p"]:
		argv.append("-p")
	if c["i"] != "none":
		argv += ["-i", os.path.join(root, "other")]
	todo = []
	for n, data in stored:
		if c["what"] == "all" or re.match(c["what"], n, re.I):
			todo.append((n if c["p"] else os.path.basename(n), data))
	target = None
	decoys(c["exists"], [os.path.normpath(os.path.join(folder, n)) for n, _d in todo], root)
	if c["exists"] not in FREE and todo:
		target = os.path.join(folder, todo[0][0])
		write(target, b"an older file")
	answer = answers(c["exists"], argv)
	want = tree(core.scratch())
	keep = set(want)
	for n, data in todo:
		p = os.path.join(folder, n)
		if p == target and c["exists"] in ("n", "nflag"):
			continue
		rel = at_top(p)
		want[rel] = data
		d = os.path.dirname(rel)
		while d:
			want.setdefault(d + "/", None)
			d = os.path.dirname(d)
	r, text = run(argv, cwd, answer)
	got = tree(core.scratch())
	what = "srr " + " ".join(argv)
	res.outcome = "extract %s -o %s %s %s: %s" % (c["what"], c["o"], c["d"], c["exists"], r)
	if got != want:
		k = diff(want, got)
		res.bad("tree", "%s: missing %r, not asked for %r, other contents %r" % (what, [x for x in k if x not in got], [x for x in k if x not in want and x not in keep], [x for x in k if x in got and x in want]))
	declined = target and c["exists"] in ("n", "nflag")
	if not declined and r != 0:
		res.bad("exit", "%s: exit %r" % (what, r))
	if declined and r == 0:
		res.bad("exit", "%s: not everything was extracted, exit %r" % (what, r))
	return res


def rebuild(c):
	res = core.Result()
	root = places("src")
	srr, stored, vols = srr_file(os.path.join(root, c["srr"]))
	cwd = {"top": root, "other": os.path.join(root, "other"), "to": os.path.join(root, "to")}[c["cwd"]]
	src = cwd if c["i"] == "cwd" else os.path.join(root, "src")
	write(os.path.join(src, "v.bin"), rs.payload("v.bin", 900))
	argv = [form(srr, c["path"], cwd)]
	if c["i"] != "cwd":
		argv += ["-i", src if c["i"] == "abs" else os.path.relpath(src, cwd)]
	o, folder, _n = dest(c["o"], root, cwd)
	if o:
		argv += ["-o", o]
	if c["p"]:
		argv.append("-p")
	if c["u"]:
		argv.append("-u")
	decoys(c["exists"], [os.path.normpath(os.path.join(folder, v.name)) for v in vols], root)
	if c["exists"] not in FREE:
		write(os.path.join(folder, vols[0].name), b"an older file")
	answer = answers(c["exists"], argv)
	before = tree(core.scratch())
	r, text = run(argv, cwd, answer)
	after = tree(core.scratch())
	what = "srr " + " ".join(argv)
	res.outcome = "rebuild -o %s -i %s %s: %s" % (c["o"], c["i"], c["exists"], r)
	ok = dict((at_top(os.path.join(folder, v.name)), v.bytes()) for v in vols)
	# the stored files are put back too
	for n, d in stored:
		ok[at_top(os.path.join(folder, n if c["p"] else os.path.basename(n)))] = d
	dirs = set()
	for d in list(ok):
		while os.path.dirname(d):
			d = os.path.dirname(d)
			dirs.add(d + "/")
	bad = [k for k in diff(before, after) if k not in dirs and after.get(k, 0) != ok.get(k, 1)]
	if bad:
		res.bad("tree", "%s: changed %r" % (what, bad))
	first = at_top(os.path.join(folder, vols[0].name))
	if c["exists"] in ("n", "nflag"):
		if after.get(first) != b"an older file":
			res.bad("overwrote", "%s: replaced a volume although the answer was no" % what)
		return res
	if r != 0:
		res.bad("exit", "%s: exit %r" % (what, r))
	if any(after.get(k) != v for k, v in ok.items()):
		res.bad("place", "%s: not every volume and stored file is in the output folder: %r" % (what, diff(before, after)))
	return res


def add(c):
	res = core.Result()
	root = places("in/Proof")
	srr, stored, vols = srr_file(os.path.join(root, c["srr"]))
	cwd = {"top": root, "other": os.path.join(root, "other")}[c["cwd"]]
	base = cwd if c["i"] == "none" else os.path.join(root, "in")
	for n in ("one.txt", "two.txt", "Proof/three.txt"):
		write(os.path.join(base, n), b"data of " + n.encode())
	argv = [os.path.relpath(srr, cwd)]
	args, names = {
		"one": (["one.txt"], ["one.txt"]), "glob": (["*.txt"], ["one.txt", "two.txt"]), "two": (["two.txt", "one.txt"], ["two.txt", "one.txt"]),
		"abs": ([os.path.join(base, "two.txt")], ["two.txt"]), "sub": (["Proof/three.txt"], ["Proof/three.txt"]), "none": (["nothing*.txt"], []),
	}[c["s"]]
	for a in args:
		argv += ["-s", a]
	if c["i"] != "none":
		argv += ["-i", base if c["i"] == "abs" else os.path.relpath(base, cwd)]
	if c["p"]:
		argv.append("-p")
	argv += {"": [], "o": ["-o", os.path.join(root, "to")], "d": ["-d"], "y": ["-y"]}[c["more"]]
	before = tree(core.scratch())
	r, text = run(argv, cwd, None)
	after = tree(core.scratch())
	what = "srr " + " ".join(argv)
	t = at_top(srr)
	changed = diff(before, after)
	res.outcome = "add %s %s: %s" % (c["s"], c["i"], r)
	if [k for k in changed if k != t]:
		res.bad("tree", "%s: changed %r" % (what, changed))
	if c["s"] != "none" and r != 0:
		res.bad("exit", "%s: exit %r" % (what, r))
	p = rs.SrrParse(after.get(t) or b"")
	want = stored + [(n if c["p"] else os.path.basename(n), b"data of " + n.encode()) for n in names]
	if p.error or sorted(p.stored) != sorted(want) or p.stored[:len(stored)] != stored:
		res.bad("content", "%s: stored files are %r" % (what, [n for n, _d in p.stored]))
	elif c["s"] != "glob" and p.stored != want:
		res.bad("order", "%s: stored files are %r" % (what, [n for n, _d in p.stored]))
	return res


def show(c):
	res = core.Result()
	root = places()
	srr, stored, vols = srr_file(os.path.join(root, c["srr"]))
	cwd = {"top": root, "other": os.path.join(root, "other"), "to": os.path.join(root, "to")}[c["cwd"]]
	write(os.path.join(cwd, "v.bin"), rs.payload("v.bin", 900))
	argv = [os.path.relpath(srr, cwd), c["opt"]]
	if c["o"] == "abs":
		argv += ["-o", os.path.join(root, "to")]
	before = tree(core.scratch())
	r, text = run(argv, cwd, None)
	what = "srr " + " ".join(argv)
	res.outcome = "show %s: %s" % (c["opt"], r)
	if r != 0:
		res.bad("exit", "%s: exit %r" % (what, r))
	if tree(core.scratch()) != before:
		res.bad("tree", "%s: changed %r" % (what, diff(before, tree(core.scratch()))))
	if c["opt"] == "-l":
		for n, d in stored:
			if not re.search(r"(?m)^\s+%s\s\s%s$" % (re.escape("{0:,}".format(len(d))), re.escape(n)), text) and n not in text:
				res.bad("list", "%s: %r isn't listed" % (what, n))
	return res


def refused(c):
	res = core.Result()
	root = places("rel")
	srr, stored, vols = srr_file(os.path.join(root, "v.srr"))
	rel = os.path.join(root, "rel")
	for v in vols:
		write(os.path.join(rel, v.name), v.bytes())
	sfv = write(os.path.join(rel, "v.sfv"), dict(stored)["v.sfv"])
	bad = c["bad"]
	argv = {
		"noinput": ["-y"],
		"missing": [os.path.join(rel, "not.sfv")],
		"ext": [write(os.path.join(root, "v.txt"), b"x")],
		"both": [srr, "-x", "--extract-regex", ".*"],
		"regex": [srr, "--extract-regex", "["],
		"tempdir": [srr, "-t", os.path.join(root, "nowhere")],
		"garbage": [write(os.path.join(rel, "bad.rar"), b"this is not a RAR archive at all" * 5)],
		"emptysrr": [write(os.path.join(root, "empty.srr"), b""), "-x"],
		"garbagesfv": [write(os.path.join(rel, "bad.sfv"), b"; nothing here\r\n")],
		"second": [sfv, os.path.join(rel, "not.sfv")],
		"folder": [rel],
	}[bad]
	if c["o"] == "abs":
		argv = argv + ["-o", os.path.join(root, "to", "here.d")]
	elif c["o"] == "file":
		if bad in ("both", "regex", "emptysrr"):
			return res
		argv = argv + ["-o", os.path.join(root, "to", "here.d", "n.srr")]
	if c["d"]:
		argv = argv + ["-d"]
	before = tree(core.scratch())
	r, text = run(argv, root, None)
	changed = diff(before, tree(core.scratch()))
	what = "srr " + " ".join(argv)
	res.outcome = "bad %s: %s" % (bad, r)
	if r == 0 or not isinstance(r, int):
		res.bad("not refused", "%s: exit %r" % (what, r))
	if changed:
		res.bad("refused but wrote", "%s: %r" % (what, changed))
	return res
