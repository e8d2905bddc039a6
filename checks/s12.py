"""S12: the sample tool's command line puts its results where it was asked to, and nowhere else."""
import contextlib
import io
import os
import re
import zlib

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import write, read, tree
from mc.resamplelib import srs
from mc.samples import KINDS, base
from mc.deviate import deviations, full

PROPERTY = "S12"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of deviation-bounded combinations of options, path forms, working folders, names and existing files of the sample tool, each run through the command line and compared with a model of where the result belongs"
LEVEL_NOTE = ("Every combination of at most 3 (thorough 4) departures from a plain creation over 9 dimensions, of at most 3 (thorough 5) from a plain rebuild over 9, and every listing and refusal for each kind of sample. "
	"The whole folder tree is compared before and after. Which name --ddd gives the SRS isn't specified by the help text and left open, as is --ddd together with -o DIRECTORY.")
RULE = "one evaluation = one run of the command on one folder tree; outcomes are (command, options, exit kind) classes"

NAMES = ["sample", "a.b.c", "x.srs", "\u00fc\u4e2d", "UP", " sp ace", "-dash", "x-o.srs"]
CREATE = {
	"kind": KINDS,
	"name": NAMES,
	"dir": ["Sample", "Sam.ple-X", "s\u00e4mple", "x.srs"],
	"cwd": ["top", "rel", "sampledir", "other"],
	"path": ["rel", "abs", "dots", "link"],
	"o": ["none", "abs", "rel", "dot", "slash", "missing", "bare", "file", "absfile", "UPPER", "upfile", "missingfile", "dotted"],
	"d": ["", "d", "dd", "ddd", "d,dd", "d,ddd", "dd,ddd"],
	"exists": ["no", "y", "n", "flag", "dir", "decoy"],
	"more": ["", "i", "c", "b", "i,c"],
}
REBUILD = {
	"kind": KINDS,
	"name": ["sample", "a.b.c", "x.srs", "\u00fc\u4e2d", "UP", " sp ace"],
	"srsname": ["same", "renamed", "UPPER", "other.dir"],
	"cwd": ["top", "rel", "sampledir", "other"],
	"path": ["rel", "abs", "dots"],
	"o": ["none", "abs", "rel", "dot", "slash", "missing", "nested", "absmissing"],
	"exists": ["no", "y", "n", "flag", "dir", "decoy"],
	"main": ["file", "rar", "split"],
	"m": [False, True],
}
BAD = ["nofile", "noargs", "garbage", "empty", "folder", "three", "notsrs", "srsonly", "infosrs", "secondmissing", "missingsrs", "baddir", "garbagesrs", "emptysrs", "otherkind", "nocheck", "checkbad"]


def cases(ctx):
	out = [dict(full(CREATE, d), do="create") for d in deviations(CREATE, ctx.pick(3, 4))]
	out += [dict(full(REBUILD, d), do="rebuild") for d in deviations(REBUILD, ctx.pick(3, 5))]
	for kind in KINDS:
		for name in NAMES:
			for checked in (False, True):
				for up in (False, True):
					out.append({"do": "list", "kind": kind, "name": name, "checked": checked, "up": up})
		for bad in BAD:
			for o in ("none", "abs", "file"):
				for d in ("", "d", "dd"):
					out.append({"do": "bad", "kind": kind, "bad": bad, "o": o, "d": d})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def ext_of(c):
	return "." + (c["kind"].upper() if c["name"] == "UP" else c["kind"])


_refs = {}


def reference(c, checked=False):
	"""the SRS of the sample, made with the plainest of command lines"""
	key = (c["kind"], c["name"], checked)
	if key not in _refs:
		if len(_refs) > 300:
			_refs.clear()
		b = base(c["kind"])
		with core.scratch_dir() as d:
			s = write(os.path.join(d, "in", c["name"] + ext_of(c)), b.sample)
			m = write(os.path.join(d, "main." + c["kind"]), b.main)
			os.mkdir(os.path.join(d, "out"))
			r = srs([s, "-y", "-o", os.path.join(d, "out", "r.srs")] + (["-c", m] if checked else []))
			if r != 0:
				raise core.HarnessError("no reference SRS: %r" % (r,))
			_refs[key] = read(os.path.join(d, "out", "r.srs"))
	return _refs[key]


def scene(c, folder):
	"""-> (top, release folder, folder of the sample)"""
	root = os.path.join(core.scratch(), "t", "w\u00f6rk")
	rel = os.path.join(root, "Some.Rel-GRP")
	sd = os.path.join(rel, folder)
	for d in (sd, os.path.join(root, "other"), os.path.join(root, "to", "here.d")):
		os.makedirs(d)
	for d in (root, rel, sd, os.path.join(root, "other"), os.path.join(root, "to")):
		write(os.path.join(d, "keep.nfo"), b"stays " + d.encode("utf-8"))
	return root, rel, sd


def form(path, how, cwd):
	if how == "abs":
		return path
	r = os.path.relpath(path, cwd)
	if how == "dots":
		return os.path.join(os.path.relpath(os.path.dirname(path), cwd), "..", os.path.basename(os.path.dirname(path)), ".", os.path.basename(path))
	if r.startswith("-"):
		r = "./" + r
	return r


def run(argv, cwd, answer):
	old = os.getcwd()
	os.chdir(cwd)
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out):
			r = srs(argv, answer)
	finally:
		os.chdir(old)
	return r, out.getvalue()


def decoys(paths, *places):
	"""files with the names of the result in every place where it does not go"""
	target = os.path.normpath(paths[0])
	root = places[0]
	for d in places + (os.path.join(root, "other"), os.path.join(root, "to"), os.path.join(root, "to", "here.d"), os.path.join(root, "movie")):
		for t in paths:
			p = os.path.join(d, os.path.basename(t))
			if os.path.isdir(d) and p != target and not os.path.lexists(p):
				write(p, b"not in the way")


def diff(before, after):
	return sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))


def run_case(c):
	return {"create": create, "rebuild": rebuild, "list": listing, "bad": refused}[c["do"]](c)


def create(c):
	res = core.Result()
	b = base(c["kind"])
	root, rel, sd = scene(c, c["dir"])
	sample = write(os.path.join(sd, c["name"] + ext_of(c)), b.sample)
	main = write(os.path.join(root, "main." + c["kind"]), b.main)
	cwd = {"top": root, "rel": rel, "sampledir": sd, "other": os.path.join(root, "other")}[c["cwd"]]
	given = form(sample, c["path"], cwd)
	if c["path"] == "link":
		# the sample in a folder that is reached through a link
		os.symlink(sd, os.path.join(root, "lnk"))
		given = os.path.join(os.path.relpath(root, cwd), "lnk", os.path.basename(sample))
		given_dir = os.path.join(root, "lnk")
	else:
		given_dir = sd
	to = os.path.join(root, "to", "here.d")
	o, folder, name = c["o"], cwd, None
	argv_o = None
	if o == "abs":
		argv_o = folder = to
	elif o == "rel":
		folder = to
		argv_o = os.path.relpath(to, cwd)
	elif o == "dot":
		argv_o = "."
	elif o == "slash":
		folder = to
		argv_o = to + "/"
	elif o == "missing":
		argv_o = folder = os.path.join(root, "to", "nowhere")
	elif o == "bare":
		argv_o = name = "My.Name.srs"
	elif o == "file":
		folder, name = to, "my.srs"
		argv_o = os.path.join(os.path.relpath(to, cwd), name)
	elif o == "absfile":
		folder, name = to, "my.srs"
		argv_o = os.path.join(to, name)
	elif o == "UPPER":
		argv_o = name = "MY.SRS"
	elif o == "upfile":
		folder, name = os.path.dirname(cwd), "my.srs"
		argv_o = "../my.srs"
	elif o == "missingfile":
		folder, name = os.path.join(root, "to", "nowhere"), "my.srs"
		argv_o = os.path.join(folder, name)
	elif o == "dotted":
		folder, name = cwd, "my.srs"
		argv_o = "./my.srs"
	d = [x for x in c["d"].split(",") if x]
	more = [x for x in c["more"].split(",") if x]
	somewhere = False
	if "ddd" in d and name is None:
		# the name isn't specified
		somewhere = True
		places = [os.path.dirname(given_dir)] + ([folder] if o != "none" else [])
	elif name is None:
		name = {"": c["name"], "d": os.path.basename(given_dir), "dd": os.path.basename(os.path.dirname(given_dir))}[d[0] if d else ""] + ".srs"
	exists = c["exists"]
	refuse = len(d) > 1
	if o.startswith("missing") and not somewhere:
		refuse = True
	answer = None
	argv = [given] + ["--" + x for x in d] + (["-o", argv_o] if argv_o else [])
	target = None
	if not somewhere:
		target = os.path.join(folder, name)
		if exists == "decoy":
			decoys([target, sample], root, rel, sd)
		elif exists != "no" and not refuse:
			if exists == "dir":
				os.mkdir(target)
			else:
				write(target, b"an older file")
	if exists in ("y", "n"):
		answer = exists
	if exists == "flag":
		argv.append("-y")
	if "i" in more:
		argv.append("-i")
	if "c" in more:
		argv += ["-c", form(main, "rel", cwd)]
	if "b" in more:
		argv.append("-b")
	before = tree(core.scratch())
	r, text = run(argv, cwd, answer)
	after = tree(core.scratch())
	changed = diff(before, after)
	res.outcome = "create -o %s %s %s %s: %s" % (o, c["d"], c["more"], exists, r)
	what = " ".join(argv)
	if o == "missing" and somewhere:
		# either it goes to the parent folder, or it is refused
		if changed and (len(changed) > 1 or r != 0):
			res.bad("elsewhere", "%s: exit %r, changed: %r" % (what, r, changed))
		return res
	if refuse:
		if r == 0 or not isinstance(r, int):
			res.bad("not refused", "%s: exit %r" % (what, r))
		if changed:
			res.bad("refused but wrote", "%s: %r" % (what, changed))
		return res
	if "i" in more:
		if r != 0:
			res.bad("info", "%s: exit %r" % (what, r))
		if changed:
			res.bad("info wrote", "%s: %r" % (what, changed))
		return res
	if exists == "n" and not somewhere:
		if changed:
			res.bad("overwrote", "%s: changed although the answer was no: %r" % (what, changed))
		return res
	if exists == "dir" and not somewhere:
		if r == 0 or changed:
			res.bad("dir", "%s: exit %r, changed: %r" % (what, r, changed))
		return res
	if r != 0:
		res.bad("failed", "%s in %s: exit %r" % (what, os.path.relpath(cwd, root), r))
		if changed:
			res.bad("failed but wrote", "%s: %r" % (what, changed))
		return res
	if somewhere:
		ok = [os.path.relpath(os.path.realpath(p), os.path.realpath(core.scratch())) for p in places]
		if len(changed) != 1 or os.path.dirname(changed[0]) not in [p if p != "." else "" for p in ok] or not changed[0].lower().endswith(".srs"):
			res.bad("place", "%s: changed %r; the SRS belongs in %r" % (what, changed, ok))
			return res
		got = after[changed[0]]
	else:
		t = os.path.relpath(os.path.join(os.path.realpath(folder), name), os.path.realpath(core.scratch()))
		if changed != [t]:
			res.bad("place", "%s in %s: changed %r; the SRS belongs at %r" % (what, os.path.relpath(cwd, root), changed, t))
			return res
		got = after[t]
	if got != reference(c, "c" in more) and "b" not in more:
		res.bad("content", "%s: the SRS differs from the one made without options" % what)
	return res


def rebuild(c):
	res = core.Result()
	b = base(c["kind"])
	root, rel, sd = scene(c, "Sample")
	sname = c["name"] + ext_of(c)
	srsname = {"same": c["name"] + ".srs", "renamed": "renamed.srs", "UPPER": "RE.SRS", "other.dir": "other.srs"}[c["srsname"]]
	sfile = os.path.join(os.path.join(root, "other") if c["srsname"] == "other.dir" else sd, srsname)
	write(sfile, reference(c))
	mdir = os.path.join(root, "movie")
	if c["main"] == "file":
		main = write(os.path.join(mdir, "main." + c["kind"]), b.main)
	else:
		cuts = ((0, len(b.main) // 3), (0, 2 * len(b.main) // 3)) if c["main"] == "split" else ()
		vols = rs.build_set([rs.Member("main." + c["kind"], len(b.main), data=b.main)], cuts, "old", "main")
		for v in vols:
			write(os.path.join(mdir, v.name), v.bytes())
		main = os.path.join(mdir, vols[0].name)
	cwd = {"top": root, "rel": rel, "sampledir": sd, "other": os.path.join(root, "other")}[c["cwd"]]
	to = os.path.join(root, "to", "here.d")
	o = c["o"]
	folder, argv_o = {
		"none": (cwd, None), "abs": (to, to), "rel": (to, os.path.relpath(to, cwd)), "dot": (cwd, "."), "slash": (to, to + "/"),
		"missing": (os.path.join(cwd, "new"), "new"), "nested": (os.path.join(cwd, "new", "er"), "new/er"),
		"absmissing": (os.path.join(root, "new"), os.path.join(root, "new")),
	}[o]
	argv = [form(sfile, c["path"], cwd), form(main, c["path"], cwd)] + (["-o", argv_o] if argv_o else [])
	exists = c["exists"]
	target = os.path.join(folder, sname)
	if exists == "dir":
		os.makedirs(target)
	elif exists == "decoy":
		decoys([target, os.path.join(sd, sname)], root, rel, sd)
	elif exists != "no":
		write(target, b"an older file")
	answer = exists if exists in ("y", "n") else None
	if exists == "flag":
		argv.append("-y")
	if c["m"]:
		argv.append("-m")
	before = tree(core.scratch())
	r, text = run(argv, cwd, answer)
	after = tree(core.scratch())
	changed = diff(before, after)
	res.outcome = "rebuild -o %s %s %s: %s" % (o, c["main"], exists, r)
	what = " ".join(argv)
	if exists == "n":
		if changed:
			res.bad("overwrote", "%s: changed although the answer was no: %r" % (what, changed))
		return res
	if exists == "dir":
		if r == 0 or changed:
			res.bad("dir", "%s: exit %r, changed: %r" % (what, r, changed))
		return res
	t = os.path.relpath(target, core.scratch())
	if r != 0:
		res.bad("failed", "%s in %s: exit %r" % (what, os.path.relpath(cwd, root), r))
	extra = [x for x in changed if x != t and not (x.endswith("/") and t.startswith(x))]
	if extra:
		res.bad("elsewhere", "%s: changed %r" % (what, extra))
	if r == 0 and after.get(t) != b.sample:
		res.bad("place", "%s in %s: no exact sample at %r; changed %r" % (what, os.path.relpath(cwd, root), t, changed))
	return res


def listing(c):
	res = core.Result()
	b = base(c["kind"])
	root, rel, sd = scene(c, "Sample")
	s = write(os.path.join(sd, "L.SRS" if c["up"] else "l.srs"), reference(c, c["checked"]))
	before = tree(core.scratch())
	r, text = run([s, "-l"], root, None)
	res.outcome = "list %s: %s" % (c["kind"], r)
	if r != 0:
		res.bad("list", "exit %r" % (r,))
	if tree(core.scratch()) != before:
		res.bad("list wrote", "listing changed files")
	want = {"Sample Name": c["name"] + ext_of(c), "Sample CRC": "%08X" % (zlib.crc32(b.sample) & 0xffffffff)}
	for k, v in want.items():
		m = re.search(r"(?m)^%s *: (.*)$" % k, text)
		if not m or m.group(1) != v:
			res.bad("list", "%s is listed as %r instead of %r" % (k, m and m.group(1), v))
	m = re.search(r"(?m)^Sample Size *: (.*)$", text)
	if not m or re.sub(r"\D", "", m.group(1)) != str(len(b.sample)):
		res.bad("list", "the size is listed as %r instead of %d" % (m and m.group(1), len(b.sample)))
	tr = sorted(int(re.sub(r"\D", "", x)) for x in re.findall(r"(?m)^Track +-?\d+: +([\d,. ]*\d) bytes", text))
	if tr != sorted(len(x) for x in b.streams):
		res.bad("list", "the tracks are listed with sizes %r instead of %r" % (tr, sorted(len(x) for x in b.streams)))
	return res


def refused(c):
	res = core.Result()
	b = base(c["kind"])
	root, rel, sd = scene(c, "Sample")
	sample = write(os.path.join(sd, "sample." + c["kind"]), b.sample)
	main = write(os.path.join(root, "main." + c["kind"]), b.main)
	s = write(os.path.join(sd, "made.srs"), reference({"kind": c["kind"], "name": "sample"}))
	to = os.path.join(root, "to", "here.d")
	bad = c["bad"]
	other = KINDS[(KINDS.index(c["kind"]) + 1) % 4]
	files = {
		"nofile": [os.path.join(sd, "not.avi")],
		"noargs": [],
		"garbage": [write(os.path.join(sd, "g." + c["kind"]), b"just some text, which is not a video at all" * 9)],
		"empty": [write(os.path.join(sd, "e." + c["kind"]), b"")],
		"folder": [sd],
		"three": [s, main, sample],
		"notsrs": [sample, main],
		"srsonly": [s],
		"infosrs": [s, "-i"],
		"secondmissing": [s, os.path.join(sd, "not." + c["kind"])],
		"missingsrs": [os.path.join(sd, "not.srs"), main],
		"baddir": [os.path.join(sd, "no", "such.avi")],
		"garbagesrs": [write(os.path.join(sd, "g.srs"), b"just some text, which is not a video at all" * 9), main],
		"emptysrs": [write(os.path.join(sd, "e.srs"), b""), main],
		"otherkind": [s, write(os.path.join(root, "other." + other), base(other, seed="other").main)],
		"nocheck": [sample, "-c", os.path.join(sd, "not." + c["kind"])],
		"checkbad": [sample, "-c", write(os.path.join(root, "wrong." + c["kind"]), base(c["kind"], seed="wrong", lens=(900, 800)).main)],
	}
	for k in list(files):
		if k != bad:
			for p in files[k]:
				if os.path.basename(p).split(".")[0] in ("g", "e", "other", "wrong") and os.path.isfile(p):
					os.unlink(p)
	if bad == "garbage" and c["kind"] == "vob":
		# any file with this extension is taken for a stream
		res.outcome = "bad: any stream"
		return res
	argv = list(files[bad])
	if c["o"] == "abs":
		argv += ["-o", to]
	elif c["o"] == "file":
		argv += ["-o", os.path.join(to, "n.srs") if len(files[bad]) < 2 or "-c" in argv else to]
	if c["d"]:
		argv.append("--" + c["d"])
	before = tree(core.scratch())
	r, text = run(argv, root, None)
	changed = diff(before, tree(core.scratch()))
	res.outcome = "bad %s -o %s: %s" % (bad, c["o"], r)
	if bad == "noargs" and not argv:
		return res
	if r == 0 or not isinstance(r, int):
		res.bad("not refused", "%s (%s): exit %r" % (bad, " ".join(argv), r))
	if changed:
		res.bad("refused but wrote", "%s (%s): %r" % (bad, " ".join(argv), changed))
	return res
