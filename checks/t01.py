"""T01: the retag tool gives a music release back from its SRR and the tracks."""
import os
import sys

from mc import core, musicsyn
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rmain, write, read, tree
from mc.resamplelib import srs, tool, Asked
from mc.samples import base

core.setup_repo_path()
import retag  # noqa: E402

PROPERTY = "T01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of music releases, states and places of their tracks, existing results, permissions and reruns, through the command line of the retag tool, against a model of the restored folder"
LEVEL_NOTE = ("Releases of 12 track layouts with 6 sets of other files and 8 kinds of other SRS files; 14 states of the tracks that have changed x 4 choices of these tracks x 11 places; 7 kinds of existing results with 4 ways to give permission, "
	"6 output folders, unusable arguments and reruns: every combination of at most 3 (thorough 4) departures from the default. Every file of the output folder is compared with the release. The SRS files are made by the real sample tool.")
RULE = "one evaluation = one run (or two) of the retag tool; outcomes are (departures from the default, exit code)"

DIMS = {
	"music": ["mp3s", "flacs", "both", "one", "discs", "samename", "rootdisc", "discroot", "deep", "CAPS", "odd", "none"],
	"state": ["retagged", "same", "stripped", "more", "swapped", "damaged", "cut", "longer", "missing", "empty", "folder", "text", "othertrack", "lastbyte"],
	"which": ["first", "last", "all", "middle"],
	"where": ["exact", "upper", "lower", "root", "upperdir", "output", "twice", "bothcase", "decoy", "decoydir", "rootdir"],
	"others": ["plain", "none", "more", "tracks", "upper", "samename"],
	"srs": ["only", "avi", "vob", "garbage", "empty", "cut", "CAPS", "avilast"],
	"existing": ["none", "nfo", "track", "same", "srs", "nfotrack", "all"],
	"answer": ["-y", "-n", "y", "n"],
	"out": ["new", "nested", "there", "slash", "dot", "rel"],
	"runs": [1, 2],
	"wrong": ["no", "noin", "notsrr", "outfile"],
	"srr": ["x.srr", "X.SRR", "[x] \u0416.srr", "in"],
}

MUSIC = {
	"mp3s": ["01-a.mp3", "02-b.mp3", "03-c.mp3"], "flacs": ["01-a.flac", "02-b.flac", "03-c.flac"], "both": ["01-a.mp3", "02-b.flac"], "one": ["01-a.mp3"],
	"discs": ["CD1/101-a.mp3", "CD1/102-b.mp3", "CD2/201-c.mp3"], "samename": ["CD1/01-a.mp3", "CD2/01-a.mp3", "CD2/01-b.mp3"],
	"rootdisc": ["01-a.mp3", "CD1/01-a.mp3"], "discroot": ["CD1/01-a.mp3", "01-a.mp3"], "deep": ["Box/CD1/01-a.mp3", "Box/CD2/01-a.flac"], "CAPS": ["01-A.MP3", "02-B.Flac"],
	"odd": ["01-[a] \u0416.mp3", "02-b.c.d.mp3", "03 #%s.mp3"], "none": [],
}
OTHERS = {
	"plain": {"grp.nfo": b"info", "grp.sfv": b"; sfv\r\n"}, "none": {}, "more": {"00-grp.nfo": b"i", "00-grp.m3u": b"01\r\n", "Proof/p.jpg": rs.payload("jpg", 3000), "CD1/cd1.sfv": b"; 1", "empty.txt": b""},
	"tracks": {"grp.nfo": b"info", "bonus.mp3": rs.payload("mp3", 700)}, "upper": {"GRP.NFO": b"INFO", "Cover.SRSX": b"no"}, "samename": {"a.nfo": b"1", "CD1/a.nfo": b"2", "CD2/a.nfo": b"3"},
}
STATES_OK = ("retagged", "same", "stripped", "more", "swapped", "longer")


def sensible(d):
	m, w, st, ex, an, o = (d.get(k, DIMS[k][0]) for k in ("music", "where", "state", "existing", "answer", "out"))
	if m == "none" and (w != "exact" or st != "retagged" or "which" in d or ex not in ("none", "nfo")):
		return False
	if w == "root" and m in ("samename", "rootdisc", "discroot"):
		return False   # two tracks at one place
	if w in ("decoy", "decoydir") and (m not in ("discs", "samename", "deep") or st in ("missing", "folder")):
		return False   # (something with the right name in the root folder, which isn't the track)
	if w == "rootdir" and (m not in ("discs", "deep") or st in ("missing", "folder")):
		return False   # (the tracks in one folder, folders with their names in the disc folders)
	if w in ("bothcase", "upper", "lower", "upperdir", "root", "twice") and st in ("missing",):
		return False
	if w == "output" and (o != "new" or ex in ("track", "same", "nfotrack", "all") or d.get("srr") == "in"):
		return False
	if ex in ("srs", "all") and an in ("-y", "y"):
		return False   # (the SRS files are temporary: what happens to the user's own ones with permission is not told)
	if d.get("runs") == 2 and (ex != "none" or an in ("-n", "n")):
		return False
	if d.get("srs") == "CAPS" and m == "none":
		return False
	if "wrong" in d and ("srr" in d or w == "output" or o != "new" or ex != "none"):
		return False
	return True


def cases(ctx):
	return [full(DIMS, d) for d in deviations(DIMS, ctx.pick(3, 4), sensible)]


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def track(name, how):
	"""the bytes of a track; how: which tags it has"""
	n = 900 + 37 * (len(name) % 5)
	if name.lower().endswith(".mp3"):
		a = musicsyn.audio(n, "mp3", name)
		if how == "audio":
			return a
		return {"own": musicsyn.id3v2(60, name) + a + musicsyn.lyrics2(50, name) + musicsyn.id3v1(name), "retagged": musicsyn.id3v2(200, "new" + name) + a + musicsyn.id3v1("new" + name), "stripped": a,
			"more": musicsyn.id3v2(500, "x") + a + musicsyn.ape(2000, 90, "x") + musicsyn.lyrics2(90, "x") + musicsyn.id3v1("x"), "swapped": musicsyn.id3v2(60, "x" + name) + a + musicsyn.lyrics2(50, "x" + name) + musicsyn.id3v1("x" + name),
			"longer": musicsyn.id3v2(70000, "x") + a + musicsyn.id3v1("x")}[how]
	a = musicsyn.audio(n, "flac", name)
	if how == "audio":
		return a
	f = lambda seed, size, before=b"", after=b"": musicsyn.flac([(0, rs.payload("si" + name, 34)), (4, rs.payload(seed, size))], a, before, after)
	return {"own": f(name, 80, musicsyn.id3v2(30, name)), "retagged": f("new" + name, 300), "stripped": musicsyn.flac([(0, rs.payload("si" + name, 34))], a), "more": f("x", 500, musicsyn.id3v2(50, "x"), musicsyn.id3v1("x")),
		"swapped": f("x" + name, 80, musicsyn.id3v2(30, "x" + name)), "longer": f("x", 70000)}[how]


_SRS = {}


def srs_of(name):
	"""the SRS of a track, from the real tool"""
	if name not in _SRS:
		d = os.path.join(core.scratch(), "make")
		b = os.path.basename(name)
		data = base("avi").sample if name == "avi" else base("vob").sample if name == "vob" else track(name, "own")
		p = write(os.path.join(d, b + "." + name if name in ("avi", "vob") else b), data)
		r = srs([p, "-o", os.path.join(d, "out.srs"), "-y"])
		assert r == 0, r
		_SRS[name] = read(os.path.join(d, "out.srs"))
	return _SRS[name]


def input_track(name, state):
	"""-> bytes, None (absent) or "dir"; does it hold the audio of the track?"""
	own = track(name, "own")
	if state == "same":
		return own, True
	if state in STATES_OK:
		return track(name, state), True
	b = bytearray(track(name, "retagged"))
	at = bytes(b).find(track(name, "audio"))
	n = len(track(name, "audio"))
	if state == "damaged":
		b[at + 400] ^= 1
	elif state == "lastbyte":
		b[at + n - 1] ^= 1
	elif state == "cut":
		del b[at + 500:]
	elif state == "empty":
		b = b""
	elif state == "text":
		b = b"this is not a music track\r\n" * 30
	elif state == "othertrack":
		b = track("zz" + name, "retagged")
	elif state == "missing":
		return None, False
	elif state == "folder":
		return "dir", False
	return bytes(b), False


def run_case(c):
	res = core.Result()
	root = os.path.join(core.scratch(), "k")
	tracks = MUSIC[c["music"]]
	affected = {"first": tracks[:1], "last": tracks[-1:], "all": tracks, "middle": tracks[1:2]}[c["which"]]
	# the SRR
	stored = []
	others = dict(OTHERS[c["others"]])
	broken = {"garbage": rs.payload("garbage", 500), "empty": b"", "cut": None}
	extra = []
	for t in tracks:
		s = srs_of(t)
		if c["srs"] == "cut" and t in affected:
			s = s[:len(s) - 200]
		stored.append((t.rsplit(".", 1)[0] + (".SRS" if c["srs"] == "CAPS" else ".srs"), s, t))
	if c["srs"] in ("avi", "vob", "avilast"):
		extra = [("Sample/s.srs", srs_of(c["srs"][:3]), None)]
	elif c["srs"] in ("garbage", "empty"):
		extra = [("bad.srs", broken[c["srs"]], None)]
	stored = stored + extra if c["srs"] == "avilast" else extra + stored
	items = [(n, d) for n, d in others.items()]
	items = items[:1] + [(n, d) for n, d, _t in stored] + items[1:]
	srr = rs.srr_header("pyReScene test") + b"".join(rs.srr_stored(n, d) for n, d in items)
	indir = os.path.join(root, "in")
	os.makedirs(indir)
	os.makedirs(os.path.join(root, "cwd"))
	where = os.path.join(indir, "x.srr") if c["srr"] == "in" else os.path.join(root, "srr", c["srr"])
	write(where, srr)
	out = {"new": "out", "nested": "a/b/out", "there": "out", "slash": "out", "dot": "cwd", "rel": "out"}[c["out"]]
	outdir = indir if c["where"] == "output" else os.path.join(root, out)
	if c["out"] == "there":
		write(os.path.join(outdir, "keep.me"), b"keep")
	# the tracks of the user
	good = {}
	for t in tracks:
		state = c["state"] if t in affected else "retagged"
		data, good[t] = input_track(t, state)
		if c["srs"] == "cut" and t in affected:
			good[t] = False
		d, b = os.path.split(t)
		p = {"upper": os.path.join(d, b.upper()), "lower": os.path.join(d, b.lower()), "root": b, "upperdir": os.path.join(d.lower(), b), "bothcase": os.path.join(d.lower(), b.upper())}
		p["decoy"] = p["decoydir"] = p["bothcase"]
		p["rootdir"] = b
		p = p.get(c["where"], t)
		p = os.path.join(indir, p)
		if data == "dir":
			os.makedirs(p)
		elif data is not None:
			write(p, data)
			if c["where"] == "decoy":
				write(os.path.join(indir, b), track("zz" + t, "retagged"))
			elif c["where"] == "rootdir":
				write(os.path.join(indir, t, "x"), b"")
			elif c["where"] == "decoydir":
				write(os.path.join(indir, b, "x"), b"")
			if c["where"] == "twice":
				write(os.path.join(os.path.dirname(p), "copy of " + b), data)
	# what is there already
	ex = c["existing"]
	if ex in ("nfo", "nfotrack", "all") and others:
		write(os.path.join(outdir, sorted(others)[0]), b"another one")
	if ex in ("track", "same", "nfotrack", "all"):
		for t in affected:
			write(os.path.join(outdir, t), track(t, "own") if ex == "same" else b"another track")
	if ex in ("srs", "all"):
		for t in affected:
			write(os.path.join(outdir, [n for n, _d, x in stored if x == t][0]), b"own srs")
	if c["wrong"] == "outfile":
		write(outdir, b"a file")
	elif c["wrong"] == "notsrr":
		os.rename(where, where[:-4])
		where = where[:-4]
	# what has to be there afterwards
	start = tree(outdir) if os.path.isdir(outdir) else {}
	before = tree(root)
	may = c["answer"] in ("-y", "y")
	want = dict((k, v) for k, v in start.items() if v is not None)
	for n, d in others.items():
		if n not in want or may:
			want[n] = d
	ok = True
	for n, d, t in stored:
		if n in want and not may:
			ok = False
			continue
		if t is None:
			continue
		if not good[t]:
			ok = False
		elif t in want and not may:
			ok = False
		else:
			want[t] = track(t, "own")
	if c["wrong"] != "no":
		ok, want = False, {}
	argv = [where, "-i", os.path.join(indir, "no") if c["wrong"] == "noin" else indir, "-o", outdir + ("/" if c["out"] == "slash" else "")]
	os.chdir(os.path.join(root, "cwd"))
	if c["out"] == "dot":
		argv = argv[:3]
	elif c["out"] == "rel":
		argv[4] = os.path.relpath(outdir)
	if c["answer"] in ("-y", "-n"):
		argv.append(c["answer"])
	how = []
	for k in range(c["runs"]):
		if k and c["answer"] == "-y":
			argv[-1] = "-y"
		how.append(run(argv, c["answer"]))
	os.chdir(core.scratch())
	key = "/".join("%s" % c[k] for k in DIMS if c[k] != DIMS[k][0]) or "default"
	after = tree(outdir) if os.path.isdir(outdir) else {}
	after = dict((k, v) for k, v in after.items() if v is not None)
	if after != want:
		res.bad("out " + key, "the output folder is wrong: %s (ended with %s)" % ("; ".join(
			["%s is missing" % n for n in sorted(want) if n not in after] + ["%s is too much" % n for n in sorted(after) if n not in want] +
			["%s has other bytes" % n for n in sorted(want) if n in after and after[n] != want[n]]), how))
	codes = (2,) if c["wrong"] != "no" else (0,) if ok else (1,)
	if codes != (2,) and (c["srs"] in ("garbage", "empty") or not tracks):
		codes = (0, 1)
	if how[-1] not in codes:
		res.bad("exit " + key, "ended with %s, expected %s" % (how, codes))
	now = tree(root)
	pre = os.path.relpath(outdir, root)
	rest = lambda t: dict((k, v) for k, v in t.items() if v is not None and not k.startswith(pre + "/"))
	if rest(now) != rest(before):
		res.bad("files " + key, "files outside the output folder were changed")
	res.outcome = "%s:%s" % (key, how[-1])
	return res


def run(argv, answer):
	"""-> exit code of the tool, or what it raised"""
	said = {"n": 0}

	def ask(*_a):
		said["n"] += 1
		if answer not in ("y", "n") or said["n"] > 200:
			raise Asked("unexpected question")
		return answer
	retag.raw_input = tool.raw_input = ask  # (the tool goes on after any error with one track)
	old = rmain.can_overwrite
	try:
		r = retag.main(argv)
		return "asked, %s" % r if said["n"] and answer not in ("y", "n") else r
	except SystemExit as e:
		return "exit %s" % (e.code,)
	except Exception as e:
		return "%s: %s" % (type(e).__name__, e)
	finally:
		rmain.can_overwrite = old
