"""P02: rebuilding compressed RAR sets with a folder of RAR executables."""
import os
import subprocess
import time

from mc import core
from mc import fakerar as fr
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rmain, write, tree, reset_events, event_codes, allow_overwrite
from checks.p01 import cli

PROPERTY = "P02"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of compressed sets, executables, thread counts and disk layouts, rebuilt by the real code with stand-in RAR executables and compared with the original volumes"
LEVEL_NOTE = ("Every combination of at most 2 (thorough 3) departures from a plain compressed set over members, volume size, version that made it, versions present, threads, level, dictionary, names, place of the files and way of calling. "
	"The RAR executables are stand-ins with RAR's command line, volume layout and checksums and a pseudo-compressor, run in the checking process; one slice runs them as real programs. RAR's own compressor is not run.")
RULE = "one case = one compressed set rebuilt by the real code (or refused when no executable there made it); outcomes are (members, version, threads, volumes, result) classes"

# (name, size, packed)  size None: folder; packed False: stored
LAYOUTS = {
	"two": [("a.bin", 6000, 1), ("b.dat", 5000, 1)],
	"one": [("a.bin", 6000, 1)],
	"tiny": [("a.bin", 60, 1)],
	"small": [("s.idx", 1500, 1)],
	"big": [("a.bin", 150000, 1)],
	"smallbig": [("s.idx", 900, 1), ("s.sub", 9000, 1)],
	"bigsmall": [("s.sub", 90000, 1), ("s.txt", 300, 1)],
	"three": [("a.bin", 3000, 1), ("b.dat", 2500, 1), ("c", 7000, 1)],
	"dirfirst": [("sub", None, 1), ("sub\\a.bin", 4000, 1)],
	"dirlast": [("sub\\a.bin", 4000, 1), ("sub", None, 1)],
	"empty": [("e.bin", 0, 1), ("a.bin", 4000, 1)],
	"emptylast": [("a.bin", 4000, 1), ("e.bin", 0, 1)],
	"storedfirst": [("p.png", 2000, 0), ("a.bin", 4000, 1)],
	"storedlast": [("a.bin", 4000, 1), ("p.png", 2000, 0)],
	"storedmid": [("a.bin", 4000, 1), ("p.png", 2000, 0), ("b.dat", 3000, 1)],
	"samebase": [("s1\\a.bin", 4000, 1), ("s2\\a.bin", 4100, 1)],
}
DIMS = {
	"layout": list(LAYOUTS),
	"split": [900, None, 350, 1500, 4000, 12000],
	"made": [5, 0, 1, 2, 3, 4, 6, 7],
	"have": ["all", "only", "older", "newer", "others"],
	"threads": [4, 1, 0, 2, 16, 32],
	"level": [3, 1, 2, 4, 5],
	"dic": ["A", "B", "C", "D", "E", "F", "G"],
	"style": ["plain", "grow", "next", "prev", "rest"],
	"solid": [False, True],
	"naming": ["old", "new"],
	"where": ["plain", "hint", "auto", "sub"],
	"mt": [None, "set", "setbad", "min", "max", "range"],
	"date": [0x40c96000, 0x1a216000, 0x4a8e6000, 0x2a3a6000],   # 2012-06-09, 1993-01-01, 2017, 2001
	"second": [None, "twice", "again", "samename", "other"],
	"junk": [False, True],
	"fault": [None, "flip", "fliplast", "missing", "size"],
	"part": [None, "first", "last", "mid", "wild"],
	"how": ["lib", "cli", "exec"],
	"temp": [True, False],
}


def possible(d):
	c = full(DIMS, d)
	mt = fr.MT[fr.NAMES[c["made"]]]
	if mt is None:
		if "threads" in d:
			return False
	elif not mt[0] <= c["threads"] <= mt[1]:
		return False
	old = fr.NAMES[c["made"]].find("_rar2") > 0
	if old and "naming" in d:
		return False
	if c["split"] is None and "naming" in d:
		return False
	if c["layout"] == "big" and c["split"] in (350,):
		return False
	if c["style"] == "grow" and c["split"] is None:
		return False        # RAR stores such a file
	if c["fault"] and (c["second"] == "again" or c["layout"] == "samebase"):
		return False
	if c["part"] and (c["solid"] or c["mt"] == "setbad" or c["style"] in ("prev", "rest")):
		return False
	if c["style"] == "grow" and c["layout"] == "tiny":
		return False
	if c["style"] in ("next", "prev", "rest") and c["solid"]:
		return False
	if c["layout"] == "samebase" and (c["solid"] or c["style"] in ("next", "prev", "rest")):
		return False        # the rebuild packs without paths
	return True


def cases(ctx):
	out = [full(DIMS, d) for d in deviations(DIMS, ctx.pick(2, 3), possible)]
	# three files, the second depends on the third: all are packed at once
	three = dict((k, v) for k, v in DIMS.items() if k not in ("layout", "style"))
	for d in deviations(three, ctx.pick(1, 2), lambda d: possible(dict(d, layout="three", style="rest"))):
		out.append(dict(full(DIMS, d), layout="three", style="rest"))
	for n in range(1, ctx.pick(40, 200)):      # every place of the volume boundaries
		out.append(dict(full(DIMS, {}), layout="two", split=340 + 13 * n, have="all"))
	for made in range(len(fr.NAMES)):            # every thread count of every version
		mt = fr.MT[fr.NAMES[made]]
		if mt:
			for t in range(mt[0], mt[1] + 1):
				for split in ((900, None) if ctx.thorough or t < 5 or t == mt[1] else (900,)):
					out.append(dict(full(DIMS, {}), made=made, threads=t, split=split))
	return out


def explore(ctx):
	ctx.run(cases(ctx))


class Process(object):
	"""stands for subprocess.Popen of one of the executables"""
	pid = 0
	stdin = stdout = stderr = None

	def __init__(self, args, result):
		self.args = args
		self.returncode, self.text = result

	def communicate(self, *a, **k):
		return self.text, b""

	def wait(self, *a, **k):
		return self.returncode

	poll = wait

	def kill(self):
		pass

	terminate = kill

	def __enter__(self):
		return self

	def __exit__(self, *a):
		return None


def interpose(folder, real, log):
	def popen(args, *a, **k):
		if isinstance(args, (list, tuple)) and os.path.dirname(os.path.abspath(args[0])) == folder:
			log.append(list(args))
			return Process(args, fr.run(list(args), k.get("cwd") or "."))
		return real(args, *a, **k)
	return popen


def release(c, tag, layout, base):
	"""members, their entries and the volumes of one set"""
	version = fr.NAMES[c["made"]]
	entries, members = [], []
	for name, size, packed in LAYOUTS[layout]:
		data = b"" if size is None else rs.payload(tag + name, size)
		e = fr.Entry(name, data, c["level"] if packed and data else 0, c["dic"], is_dir=size is None, dtime=c["date"])
		entries.append(e)
		members.append((name, data, size is None))
	fr.pack_entries(entries, version, c["threads"], c["solid"], c["style"])
	split = c["split"]
	if split is not None and layout == "big":
		split = max(split, 4000)
	return members, fr.write_set(entries, version, split, c["naming"] == "new", base, c["solid"])


def srr_of(pre, vols):
	out = b""
	for n, data in vols:
		out += rs.srr_rarfile(pre + n)
		pos = 0
		while pos < len(data):
			kind, flags, size = data[pos + 2], data[pos + 3] | data[pos + 4] << 8, data[pos + 5] | data[pos + 6] << 8
			out += data[pos:pos + size]
			if kind == 0x74:
				pos += int.from_bytes(data[pos + 7:pos + 11], "little")
			pos += size
	return out


def run_case(c):
	res = core.Result()
	root = core.scratch()
	allow_overwrite(True)
	version = fr.NAMES[c["made"]]
	src, tmp, bins = (os.path.join(root, x) for x in ("in", "tmp", "bin"))
	for d in (src, tmp):
		os.makedirs(d)
	have = {"all": fr.NAMES, "only": [version], "older": fr.NAMES[:c["made"] + 1], "newer": fr.NAMES[c["made"]:],
		"others": [n for n in fr.NAMES if n != version]}[c["have"]]
	fr.install(bins, have, c["style"])
	if c["junk"]:
		for n in ("readme.txt", "rar.exe", "2012-06-09_unrar420", "_rar420"):
			write(os.path.join(bins, n), b"x")
		os.mkdir(os.path.join(bins, "dir"))
	sets = [("", ) + release(c, "", c["layout"], "rel")]
	if c["second"] == "samename":
		sets = [("CD1/", ) + sets[0][1:], ("CD2/", ) + release(dict(c), "", c["layout"], "rel2")]
	elif c["second"] == "other":
		sets.append(("CD2/", ) + release(dict(c), "x", "small" if c["layout"] != "small" else "one", "rel2"))
		sets[-1] = (sets[-1][0], [("o_" + n, d, f) for n, d, f in sets[-1][1]], None)
		ent = [fr.Entry(n, d, c["level"], c["dic"], dtime=c["date"]) for n, d, f in sets[-1][1]]
		fr.pack_entries(ent, version, c["threads"], c["solid"], c["style"])
		sets[-1] = sets[-1][:2] + (fr.write_set(ent, version, c["split"], c["naming"] == "new", "rel2", c["solid"]), )
	hints = {}
	for _, members, _ in sets:
		for i, (name, data, folder) in enumerate(members):
			p = name.replace("\\", "/")
			if folder:
				os.makedirs(os.path.join(src, p), exist_ok=True)
				continue
			if c["where"] == "hint":
				hints[name] = "h%d.tmp" % len(hints) if name not in hints else hints[name]
				p = hints[name]
			elif c["where"] == "auto":
				p = os.path.join("deep", "renamed%d%s" % (i, os.path.splitext(p)[1]))
			write(os.path.join(src, p), data)
	if c["where"] == "sub":
		write(os.path.join(src, "zz", "a.bin"), b"another")
	want = dict((pre + n, d) for pre, _, vols in sets for n, d in vols)
	srr = write(os.path.join(root, "x.srr"), rs.srr_header("app") + b"".join(srr_of(pre, vols) for pre, _, vols in sets))
	part = ""
	if c["part"]:
		names = list(want)
		part = {"first": names[0], "last": names[-1], "mid": names[len(names) // 2], "wild": names[0][:-1] + "*"}[c["part"]]
		want = dict((n, d) for n, d in want.items() if n == part or part[-1] == "*" and n.startswith(part[:-1]))
	if c["fault"]:
		packed = [m for m in sets[0][1] if m[1]]
		hit = packed[-1 if c["fault"] == "fliplast" else 0]
		old = [p for p, d in tree(src).items() if d == hit[1]]
		p = os.path.join(src, old[0])
		if c["fault"] == "missing":
			os.remove(p)
		else:
			d = bytearray(hit[1])
			if c["fault"] == "size":
				d.append(7)
			else:
				d[-1 if c["fault"] == "fliplast" else len(d) // 2] ^= 1
			write(p, bytes(d))
	mt = rmain.RarMtSettings()
	t = c["threads"]
	inmt = True
	if c["mt"] == "set":
		mt.mt_set = sorted({1, t, 9})
	elif c["mt"] == "setbad":
		mt.mt_set = [t + 1 if t < 15 else 3]
		inmt = False
	elif c["mt"] == "min":
		mt.mt_min = max(1, t - 1)
	elif c["mt"] == "max":
		mt.mt_max = t + 1
	elif c["mt"] == "range":
		mt.mt_min = mt.mt_max = max(t, 1)
	# one thread makes the same as none; small files do not care
	threaded = fr.MT[version] is not None
	big = [d for _, ms, _ in sets for n, d, f in ms if len(d) >= fr.SMALL]
	can = bool(version in have and (inmt or not threaded or not big))
	if can and (c["style"] == "next" and c["split"] is not None or c["style"] == "prev" and c["layout"].startswith("stored")):
		can = None       # may be given up, but not done wrong
	if c["fault"]:
		can = False
	before = tree(src)
	log = []
	real, sleep, cwd = subprocess.Popen, time.sleep, os.getcwd()
	oldtmp = os.environ.get("TMPDIR")
	rounds = 2 if c["second"] in ("twice", "again") else 1
	import tempfile
	for k in range(rounds):
		out = os.path.join(root, "out%d" % k)
		os.mkdir(out)
		reset_events()
		code, err = None, None
		if c["second"] == "again" and k == 0:
			# another release before, same member names
			m2, v2 = release(c, "w", c["layout"], "rel")
			s2, i2 = os.path.join(root, "first.srr"), os.path.join(root, "in2")
			for n, d, f in m2:
				p = os.path.join(i2, n.replace("\\", "/"))
				os.makedirs(p if f else os.path.dirname(p), exist_ok=True)
				if not f:
					write(p, d)
			write(s2, rs.srr_header("app") + srr_of("", v2))
			args = (s2, i2, out, True, {})
			w = dict(v2)
		else:
			args = (srr, src, out, True, hints)
			w = want
		if c["how"] != "exec":
			subprocess.Popen = interpose(os.path.abspath(bins), real, log)
		time.sleep = lambda s: None
		tempfile.tempdir = None
		os.environ["TMPDIR"] = os.path.join(root, "systmp")
		os.makedirs(os.environ["TMPDIR"], exist_ok=True)
		try:
			if c["how"] == "cli" and not (c["second"] == "again" and k == 0):
				argv = [args[0], "-p", "-y", "-i", args[1], "-o", out, "-z", bins]
				if c["temp"]:
					argv += ["-t", tmp]
				if hints:
					argv += ["-H", ";".join("%s:%s" % h for h in sorted(hints.items()))]
				if c["where"] == "auto":
					argv += ["-r"]
				if part:
					argv += ["-m", part]
				if mt.mt_set:
					argv += ["--mt-set", ",".join(str(x) for x in mt.mt_set)]
				if mt.mt_min:
					argv += ["--mt-min", str(mt.mt_min)]
				if mt.mt_max:
					argv += ["--mt-max", str(mt.mt_max)]
				code = cli(argv)
			else:
				rmain.reconstruct(*args, False, c["where"] == "auto", False, bins, tmp if c["temp"] else None, True, part if w is want else "", mt)
		except Exception as ex:
			err = ex
		finally:
			subprocess.Popen, time.sleep = real, sleep
			if oldtmp is None:
				del os.environ["TMPDIR"]
			else:
				os.environ["TMPDIR"] = oldtmp
			tempfile.tempdir = None
			os.chdir(cwd)
		got = dict((a, b) for a, b in tree(out).items() if b is not None)
		if can is None and (err is not None or code not in (None, 0)):
			pass
		elif can is not False:
			if err is not None:
				res.bad("error", "the rebuild failed: %s: %s" % (type(err).__name__, err))
			elif code not in (None, 0):
				res.bad("code", "exit code %r" % (code,))
			elif sorted(got) != sorted(w):
				res.bad("names", "rebuilt %r, expected %r" % (sorted(got)[:5], sorted(w)[:5]))
			else:
				for n in w:
					if got[n] != w[n]:
						res.bad("bytes", "%s differs (%d bytes, expected %d)" % (n, len(got[n]), len(w[n])))
						break
			if can and rmain.MsgCode.CRC in event_codes():
				res.bad("crc", "a checksum problem is reported")
		else:
			if err is None and code in (None, 0):
				if c["fault"] and (rmain.MsgCode.CRC in event_codes() or got == w and c["part"]):
					pass
				elif got != w:
					res.bad("silent", "no executable makes this data, yet the rebuild ends well with wrong volumes")
				else:
					res.bad("howso", "harness: rebuilt without the executable")
			elif err is not None and not isinstance(err, (rmain.RarNotFound, rmain.EmptyRepository, ValueError) + ((rmain.FileNotFound, rmain.InvalidFileSize) if c["fault"] else ())):
				res.bad("kind", "refused with %s: %s" % (type(err).__name__, err))
		if tree(src) != before:
			res.bad("source", "the source folder was changed")
		for place in (tmp, os.path.join(root, "systmp")):
			if os.listdir(place):
				res.bad("temp", "left behind in the temp folder: %r" % os.listdir(place)[:3])
		res.steps += 1
	res.outcome = "%s|%s|%d|%s|%d|%s" % (c["layout"], version, t, c["style"], len(want), can)
	return res
