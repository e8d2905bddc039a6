"""P03: the RAR executables are taken out of the installers, each under its date and version."""
import contextlib
import io
import itertools
import os
import re
import runpy
import sys
import tarfile
import time
import warnings

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import write, read, tree

PROPERTY = "P03"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of folders of installers, listing orders, options and output folders, each run through the real preparation tool and compared with a model of the folder it must leave"
LEVEL_NOTE = ("Every folder of at most 2 (thorough 3) out of 33 installers, damaged installers and other files, with and without beta versions, in both listing orders; every installer with every kind of output folder, path, license file and rerun. "
	"unrar is a stand-in that only knows stored files; two installers of one version and date may leave either.")
UNPRIVILEGED = True
RULE = "one evaluation = one run of the tool on a folder of installers; outcomes are (installers, options, exit code) classes"

# name: (kind, version in the result or None, beta, name inside, date)
ITEMS = {
	"wrar420.exe": ("sfx", "420", False, "Rar.exe", (2012, 6, 9)),
	"wrar36.exe": ("sfx", "360", False, "Rar.Exe", (2006, 11, 14)),
	"wrar290b3.exe": ("sfx", "290b3", True, "Rar.exe", (2001, 12, 31)),
	"wrar29b1.exe": ("sfx", "290b1", True, "Rar.exe", (2001, 10, 1)),
	"winrar-x64-411.exe": ("sfx", "411", False, "Rar.exe", (2012, 3, 2)),
	"winrar-x64-40b1.exe": ("sfx", "400b1", True, "Rar.exe", (2010, 9, 9)),
	"wrar393pr.exe": ("sfx", "393", False, "Rar.exe", (2010, 3, 15)),
	"wrar200.exe": ("sfx", "200", False, "Rar.exe", (1996, 9, 16)),
	"rar250.exe": ("sfx", "250", False, "Rar.exe", (1999, 1, 1)),
	"rarln271.sfx": ("sfx", "271", False, "rar\\rar", (2000, 11, 23)),
	"rarlnx280.sfx": ("sfx", "280", False, "rar", (2001, 2, 28)),
	"rarlinux-3.2.0.tar.gz": ("tar", "320", False, "rar/rar", (2003, 7, 24)),
	"rarlinux-4.1.b2.tar.gz": ("tar", "410b2", True, "rar/rar", (2011, 12, 7)),
	"rarlinux-x64-5.0.1.tar.gz": ("tar", "501", False, "rar/rar", (2013, 12, 1)),
	"rarbsd-3.9.3.tar.gz": ("tar", "393", False, "rar/rar", (2010, 3, 16)),
	"rarosx-4.2.0.tar.gz": ("tar", "420", False, "rar/rar", (2012, 6, 10)),
	"rarlinux-x64-611.tar.gz": ("tar", "611", False, "rar/rar", (2022, 3, 4)),
	"winrar-x64-420.exe": ("sfx", "420", False, "Rar.exe", (2012, 6, 9)),   # the version and date of wrar420.exe
	"wrar150.exe": ("sfx", None, False, "Rar.exe", (1995, 1, 2)),           # too old
	"rarln140.sfx": ("sfx", None, False, "rar", (1995, 1, 2)),
	"wrar340.exe": ("sfx", None, False, "UnRAR.exe", (2004, 1, 2)),         # without RAR
	"wrar350.exe": ("garbage", None, False, None, None),
	"wrar510.exe": ("rar5", None, False, None, None),
	"wrar351.exe": ("empty", None, False, None, None),
	"wrar380.exe": ("damaged", None, False, "Rar.exe", (2008, 9, 16)),
	"wrar381.exe": ("cut", None, False, "Rar.exe", (2008, 9, 17)),
	"rarlinux-3.3.0.tar.gz": ("tarless", None, False, None, None),
	"rarlinux-3.5.0.tar.gz": ("tarcut", None, False, "rar/rar", (2005, 10, 9)),
	"rarlinux-3.5.1.tar.gz": ("tarcuthead", None, False, "rar/rar", (2006, 2, 13)),
	"rarlinux-3.4.0.tar.gz": ("garbage", None, False, None, None),
	"readme.txt": ("garbage", None, False, None, None),
	"wrar420.zip": ("garbage", None, False, None, None),
	"setup.exe": ("garbage", None, False, None, None),
}
RUN = {
	"path": ["abs", "rel", "slash"],
	"dest": ["there", "new", "deep", "other", "rarfolder"],
	"license": ["none", ".rarreg.key", "rarreg.key", ".rarregkey"],
	"rerun": ["no", "yes"],
	"beta": [False, True],
	"order": ["asc", "desc"],
}


def cases(ctx):
	out = []
	names = sorted(ITEMS)
	for k in range(ctx.pick(3, 4)):
		for items in itertools.combinations(names, k):
			for beta in (False, True):
				for order in ("asc", "desc"):
					out.append(dict(full(RUN, {}), items=list(items), beta=beta, order=order))
	for d in deviations(RUN, ctx.pick(2, 4)):
		for items in [[n] for n in names] + [["wrar420.exe", "rarlinux-3.2.0.tar.gz", "wrar29b1.exe", "rarln271.sfx", "rarlinux-4.1.b2.tar.gz", "readme.txt"], names]:
			c = dict(full(RUN, d), items=items)
			out.append(c)
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), installers=ctx.pick(2, 3))


def installer(name):
	kind, _v, _b, inside, date = ITEMS[name]
	data = rs.payload("rar of " + name, 700)
	if kind == "garbage":
		return rs.payload(name, 400), None
	if kind == "empty":
		return b"", None
	if kind == "rar5":
		return b"MZ" + rs.payload("stub", 300) + b"Rar!\x1a\x07\x01\x00" + rs.payload("5", 200), None
	if kind.startswith("tar"):
		f = io.BytesIO()
		with tarfile.open(fileobj=f, mode="w:gz") as t:
			for n, d, mode in (("rar/", None, 0o755), ("rar/readme.txt", b"read me", 0o644), ("rar/rar", data, 0o755), ("rar/unrar", b"not this", 0o755)):
				if n == "rar/rar" and kind == "tarless":
					continue
				i = tarfile.TarInfo(n.rstrip("/"))
				i.mode = mode
				i.mtime = time.mktime((date or (2004, 1, 1)) + (12, 30, 0, 0, 0, -1))
				if d is None:
					i.type = tarfile.DIRTYPE
					t.addfile(i)
				else:
					i.size = len(d)
					t.addfile(i, io.BytesIO(d))
		b = f.getvalue()
		return (b[:len(b) * 6 // 10] if kind == "tarcut" else b[:len(b) // 8] if kind == "tarcuthead" else b), data
	dos = ((date[0] - 1980) << 25) | (date[1] << 21) | (date[2] << 16) | 0x6000
	folder = inside[:-3] if inside.startswith("rar\\") else ""
	kw = {"dtime": dos}
	if kind == "damaged":
		kw["crc"] = 1
	members = [rs.Member(folder + "File_Id.diz", 90), rs.Member(folder + "UnRAR.exe" if inside != "UnRAR.exe" else "WinRAR.exe", 200), rs.Member(inside, data=data, **kw), rs.Member(folder + "zlast.txt", 50)]
	b = rs.build_set(members, [], "old", "x")[0].bytes()
	if kind == "cut":
		b = b[:b.index(data[:50]) + 100]
	return b"MZ" + rs.payload("stub", 500) + b, data


@contextlib.contextmanager
def listing(order):
	real = os.listdir
	os.listdir = lambda p=".": sorted(real(p), reverse=order == "desc")
	try:
		yield
	finally:
		os.listdir = real


def run(argv, cwd, order, home):
	old, argv0, path, home0 = os.getcwd(), sys.argv, os.environ["PATH"], os.environ.get("HOME")
	shim = os.path.join(core.VERIF, "mc", "shim", "bin")
	os.chdir(cwd)
	os.environ["PATH"] = shim + os.pathsep + path
	os.environ["HOME"] = home
	sys.argv = ["preprardir"] + argv
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out), listing(order), warnings.catch_warnings():
			warnings.simplefilter("ignore")
			try:
				runpy.run_path(os.path.join(core.REPO, "bin", "preprardir.py"), run_name="__main__")
				r = 0
			except SystemExit as e:
				r = 0 if e.code is None else e.code
			except Exception as e:
				r = "raise:%s: %s" % (type(e).__name__, e)
	finally:
		sys.argv = argv0
		os.environ["PATH"] = path
		if home0 is None:
			del os.environ["HOME"]
		else:
			os.environ["HOME"] = home0
		os.chdir(old)
	return r, out.getvalue()


def run_case(c):
	res = core.Result()
	root = core.scratch()
	ind, home = os.path.join(root, "in"), os.path.join(root, "home")
	outd = os.path.join(root, {"deep": "new/er/out"}.get(c["dest"], "out"))
	os.makedirs(ind)
	os.makedirs(home)
	want = {}
	for n in c["items"]:
		raw, data = installer(n)
		write(os.path.join(ind, n), raw)
		kind, version, beta, _i, date = ITEMS[n]
		if version and (not beta or c["beta"]):
			name = "%d-%02d-%02d_rar%s%s" % (date + (version, ".exe" if n.endswith(".exe") else ""))
			want.setdefault(name, []).append((data, kind == "tar"))
	if c["dest"] not in ("new", "deep"):
		os.makedirs(outd)
	keep = {}
	if c["dest"] in ("other", "rarfolder"):
		for n, d in {"other": (("2020-01-01_rar590", b"old"), ("notes.txt", b"mine")), "rarfolder": (("rar/notes.txt", b"mine"), ("rar/rar", b"my rar"))}[c["dest"]]:
			keep[n] = d
			write(os.path.join(outd, n), d)
		if c["dest"] == "rarfolder":
			keep["rar/"] = None
	if c["license"] != "none":
		keep[c["license"]] = b"the key"
		write(os.path.join(home, c["license"]), b"the key")
	before = tree(root)
	rin, rout = {"abs": (ind, outd), "rel": ("in", os.path.relpath(outd, root)), "slash": (ind + "/", "./" + os.path.relpath(outd, root) + "/")}[c["path"]]
	argv = [rin, rout] + (["-b"] if c["beta"] else [])
	for _k in range(2 if c["rerun"] == "yes" else 1):
		r, text = run(argv, root, c["order"], home)
		res.steps += 1
	after = tree(root)
	what = "%s (%s)" % (",".join(c["items"])[:200], ",".join("%s=%s" % (k, c[k]) for k in sorted(RUN) if c[k] != RUN[k][0]))
	res.outcome = "%s: %s" % (what, r)
	if r != 0:
		res.bad("exit", "%s: ended with %r" % (what, r))
	o = os.path.relpath(outd, root) + "/"
	got = dict((k[len(o):], v) for k, v in after.items() if k.startswith(o) and k != o)
	other = [k for k in sorted(set(before) | set(after)) if not k.startswith(o) and not o.startswith(k) and before.get(k, 0) != after.get(k, 0)]
	if other:
		res.bad("input", "%s: changed besides the output folder: %r" % (what, other))
	for n, options in want.items():
		if n not in got:
			res.bad("missing", "%s: no %s" % (what, n))
			continue
		d = got.pop(n)
		if d not in [x for x, _t in options]:
			res.bad("content", "%s: %s is not the executable of its installer" % (what, n))
		elif all(t for _x, t in options) and not os.access(os.path.join(outd, n), os.X_OK):
			res.bad("mode", "%s: %s can't be executed" % (what, n))
	for n, d in keep.items():
		if got.pop(n, 0) != d:
			res.bad("kept", "%s: %s was changed or isn't there" % (what, n))
	if got:
		res.bad("extra", "%s: also in the output folder: %r" % (what, sorted(got)))
	return res
