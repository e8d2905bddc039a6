"""R06: names in an SRR never lead outside the output folder."""
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rmain, write, read, tree

PROPERTY = "R06"
UNPRIVILEGED = True
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of path-element sequences through every extraction entry point, with a before/after snapshot of everything around the output folder"
LEVEL_NOTE = ("All sequences of up to 3 (thorough: 4) path elements, incl. traversal, empty, dot, absolute and drive-like ones, joined with either separator, as stored file and as volume name, "
	"for extraction (all, by name, by pattern), reconstruction and the srr command; and all pairs of conflicting names. POSIX paths only (the code under Windows is out), no symbolic links in the output folder.")
RULE = "one evaluation = one extraction or reconstruction of one SRR; outcomes are (entry point, output folder form, name class, result)"

ELEMS = ["a", "..", ".", "", "b c", "C:", "...", "\u00e9", "~", "..a"]
SMALL = ["a", "..", ".", "b"]
RAW = [b"\xff\xfe/../a", b"..\x00/a", b"a\x00b", b"\xc0\xae\xc0\xae/a", b"a\n", b"..\r/a", b"\xe2\x80\xa4\xe2\x80\xa4/a", b"%2e%2e/a", b"a:b", b"a*?", b"-rf"]


def names(ctx):
	seen = set()
	for n in range(1, ctx.pick(3, 4) + 1):
		for t in itertools.product(ELEMS if n < 4 else ELEMS[:7], repeat=n):
			for sep in ("/", "\\"):
				s = sep.join(t)
				if s not in seen:
					seen.add(s)
					yield s
	for n in range(3, ctx.pick(4, 5) + 1):
		for t in itertools.product(SMALL, repeat=n):
			for seps in itertools.product("/\\", repeat=n - 1):
				s = "".join(x + y for x, y in zip(t, seps + ("",)))
				if s not in seen:
					seen.add(s)
					yield s
	for s in ("{ROOT}/a", "{ROOT}\\a", "/{ROOT}/a", "a/{ROOT}/a", "\\\\{ROOT}/a", "{ROOT}/t1/../a", "{ROOT}/t1/t2/t3/out2/a", "../out2/a", "../outx"):
		yield s


def explore(ctx):
	ns = list(names(ctx))
	cs = [{"k": "one", "names": ns[i:i + 12]} for i in range(0, len(ns), 12)]
	cs += [{"k": "raw", "raw": r.hex()} for r in RAW]
	base = ["a", "a/a", "a/b", "A", "a/../a", "..", "../a", "a/", "b", "a\\a", "./a", "a/."]
	pairs = list(itertools.product(base, repeat=2))
	cs += [{"k": "pair", "names": list(p)} for p in pairs]
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, names=len(ns), distinct_nontrivial=len(ctx.outcomes))


def plain(name):
	parts = name.replace("\\", "/").split("/")
	return parts if all(p not in ("", ".", "..") and "\0" not in p for p in parts) else None


VOL = rs.build_set([rs.Member("s.bin", 10)], [], "old", "rel")[0]


def run_case(case):
	res = core.Result()
	root = core.scratch()
	outs = {}
	if case["k"] == "raw":
		lst = [[bytes.fromhex(case["raw"])]]
	elif case["k"] == "pair":
		lst = [case["names"]]
	else:
		lst = [[n] for n in case["names"]]
	for ns in lst:
		enc = [n.replace("{ROOT}", root).encode("utf-8") if isinstance(n, str) else n for n in ns]
		for what in ("stored", "rar"):
			one(res, root, case, ns, enc, what, outs)
	res.outcome = ",".join("%s=%d" % kv for kv in sorted(outs.items()))
	return res


def raw_stored(n, d):
	import struct
	return struct.pack("<HBHHIH", 0x6a6a, 0x6a, 0x8000, 13 + len(n), len(d), len(n)) + n + d


def raw_rar(n):
	import struct
	return struct.pack("<HBHHH", 0x7171, 0x71, 1, 9 + len(n), len(n)) + n


def one(res, root, case, ns, enc, what, outs):
	base = os.path.join(root, "t1", "t2", "t3")
	datas = [b"data of stored file %d" % i for i in range(len(enc))]
	srr = rs.srr_header("x")
	if what == "stored":
		srr += b"".join(raw_stored(n, d) for n, d in zip(enc, datas))
		entries = ["all", "name", "match", "recon", "cli"]
	else:
		srr += b"".join(raw_rar(n) + VOL.srr_meta() for n in enc)
		entries = ["recon"]
	for entry in entries:
		for paths in ((True, False) if entry in ("all", "recon") else (True,)):
			for form in (("abs", "rel", "slash", "new", "cwd") if entry in ("all", "recon") and paths else ("abs",)):
				core._empty(root)
				cwd = os.path.join(base, "cwd")
				os.makedirs(cwd)
				out = os.path.join(base, "out") if form != "cwd" else cwd
				if form not in ("new", "cwd"):
					os.mkdir(out)
				if case["k"] == "pair":
					write(os.path.join(out, "b"), b"was here")
				for d in (root, os.path.join(root, "t1"), os.path.join(root, "t1", "t2"), base):
					for f in ("a", "b c", "..a", "b"):
						write(os.path.join(d, f), b"outside")
				write(os.path.join(base, "in", "s.bin"), rs.Member("s.bin", 10).data)
				f = write(os.path.join(base, "in", "x.srr"), srr)
				os.chdir(cwd)
				arg = {"abs": out, "rel": os.path.join("..", "out"), "slash": out + "/", "new": out, "cwd": "."}[form]
				before = snap(root, out)
				rmain.can_overwrite = lambda p: True
				rec = None
				try:
					if entry == "all":
						rec = rmain.extract_files(f, arg, paths)
					elif entry == "name":
						rec = rmain.extract_files(f, arg, paths, enc[0].decode("utf-8", "replace").replace("\\", "/"))
					elif entry == "match":
						rec = rmain.extract_files(f, arg, paths, matcher=lambda n: True)
					elif entry == "cli":
						import types
						from rescene import srr as cli
						o = types.SimpleNamespace(output_dir=arg, paths=True, list_info=False, list_details=False, verify=False,
							extract=True, extract_regex=None, parent=False, store_files=None)
						cli.manage_srr(o, os.path.join(base, "in"), [f], cwd)
					else:
						rmain.reconstruct(f, os.path.join(base, "in"), arg, paths)
					err = None
				except (ValueError, EnvironmentError) as e:
					err = type(e).__name__
				except (AttributeError, AssertionError) as e:
					err = type(e).__name__
				finally:
					os.chdir(root)
				res.steps += 1
				after = snap(root, out)
				tag = "%s %s paths=%s out=%s names=%r" % (entry, what, paths, form, ns)
				if after != before:
					res.bad("escape:" + entry, "%s: changed outside the output folder: %s" % (tag,
						sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))[:4]))
				cls = "raw"
				got = tree(out) if os.path.isdir(out) else {}
				if case["k"] == "one":
					p = plain(ns[0]) if "{ROOT}" not in ns[0] else None
					cls = "plain" if p else "odd"
					if p:
						want = "/".join(p) if paths else p[-1]
						data = datas[0] if what == "stored" else VOL.bytes()
						if err or got.get(want) != data:
							res.bad("plain:" + entry, "%s: not at %r (%s; %s)" % (tag, want, err, sorted(got)[:4]))
						files = [k for k, v in got.items() if v is not None]
						if len(files) != 1:
							res.bad("extra:" + entry, "%s: gave %r" % (tag, files))
				k = "%s/%s/%s/%s/%s" % (what, entry, form, cls, err or "ok")
				outs[k] = outs.get(k, 0) + 1


def snap(root, out):
	o = os.path.relpath(out, root)
	return dict((k, v) for k, v in tree(root).items() if not (k.rstrip("/") + "/").startswith(o + "/"))
