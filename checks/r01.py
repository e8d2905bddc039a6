"""R01: SRR round trip of store-mode RAR sets, byte for byte."""
import os

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations, full
from mc.rescenelib import rescene, rmain, rrar, OBS, write, read, tree, reset_events, sfv_text, allow_overwrite

PROPERTY = "R01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive deviation-bounded enumeration of RAR layouts against an independent RAR/SRR writer"
LEVEL_NOTE = ("Every combination of at most 3 (quick) or 4 (thorough) departures from a plain volume set, every cut position, "
	"recovery-sector alignment and volume count listed is created, turned into an SRR and rebuilt by the real code. "
	"Trusts the independent RAR writer (its recovery records are checked against WinRAR's); files stay below 200 KiB, RAR 5 and compressed members are out.")
RULE = ("one case = one RAR set written byte by byte by an independent writer, turned into an SRR and "
	"reconstructed by the real code; all combinations of at most k departures from the plain layout over "
	"naming, member layout, header flags, recovery record, end block, padding, comments, input kind and paths; "
	"an outcome is the tuple (block kinds present, volumes, SRR size class) of a successful comparison")

LOOK = (rs.MARK + rs.archive(1).head + rs.end_block("bare", False, 0, 0).head +
	rs.srr_rarfile("x.rar") + rs.srr_header("app"))

# name, size or "look", dir
LAYOUTS = {
	"one": ([("a.bin", 700)], []),
	"split2": ([("a.bin", 900)], [(0, 333)]),
	"split3": ([("a.bin", 2000)], [(0, 512), (0, 1500)]),
	"two": ([("a.bin", 300), ("b.dat", 400)], []),
	"twovol": ([("a.bin", 300), ("b.dat", 400)], [(1, 0)]),
	"twosplit": ([("a.bin", 600), ("b.dat", 700)], [(0, 100), (1, 1)]),
	"dirlast": ([("sub\\a.bin", 40), ("sub", None)], []),
	"dirfirst": ([("sub", None), ("sub\\a.bin", 900)], [(1, 2)]),
	"onlydir": ([("sub", None)], []),
	"empty": ([("e.bin", 0)], []),
	"emptymix": ([("a.bin", 10), ("e.bin", 0), ("c.bin", 1)], []),
	"emptyvol": ([("e.bin", 0), ("a.bin", 50)], [(1, 20)]),
	"dirempty": ([("d", None), ("e.bin", 0), ("d2", None), ("z.bin", 77)], [(3, 70)]),
	"samebase": ([("s1\\a.bin", 90), ("s2\\a.bin", 91)], [(1, 0)]),
	"look": ([("a.bin", "look")], []),
	"looksplit": ([("a.bin", "look")], [(0, 7), (0, 20)]),
	"k64": ([("a.bin", 65536)], []),
	"k64p": ([("a.bin", 65537), ("b.bin", 3)], [(0, 65536)]),
	"k128": ([("a.bin", 131073)], [(0, 65535)]),
	"three": ([("a.bin", 5), ("b.bin", 6), ("c.bin", 7)], [(0, 4), (1, 3), (2, 1)]),
	"video": ([("a.avi", 131072 + 9)], [(0, 70000)]),
	"videosmall": ([("a.avi", 1000)], [(0, 600)]),
}
FLAGS = {
	"": {},
	"large": {"large": True},
	"nolong": {"nolong": True},
	"uni": {"uni": True},
	"utf8": {"utf8": True},
	"ext2": {"ext": b"\x00\x80"},
	"ext5": {"ext": b"\x00\xb0\x01\x02\x03"},
	"extall": {"ext": b"\x9b\xb9" + b"\1\2\3" + b"\x51\x8a\x6b\x3c\5" + b"\x51\x8a\x6b\x3c\6" + b"\x51\x8a\x6b\x3c\7\x08\x09"},
	"ext0": {"ext": b""},
	"salt": {"salt": b"12345678"},
	"ver": {"flags": 0x0800},
	"solid": {"flags": 0x0010},
	"dict4096": {"flags": 0x00c0},
	"unix": {"os_": 3, "attr": 0x81a4, "ver": 29},
	"extra": {"extra": b"\xde\xad\xbe\xef\x00"},
	"skip": {"flags": 0x4000},
	"largeuni": {"large": True, "uni": True, "ext": b"\x00\xb0\x01\x02\x03"},
	"time0": {"dtime": 0},
}
DIMS = {
	"layout": list(LAYOUTS),
	"naming": ["new", "old", "num", "new2"],
	"flags": list(FLAGS),
	"rr": [None, ("new", 1), ("new", 4), ("old", 1), ("old", 3)],
	"end": ["full", "bare", "none", "zero", "gvd26", "crcnum"],
	"pad": [b"", b"\0", b"\0" * 6, b"\0" * 7, b"abcdefgh" * 3, rs.MARK + rs.archive(1).head,
		rs.file_block("x", b"zz", 2, 1).head],
	"cmt": [None, "cmt", "cmtstore", "oldcmt", "av", "oldav", "oldsub", "sign", "acl", "cmt0", "unk", "cmtlarge"],
	"input": ["rar", "sfv", "sfvcaps"],
	"paths": ["none", "sub", "deep"],
	"base": ["rel", "re l [x] 1", "\xe9t\xe9", "REL.Upper", "a.part1x"],
	"arch": [0, 0x0008, 0x0004, 0x0020],
	"compressed": [False, True],
	"noosort": [True, False],
}


def members_of(case, flags):
	spec, cuts = LAYOUTS[case["layout"]]
	out = []
	for i, (name, size) in enumerate(spec):
		kw = dict(FLAGS[flags])
		if kw.pop("uni", None):
			kw["uni"] = name.replace("a.", "\u03b1\xe9.").replace("b.", "\u65e5.")
		if kw.pop("utf8", None):
			kw["utf8"] = name.replace("a.", "\u03b1\xe9.").replace("b.", "\u65e5.")
		if size is None:
			kw.pop("salt", None)
			out.append(rs.Member(name, is_dir=True, **kw))
		elif size == "look":
			out.append(rs.Member(name, data=LOOK * 3, **kw))
		else:
			out.append(rs.Member(name, size, **kw))
	return out, cuts


def cases(ctx):
	def ok(d):
		if d.get("end") in ("none", "zero") and d.get("pad"):
			return False
		return True
	out = []
	for d in deviations(DIMS, ctx.pick(3, 4), ok):
		c = dict((k, v.hex() if isinstance(v, bytes) else v) for k, v in full(DIMS, d).items())
		c["kind"] = "dev"
		out.append(c)
	ctx.cover["deviation_bound"] = ctx.pick(3, 4)
	# every RR sector alignment: the protected length takes every value mod 512
	for size in range(1, ctx.pick(560, 1600)):
		for rr in ((("new", 3),) if not ctx.thorough else (("new", 3), ("old", 2))):
			out.append({"kind": "rrsize", "size": size, "rr": rr})
	# every volume count across the naming roll-overs
	for naming in ("new", "old", "num", "new2"):
		counts = list(range(1, 14)) + [99, 100, 101, 102, 103]
		if naming == "old":
			counts += [201, 202, 203, 401]
		if naming == "new2":
			counts = [c for c in counts if c < 100]
		for n in counts:
			out.append({"kind": "count", "naming": naming, "n": n})
	# every cut position of a short file (data may sit anywhere)
	for n in range(1, ctx.pick(40, 130)):
		for c in range(1, n):
			out.append({"kind": "cut", "n": n, "cuts": [c]})
	for n in range(3, ctx.pick(10, 18)):
		for a in range(1, n):
			for b in range(a + 1, n):
				out.append({"kind": "cut", "n": n, "cuts": [a, b]})
	# several sets in one SRR
	for names in (("m1.bin", "m2.bin"), ("m.bin", "m.bin")):
		for split in ((), (50,)):
			for paths in (False, True):
				for via in ("sfv", "rar"):
					for k in (2, 3):
						out.append({"kind": "sets", "names": names, "split": split, "paths": paths, "via": via, "k": k})
	return out


def compare(res, root, volumes, sources, infiles, in_folder, save_paths, prefix, stored, compressed=False,
		oso_hash=True, oso=()):
	srr = os.path.join(root, "out.srr")
	reset_events()
	ret = rmain.create_srr(srr, infiles, in_folder, [], save_paths, compressed, oso_hash)
	if ret is not True:
		res.bad("create", "creating the SRR returned %r" % (ret,))
		return
	data = read(srr)
	p = rs.SrrParse(data)
	if p.error:
		res.bad("format", "the SRR is malformed: %s" % p.error)
	exp = b"".join(rs.srr_rarfile(pr + v.name) + v.srr_meta() for pr, v in zip(prefix, volumes))
	exp += b"".join(rs.srr_oso(*o) for o in oso)
	if p.rest != exp and not p.error:
		res.bad("metadata", "the SRR's RAR metadata is not the volumes' headers (%d bytes, expected %d)" % (len(p.rest), len(exp)))
	if [s for s in p.stored] != stored:
		res.bad("stored", "stored files differ: %r" % [s[0] for s in p.stored])
	if p.app != rescene.APPNAME:
		res.bad("app", "application name %r" % p.app)
	for n, d in sources:
		if len(d) >= 24 and d[5:25] in data:
			res.bad("leak", "the SRR holds packed data of %s" % n)
	before = tree(os.path.join(root, "src"))
	out = os.path.join(root, "reb")
	os.mkdir(out)
	reset_events()
	ret = rmain.reconstruct(srr, os.path.join(root, "src"), out)
	if ret not in (None, True):
		res.bad("ret", "reconstruct returned %r" % (ret,))
	codes = [e.code for e in OBS.events]
	for c in (rmain.MsgCode.CRC, rmain.MsgCode.UNKNOWN, rmain.MsgCode.UNSUPPORTED_FLAG, rmain.MsgCode.USER_ABORTED):
		if c in codes:
			res.bad("event%d" % c, "reconstruct reports a problem for correct sources: %s" %
				[e.message for e in OBS.events if e.code == c][:2])
	got = dict((k, v) for k, v in tree(out).items() if v is not None)
	want = dict((pr + v.name, v.bytes()) for pr, v in zip(prefix, volumes))
	for n, d in stored:
		want[n] = d
	if sorted(got) != sorted(want):
		res.bad("names", "rebuilt files %r, expected %r" % (sorted(got)[:6], sorted(want)[:6]))
	for n in want:
		if n in got and got[n] != want[n]:
			a, b = got[n], want[n]
			i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
			res.bad("bytes", "%s differs at offset %d (%d bytes, expected %d)" % (n, i, len(a), len(b)))
	if tree(os.path.join(root, "src")) != before:
		res.bad("source", "the source folder was changed")
	return data


def run_case(case):
	root = core.scratch()
	allow_overwrite(False)
	res = core.Result()
	kind = case["kind"]
	os.mkdir(os.path.join(root, "src"))
	indir = os.path.join(root, "in")
	os.mkdir(indir)
	oso = []
	if kind == "sets":
		vols, prefix, infiles, stored = [], [], [], []
		srcs = {}
		for i in range(case["k"]):
			name = case["names"][i % 2]
			m = rs.Member(name, 120)
			srcs[m.disk_name] = m.data
			vs = rs.build_set([m], [(0, c) for c in case["split"]], "old", "set%d" % i)
			d = "CD%d" % (i + 1)
			pre = (d + "/") if case["paths"] else ""
			for v in vs:
				write(os.path.join(indir, d, v.name), v.bytes())
			vols += vs
			prefix += [pre] * len(vs)
			if case["via"] == "sfv":
				t = sfv_text([(v.name, rs.crc32(v.bytes())) for v in vs])
				infiles.append(write(os.path.join(indir, d, "s%d.sfv" % i), t))
				stored.append((pre + "s%d.sfv" % i, t))
			else:
				infiles.append(os.path.join(indir, d, vs[0].name))
		for n, d in srcs.items():
			write(os.path.join(root, "src", n), d)
		compare(res, root, vols, sorted(srcs.items()), infiles, indir, case["paths"], prefix, stored)
		res.outcome = "sets%d" % len(vols)
		return res
	if kind == "dev":
		c = case
		members, cuts = members_of(c, c["flags"])
		kw = dict(naming=c["naming"], base=c["base"], rr=c["rr"] and tuple(c["rr"]),
			end=None if c["end"] == "none" else c["end"], pad=bytes.fromhex(c["pad"]), cmt=c["cmt"],
			arch_flags=c["arch"])
		inp, paths, compressed, oso_on = c["input"], c["paths"], c["compressed"], c["noosort"]
	elif kind == "rrsize":
		members, cuts = [rs.Member("a.bin", case["size"])], []
		kw = dict(naming="old", rr=tuple(case["rr"]))
		inp, paths, compressed, oso_on = "rar", "none", False, True
	elif kind == "count":
		n = case["n"]
		members, cuts = [rs.Member("a.bin", 3 * n)], [(0, 3 * i) for i in range(1, n)]
		kw = dict(naming=case["naming"])
		inp, paths, compressed, oso_on = ("rar" if n % 2 else "sfv"), "none", False, True
	elif kind == "cut":
		members, cuts = [rs.Member("a.bin", case["n"])], [(0, x) for x in case["cuts"]]
		kw = dict(naming="new")
		inp, paths, compressed, oso_on = "rar", "none", False, True
	vols = rs.build_set(members, cuts, **kw)
	sub = {"none": "", "sub": "CD1", "deep": "a b/CD1"}[paths]
	for v in vols:
		write(os.path.join(indir, sub, v.name), v.bytes())
	srcs = []
	for m in members:
		if m.is_dir:
			os.makedirs(os.path.join(root, "src", m.disk_name), exist_ok=True)
		else:
			write(os.path.join(root, "src", m.disk_name), m.data)
			srcs.append((m.disk_name, m.data))
	save = paths != "none"
	pre = sub + "/" if sub else ""
	stored = []
	if inp == "rar":
		infiles = [os.path.join(indir, sub, vols[0].name)]
	else:
		names = [v.name for v in vols]
		if inp == "sfvcaps":
			names = [n.lower() for n in names]
		t = sfv_text([(n, rs.crc32(v.bytes())) for n, v in zip(names, vols)])
		infiles = [write(os.path.join(indir, sub, "rel.sfv"), t)]
		stored = [(pre + "rel.sfv", t)]
	if oso_on:
		seen = set()
		for m in members:
			h = None if m.is_dir else rs.oso_hash(m.data)
			if h and m.disk_name.endswith(".avi") and m.disk_name not in seen:
				seen.add(m.disk_name)
				oso.append((os.path.basename(m.disk_name), len(m.data), h))
	compare(res, root, vols, srcs, infiles, indir, save, [pre] * len(vols), stored, compressed, oso_on, oso)
	res.outcome = "%s|%d|%s" % (kind, len(vols), ",".join(sorted(set(b.kind for v in vols for b in v.blocks))))
	if kind == "dev":
		res.outcome += "|" + ",".join("%s=%s" % (k, case[k]) for k in ("layout", "flags", "end"))
	return res


def explore(ctx):
	ctx.run(cases(ctx))
