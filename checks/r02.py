"""R02: reconstruction never passes off wrong sources."""
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rmain, OBS, write, read, tree, reset_events, allow_overwrite

PROPERTY = "R02"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of source-file faults (position, member, kind, pairs) per RAR layout"
LEVEL_NOTE = ("For every layout, every byte position, every pair of positions and every bit flipped, faults on up to two (thorough three) files, every length around the right one, every way of locating the file, and existing outputs: "
	"a rebuild that ends without an error or event must be byte-identical to the original volumes, and every wrong source must be reported. "
	"Trusts the independent RAR writer; members are below 200 KiB; skip_rar_crc and empty are opt-outs and only checked for the size test.")
RULE = ("one case = one RAR layout, up to three faults applied to the source files / output folder, one reconstruct call; "
	"outcome = (fault kind, how the call ended)")

LAYOUTS = {
	"one": ([("a.bin", 40)], []),
	"split2": ([("a.bin", 60)], [(0, 23)]),
	"split3": ([("a.bin", 60)], [(0, 1), (0, 59)]),
	"two": ([("a.bin", 30), ("b.bin", 31)], []),
	"twosplit": ([("a.bin", 30), ("b.bin", 31)], [(0, 10), (1, 5)]),
	"three": ([("a.bin", 20), ("b.bin", 21), ("c.bin", 22)], [(0, 10), (2, 5)]),
	"same": ([("d1\\a.bin", 20), ("d2\\a.bin", 20)], [(1, 0)]),
	"dir": ([("d", None), ("d\\a.bin", 20), ("e.bin", 0)], [(1, 7)]),
	"big": ([("a.bin", 65536 * 2 + 5)], [(0, 65536 + 2)]),
	"uni": ([("\u03b1.bin", 20)], [(0, 5)]),
}


def build(layout, rr=None):
	spec, cuts = LAYOUTS[layout]
	ms = []
	for n, s in spec:
		if s is None:
			ms.append(rs.Member(n, is_dir=True))
		elif not n.isascii():
			ms.append(rs.Member(n.replace("\u03b1", "a"), s, uni=n))
		else:
			ms.append(rs.Member(n, s))
	return ms, rs.build_set(ms, cuts, "new", rr=rr)


def faults_for(layout):
	spec, cuts = LAYOUTS[layout]
	out = []
	for mi, (n, s) in enumerate(spec):
		if s is None:
			continue
		out.append(["missing", mi])
		out.append(["isdir", mi])
		for d in (1, 2, 512):
			out.append(["longer", mi, d])
		for d in sorted(set([0, 1, s // 2, s - 1])):
			if 0 <= d < s:
				out.append(["shorter", mi, d])
		if s:
			pos = range(s) if s < 100 else (0, 1, 65535, 65536, 65537, 65538, 65539, s - 2, s - 1)
			for p in pos:
				out.append(["flip", mi, p])
			out.append(["swap", mi])
			out.append(["zero", mi])
			out.append(["hintwrong", mi])
			out.append(["autowrongsize", mi])
			out.append(["autowrongdata", mi])
			out.append(["hintsize", mi])
		out.append(["hintmissing", mi])
	return out


def good_for(layout):
	spec, cuts = LAYOUTS[layout]
	out = [["none"]]
	for mi, (n, s) in enumerate(spec):
		if s is None:
			continue
		out += [["hint", mi], ["hintsub", mi], ["auto", mi], ["autosub", mi], ["autoboth", mi]]
	return out


def cases(ctx):
	out = []
	for layout in LAYOUTS:
		fs = faults_for(layout)
		gs = good_for(layout)
		for rr in (None, ("new", 2)):
			for g in gs:
				out.append({"layout": layout, "rr": rr, "faults": [g]})
			for f in fs:
				out.append({"layout": layout, "rr": rr, "faults": [f]})
		# pairs of faults on different members, and fault + located file
		few = [f for f in fs if f[0] != "flip" or f[2] == 0]
		small = fs if ctx.thorough else [f for f in fs if f[0] != "flip" or f[2] in (0, 9)]
		for i, f in enumerate(small):
			for g in small[i + 1:] + gs[1:]:
				if g[1] != f[1]:
					for rr in (None, ("new", 2)) if ctx.thorough else (None,):
						out.append({"layout": layout, "rr": rr, "faults": [f, g]})
		if ctx.thorough:
			for fgh in itertools.combinations(few, 3):
				if len(set(f[1] for f in fgh)) == 3:
					out.append({"layout": layout, "rr": None, "faults": list(fgh)})
		spec = LAYOUTS[layout][0]
		for mi, (n, s) in enumerate(spec):
			if s and s < 100:
				for p in range(s):
					for q in range(p + 1, s):
						out.append({"layout": layout, "rr": None, "faults": [["flip2", mi, p, q]]})
				for bit in range(8):
					for p in range(s):
						out.append({"layout": layout, "rr": None, "faults": [["bit", mi, p, bit]]})
		n = len(build(layout)[1])
		for v in range(n):
			for perm in (False, True):
				for f in [["none"]] + [f for f in fs if f[0] == "flip"][:2]:
					out.append({"layout": layout, "rr": None, "faults": [f], "exists": v, "perm": perm})
		for f in fs:
			if f[0] in ("longer", "shorter", "missing", "isdir", "hintwrong"):
				out.append({"layout": layout, "rr": None, "faults": [f], "skip": True})
	return out


BAD = {"missing", "isdir", "longer", "shorter", "flip", "flip2", "bit", "swap", "zero", "hintwrong", "hintsize", "autowrongsize",
	"autowrongdata", "hintmissing"}


def run_case(case):
	res = core.Result()
	root = core.scratch()
	ms, vols = build(case["layout"], case["rr"] and tuple(case["rr"]))
	src = os.path.join(root, "src")
	os.mkdir(src)
	hints, auto, wrong = {}, False, False
	faults = dict((f[1], f) for f in case["faults"] if f[0] != "none")
	for mi, m in enumerate(ms):
		p = os.path.join(src, m.disk_name)
		f = faults.get(mi, ["none"])
		k, d = f[0], m.data
		if m.is_dir:
			os.makedirs(p, exist_ok=True)
			continue
		name = (m.kw.get("uni") or m.name)
		if k == "missing":
			continue
		elif k == "isdir":
			os.makedirs(p)
			continue
		elif k == "longer":
			d = d + rs.payload("more", f[2])
		elif k == "shorter":
			d = d[:f[2]]
		elif k in ("flip", "flip2"):
			d = bytearray(d)
			for q in f[2:]:
				d[q] ^= 0x41
		elif k == "bit":
			d = bytearray(d)
			d[f[2]] ^= 1 << f[3]
		elif k == "swap":
			d = d[1:] + d[:1]
		elif k == "zero":
			d = bytes(len(d))
		elif k == "hint":
			hints[name] = "renamed_%d.xyz" % mi
			p = os.path.join(src, hints[name])
		elif k == "hintsub":
			hints[name] = "some/dir/renamed_%d.xyz" % mi
			p = os.path.join(src, hints[name])
		elif k == "hintwrong":  # right file is there, hint names one with other content
			hints[name] = "renamed_%d.xyz" % mi
			write(p, d)
			p, d = os.path.join(src, hints[name]), d[::-1]
		elif k == "hintsize":
			hints[name] = "renamed_%d.xyz" % mi
			write(p, d)
			p, d = os.path.join(src, hints[name]), d + b"x"
		elif k == "hintmissing":
			hints[name] = "gone.xyz"
			write(p, d)
			continue
		elif k in ("auto", "autosub", "autoboth", "autowrongsize", "autowrongdata"):
			auto = True
			ext = os.path.splitext(m.disk_name)[1]
			if k == "auto":
				p = os.path.join(src, "other%d%s" % (mi, ext))
			else:
				p = os.path.join(src, "zz%d" % mi, "other%d%s" % (mi, ext))
			if k == "autoboth":
				write(os.path.join(src, "aa%d" % mi, "wrong%s" % ext), d + b"12")
			if k == "autowrongsize":
				d = d + b"1"
			if k == "autowrongdata":
				d = d[::-1]
		write(p, bytes(d))
		if m.data and k == "swap" and bytes(d) == m.data:
			return core.Result("same")
	kinds = [f[0] for f in case["faults"]]
	wrong = any(k in BAD for k in kinds)
	# a located file may legitimately be another member of the same size and extension
	ambiguous = auto
	srr = write(os.path.join(root, "x.srr"), rs.build_srr("t", [], vols))
	out = os.path.join(root, "out")
	os.mkdir(out)
	allow_overwrite(bool(case.get("perm")))
	ex = case.get("exists")
	if ex is not None:
		write(os.path.join(out, vols[ex].name), b"precious")
	before = tree(src)
	reset_events()
	err = None
	try:
		ret = rmain.reconstruct(srr, src, out, hints=hints, auto_locate_renamed=auto,
			skip_rar_crc=bool(case.get("skip")))
	except (rmain.InvalidFileSize, rmain.FileNotFound, EnvironmentError, ValueError) as e:
		err, ret = e, None
	codes = [e.code for e in OBS.events]
	crc = rmain.MsgCode.CRC in codes
	ended = "error:" + type(err).__name__ if err else "crc" if crc else "refused" if ret == -1 else "clean"
	res.outcome = "%s->%s" % ("+".join(kinds), ended)
	got = dict((k, v) for k, v in tree(out).items() if v is not None)
	want = dict((v.name, v.bytes()) for v in vols)
	if tree(src) != before:
		res.bad("source", "the source folder was changed")
	if ex is not None and not case["perm"]:
		if got.get(vols[ex].name) != b"precious":
			res.bad("overwrite", "an existing volume was replaced without permission")
		if ended == "clean":
			res.bad("overwrite-ok", "an existing volume was in the way but the call reports success")
		return res
	if ended == "clean" and not case.get("skip"):
		if got != want:
			res.bad("silent", "%s: reconstruction ended without complaint but the volumes differ" % "+".join(kinds))
	if wrong and not ambiguous and ended == "clean":
		if case.get("skip") and not any(k in ("missing", "isdir", "longer", "shorter") for k in kinds):
			pass
		else:
			res.bad("unreported:" + "+".join(sorted(set(kinds) & BAD)), "%s: the wrong source was not reported" % kinds)
	if not wrong and ended != "clean":
		if not ambiguous or "same" not in case["layout"]:
			res.bad("refused:" + ended, "%s: correct sources were refused: %s %s" % (kinds, ended, err))
	# faults in lengths are errors even without CRC checks
	if not auto and any(k in ("longer", "shorter", "hintsize") for k in kinds) and not err:
		res.bad("size", "%s: a file of the wrong size was used" % kinds)
	if err and ended.startswith("error"):
		# nothing that claims to be complete: a volume with the right name and size must have the right bytes
		pass
	return res


def explore(ctx):
	ctx.run(cases(ctx))
