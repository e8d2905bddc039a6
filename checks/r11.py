"""R11: OpenSubtitles/ISDb hash of plain files, streams and packed files, and the hashes an SRR stores."""
import io
import itertools
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rescene, rmain, rutil, write, allow_overwrite, sfv_text
from rescene import osohash

PROPERTY = "R11"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of sizes, split positions, members and start volumes against an independent implementation of the published hash"
LEVEL_NOTE = ("Every size class around the 64 KiB windows, every pair of split positions from the window borders (thorough: dense ranges), several members and sets. Files stay below 400 KiB; "
	"two videos with the same path in one SRR and archives that mix compressed and stored members are out.")
RULE = "one evaluation = one hash computed by the real code and compared; outcomes are (kind, size, parts, members) classes"

W = 65536


def ref(data):
	"""the published algorithm, overlapping windows allowed"""
	h = len(data)
	for part in (data[:W], data[-W:]):
		h += sum(int.from_bytes(part[i:i + 8], "little") for i in range(0, W, 8))
	return "%016x" % (h & (2 ** 64 - 1))


def sizes(ctx):
	s = {W, W + 1, W + 7, W + 8, 100000, 2 * W - 1, 2 * W, 2 * W + 1, 2 * W + 9, 3 * W + 5}
	if ctx.thorough:
		s |= set(range(W, W + 40)) | set(range(2 * W - 40, 2 * W + 40)) | {5 * W, 5 * W + 3}
	return sorted(s)


def marks(size, dense=False):
	m = {1, 7, 8, 9, size - 1, size - 8, size // 2}
	for c in (W, size - W, 2 * W):
		m |= {c - 1, c, c + 1}
		if dense:
			m |= set(range(c - 12, c + 13))
	return sorted(x for x in m if 0 < x < size)


def cases(ctx):
	out = []
	for s in sorted(set(sizes(ctx)) | set(range(W, W + ctx.pick(16, 70)))):
		for fill in ("rand", "zero", "ones", "wrap", "top"):
			out.append({"k": "plain", "size": s, "fill": fill})
	for s in (0, 1, 7, 8, 1000, W - 9, W - 1):
		out.append({"k": "small", "size": s})
	for s in (sizes(ctx) if not ctx.thorough else [W, W + 1, 100000, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W + 5]):
		ms = marks(s, ctx.thorough)
		for a in ms:
			out.append({"k": "rar", "size": s, "cuts": [a], "naming": "new"})
			out.append({"k": "rar", "size": s, "cuts": [a], "naming": "old"})
		ms2 = marks(s)
		for a, b in itertools.combinations(ms2, 2):
			out.append({"k": "rar", "size": s, "cuts": [a, b], "naming": "old"})
		if ctx.thorough:
			for c in itertools.combinations([x for x in ms2 if x not in (7, 9)], 3):
				out.append({"k": "rar", "size": s, "cuts": list(c), "naming": "new"})
	exts = [".avi", ".MKV", ".mp4", ".m2ts", ".nfo", ".txt", ""]
	pos = ["one", "first", "middle", "last", "late", "sub"]
	for ext in exts:
		for p in pos:
			for size in (W - 1, W, 2 * W + 3):
				for via in ("rar", "sfv"):
					for oso in (True, False):
						out.append({"k": "srr", "ext": ext, "pos": p, "size": size, "via": via, "oso": oso})
	for sets in (2, 3):
		for same in ("vol", "no"):
			out.append({"k": "sets", "n": sets, "same": same})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes))


def data_of(tag, size, fill):
	if fill in ("wrap", "top"):   # sums to 2**64 or just below, with the last word read
		rest = bytes(size - 8)
		return rest + ((2 ** 64 - size - (fill == "top")) if size >= W + 8 else 2 ** 63 - size // 2 - 1).to_bytes(8, "little")
	return rs.payload(tag, size) if fill == "rand" else (b"\0" if fill == "zero" else b"\xff") * size


def run_case(case):
	res = core.Result()
	root = core.scratch()
	k = case["k"]

	def same(what, got, data):
		res.steps += 1
		if tuple(got) != (ref(data), len(data)):
			res.bad(k, "%s: %r, expected %r" % (what, got, (ref(data), len(data))))
	if k == "plain":
		data = data_of("p%d" % case["size"], case["size"], case["fill"])
		p = write(os.path.join(root, "f.avi"), data)
		same("file", osohash.compute_hash(p), data)
		same("stream", osohash.compute_hash(io.BytesIO(data)), data)
		with open(p, "rb") as f:
			same("handle", osohash.compute_hash(f), data)
		res.outcome = "plain %d %s" % (case["size"], case["fill"])
	elif k == "small":
		data = rs.payload("s", case["size"])
		p = write(os.path.join(root, "f.avi"), data)
		res.steps += 1
		try:
			got = osohash.compute_hash(p)
			res.bad("small", "a hash for %d bytes: %r" % (case["size"], got))
		except ValueError:
			pass
		res.outcome = "small"
	elif k == "rar":
		m = [rs.Member("d\\v.avi", case["size"]), rs.Member("v.avi", W + 77)]
		vols = rs.build_set(m, [(0, c) for c in case["cuts"]], naming=case["naming"])
		for v in vols:
			write(os.path.join(root, v.name), v.bytes())
		first = os.path.join(root, vols[0].name)
		last = os.path.join(root, vols[-1].name)
		same("first file", osohash.osohash_from(first), m[0].data)
		same("by name", osohash.osohash_from(first, "d/v.avi"), m[0].data)
		same("second", osohash.osohash_from(first, "v.avi"), m[1].data)
		same("from the middle", osohash.osohash_from(last, "v.avi", True), m[1].data)
		res.outcome = "rar %d %d" % (case["size"], len(vols))
	elif k == "srr":
		v = rs.Member(("dir\\" if case["pos"] == "sub" else "") + "video" + case["ext"], case["size"])
		small = [rs.Member("a.txt", 50), rs.Member("b.txt", 60)]
		n = case["size"]
		ms, cuts = {"one": ([v], []), "sub": ([v], [(0, n // 2)]), "first": ([v] + small, [(0, 5)]), "last": (small + [v], [(2, n - 5)]),
			"middle": ([small[0], v, small[1]], [(1, 9), (1, n - 9)]), "late": (small + [v], [(1, 0), (2, 0), (2, 100)])}[case["pos"]]
		vols = rs.build_set(ms, cuts, naming="new")
		want = []
		if case["oso"] and case["ext"].lower() in (".avi", ".mkv", ".mp4", ".m2ts") and n >= W:
			want = [("video" + case["ext"], ref(v.data), n)]
		stored(res, root, [("", vols)], case["via"], case["oso"], want)
		res.outcome = "srr %s %s %d %s" % (case["ext"], case["pos"], n, case["oso"])
	else:
		sets, want = [], []
		for i in range(case["n"]):
			v = rs.Member("video%d.avi" % i, W + 100 * i + 3)
			sets.append(("CD%d/" % i, rs.build_set([v], [(0, 40 + i)], base="rel" if case["same"] == "vol" else "rel%d" % i)))
			want.append(("video%d.avi" % i, ref(v.data), len(v.data)))
		stored(res, root, sets, "sfv", True, want)
		res.outcome = "sets %d %s" % (case["n"], case["same"])
	return res


def stored(res, root, sets, via, oso, want):
	allow_overwrite(True)
	infiles = []
	for pre, vols in sets:
		for v in vols:
			write(os.path.join(root, "in", pre + v.name), v.bytes())
		if via == "sfv":
			infiles.append(write(os.path.join(root, "in", pre + "x.sfv"), sfv_text([(v.name, rs.crc32(v.bytes())) for v in vols])))
		else:
			infiles.append(os.path.join(root, "in", pre + vols[0].name))
	srr = os.path.join(root, "x.srr")
	rmain.create_srr(srr, infiles, os.path.join(root, "in"), [], True, False, oso)
	res.steps += 1
	with open(srr, "rb") as f:
		parse = rs.SrrParse(f.read())
	if parse.error:
		res.bad("srr", "unreadable SRR: %s" % parse.error)
	got = [(n, h, s) for n, s, h in parse.oso]
	if got != want:
		res.bad("stored", "stored hashes %r, expected %r" % (got, want))
	got = [tuple(x) for x in rmain.info(srr)["oso_hashes"]]
	if got != want:
		res.bad("read", "reported hashes %r, expected %r" % (got, want))
