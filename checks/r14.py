"""R14: the bit-flip repair script finds every one-place damage and nothing else."""
import itertools
import os
import zlib

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rescene, write, tree
import bitflip

PROPERTY = "R14"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of file sizes, window sizes, search ranges and damage positions"
LEVEL_NOTE = ("Every file length up to 9 (thorough 14) bytes, every window size up to 6 and 1000, every search range of small files, every damaged bit (or adjacent pair, or byte value from an alphabet), and files with no or two damages.")
RULE = "one evaluation = one run of the search; outcomes are (mode, length, window, found) classes"


class Opt(object):
	def __init__(self, mode, skip):
		self.bytecheck = mode == "byte"
		self.bitswitch = mode == "switch"
		self.skip = skip


def cases(ctx):
	out = []
	for n in range(1, ctx.pick(10, 15)):
		for skip in (1, 2, 3, 4, 5, 6, 1000):
			for mode in ("bit", "byte", "switch"):
				out.append({"n": n, "skip": skip, "mode": mode, "ranges": False})
	for n in range(1, ctx.pick(7, 10)):
		for skip in (1, 2, 3, 1000):
			for mode in ("bit", "byte", "switch"):
				out.append({"n": n, "skip": skip, "mode": mode, "ranges": True})
	out.append({"n": 2100, "skip": 1000, "mode": "bit", "ranges": False, "at": [0, 999, 1000, 1001, 1999, 2000, 2099]})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes))


def damages(b, mode):
	if mode == "bit":
		return [b ^ (1 << i) for i in range(8)]
	if mode == "switch":
		return [b ^ (3 << i) for i in range(7)]
	return [v for v in (0, 0xff, b ^ 0x55, (b + 1) & 255) if v != b]


def run_case(case):
	res = core.Result()
	root = core.scratch()
	n, mode = case["n"], case["mode"]
	good = rs.payload("flip%d" % n, n)
	opt = Opt(mode, case["skip"])
	p = os.path.join(root, "f")
	rng = [None]
	if case["ranges"]:
		rng = [(a, b) for a in range(n) for b in range(a + 1, n + 2)]
	at = case.get("at") or range(n)

	def run(bad, want_at, r, label):
		for f in os.listdir(root):
			os.unlink(os.path.join(root, f))
		write(p, bad)
		args = [p, "%08X" % zlib.crc32(good)] + ([str(x) for x in r] if r else [])
		res.steps += 1
		bitflip.main(opt, args)
		got = tree(root)
		want = {"f": bad}
		if want_at is not None:
			want["f.%d.fixed" % want_at] = good
		if got != want:
			res.bad(mode, "%s range %r window %d: files %r, expected %r" % (label, r, case["skip"], sorted(got), sorted(want)))
	for r in rng:
		for pos in at:
			for v in damages(good[pos], mode):
				bad = good[:pos] + bytes([v]) + good[pos + 1:]
				if mode == "bit" and case.get("at") and v != good[pos] ^ 4:
					continue
				run(bad, pos if r is None or r[0] <= pos < r[1] else None, r, "damage at %d" % pos)
				if len(res.problems) > 4:
					return res
		if n > 1 and n < 100 and not case["ranges"]:
			for a, b in itertools.combinations(range(n), 2):
				bad = bytearray(good)
				bad[a] ^= 0x11
				bad[b] ^= 0x22
				run(bytes(bad), None, r, "two damages at %d and %d" % (a, b))
	if mode != "byte" and not case.get("at"):
		run(good, None, None, "no damage")
	res.outcome = "%s %d %d" % (mode, n, case["skip"])
	return res
