"""S07: samples that are a stretch of a stream (VOB, MPEG, TS, M2TS) round trip."""
from mc import core
from mc.rarsyn import payload
from mc.deviate import deviations, full
from mc.resamplelib import Job, judge

PROPERTY = "S07"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of every position of a sample in the main stream around the reading block boundaries, and of deviation-bounded layouts, lengths and look-alikes, driven through the command line"
LEVEL_NOTE = ("Every place a sample can start at from 600 bytes before to 300 after each of the first three 64 KiB block boundaries, and every look-alike length there, for samples shorter and longer than a signature and a block, and every combination of at most 3 (thorough 5) departures "
	"over extension, contents, place, length, look-alikes and options, is profiled, stored and rebuilt by the real code and compared byte for byte. The unfinished M2TS track mode is disabled in the tool and out.")
RULE = "one evaluation = one sample turned into an SRS and rebuilt from a main file; outcomes are layout classes"

B = 65536
DIMS = {
	"ext": [".vob", ".mpeg", ".mpg", ".m2ts", ".ts", ".m2v", ".m2p", ".MPG", ".VOB"],
	"mext": ["same", ".bin", ".mpg"],
	"start": [1000, 0, 1, 255, 256, B - 257, B - 256, B - 255, B - 1, B, B + 1, 2 * B - 256, 2 * B - 100, 2 * B, 3 * B - 1, 200000],
	"len": [4000, 1, 14, 100, 255, 256, 257, B - 1, B, B + 1, 2 * B + 5, 300000],
	"tail": [500, 0, 1, 70000],
	"content": ["pack", "sync", "zeros", "repeat", "rar", "random"],
	"alike": ["none", "own1", "own255", "own128", "end", "split", "self", "step"],
	"check": [False, True],
	"big": [False, True],
	"m": [False, True],
}


def cases(ctx):
	out = [full(DIMS, d) for d in deviations(DIMS, ctx.pick(3, 4))]
	for k in range(1, ctx.pick(3, 4)):
		for at in range(k * B - 600, k * B + 300):
			for n in ctx.pick((256, 100, 1000), (256, 14, 100, 255, 257, 1000, B, 2 * B)):
				out.append(dict(full(DIMS, {}), start=at, len=n, tail=10))
			if k == 1:
				out.append(dict(full(DIMS, {}), start=at, len=1000, alike="step", tail=10))
				out.append(dict(full(DIMS, {}), start=at, len=1000, alike="split", tail=10))
	for n in range(14, ctx.pick(300, 600)):
		out.append(dict(full(DIMS, {}), len=n, tail=0))
		out.append(dict(full(DIMS, {}), len=n, alike="own%d" % (n - 1) if n < 256 else "own255"))
		out.append(dict(full(DIMS, {}), len=n, start=B - n + 7, content="repeat"))
	return out


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(3, 4))


def run_case(c):
	res = core.Result()
	n, st = c["len"], c["start"]
	data = payload("stream", st + n + c["tail"])
	s = data[st:st + n]
	if c["content"] == "pack":
		s = b"\0\0\1\xba\x44\0\4\0\4\1" + s[10:]
	elif c["content"] == "sync":
		s = (b"\x47\x40\0\x10" + s[4:188] + b"\x47\x40\1\x10" + s[192:])
	elif c["content"] == "zeros":
		s = bytes(min(n, 40)) + s[40:]
	elif c["content"] == "repeat":
		s = (b"abcdefgh" * 16 + s[128:])
	elif c["content"] == "rar":
		s = b"Rar!\x1a\x07\0" + s[7:]
	s = s[:n]
	lead = data[:st]
	sig = s[:256]
	kind = c["alike"]
	p = b""
	if kind.startswith("own"):
		p = sig[:min(int(kind[3:]), len(sig) - 1)]
		p += b"#" * 9
	elif kind == "end":
		p = sig[:-1]
	elif kind == "split":
		p = sig[:len(sig) // 2] + b"#" + sig[len(sig) // 2:]
	elif kind == "self":
		s = (s[:50] + s)[:n]
		sig = s[:256]
	elif kind == "step":
		p = b"".join(sig[:k] for k in (1, 2, 3, 50, 100, 200))
	if p:
		lead = lead[:max(0, st - len(p))] + p[-st:] if st else b""
	assert len(lead) == st
	main = lead + s + data[st + n:]
	amb = main.find(sig) != st
	if n < 14 or len(main) < 14:
		# too small to be seen as media at all
		res.outcome = "too small"
		return res
	if c["content"] == "random" and st == 0:
		pass
	job = Job(core.scratch(), s, main, c["ext"], None if c["mext"] == "same" else c["mext"])
	judge(res, job, [] if c["content"] == "zeros" else [s], c["check"], c["big"], c["m"], amb)
	res.outcome = "%s %s %s" % (c["ext"], c["content"], kind[:3])
	return res
