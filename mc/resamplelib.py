"""Drives the sample tool (SRS) the way a user does: through its command line."""
import builtins
import os
import sys

from mc import core
from mc.rescenelib import write, read

core.setup_repo_path()
os.environ["PATH"] = os.path.join(core.VERIF, "mc", "shim", "bin") + os.pathsep + os.environ.get("PATH", "")
import resample  # noqa: E402
from resample import srs as tool  # noqa: E402


class Asked(Exception):
	"""the tool asked a question the case did not expect"""


def srs(argv, answer=None):
	"""-> (exit code, traceback-ish message); answer: what a prompt gets ("y"/"n"), None: a prompt is an error"""
	def ask(*_a):
		if answer is None:
			raise Asked("unexpected question")
		return answer
	tool.raw_input = ask
	old_in = builtins.input
	builtins.input = ask
	from resample import fpcalc
	fpcalc.fpcalc_executable = os.path.join(core.VERIF, "mc", "shim", "bin", "fpcalc")
	try:
		try:
			r = tool.main(argv)
			return r if r is not None else 0
		except SystemExit as e:
			return 0 if e.code is None else e.code
		except Exception as e:
			return "raise:%s: %s" % (type(e).__name__, e)
	finally:
		builtins.input = old_in


class Job(object):
	"""one sample and one main movie in a scratch folder"""

	def __init__(self, root, sample, main, ext, main_ext=None, name="sample", main_name="main"):
		self.root = root
		self.sample = write(os.path.join(root, "in", name + ext), sample)
		self.main = None if main is None else write(os.path.join(root, "in", main_name + (main_ext or ext)), main)
		self.srs = os.path.join(root, "srs", name + ".srs")
		os.makedirs(os.path.join(root, "srs"), exist_ok=True)
		self.out = os.path.join(root, "out")
		os.makedirs(self.out, exist_ok=True)
		self.data = sample

	def create(self, check=False, big=False):
		argv = [self.sample, "-o", self.srs, "-y"]
		if check:
			argv += ["-c", self.main]
		if big:
			argv += ["-b"]
		return srs(argv)

	def rebuild(self, ignore_offset=False, main=None):
		argv = [self.srs, main or self.main, "-o", self.out, "-y"]
		if ignore_offset:
			argv += ["-m"]
		return srs(argv)

	def result(self):
		p = os.path.join(self.out, os.path.basename(self.sample))
		return read(p) if os.path.isfile(p) else None


def leaks(srs_bytes, tracks, keep=256, window=48):
	"""does the SRS hold stream data past the signatures?"""
	for data in tracks:
		for at in range(keep * 2, len(data) - window, max(1, window * 4)):
			if data[at:at + window] in srs_bytes:
				return at
	return None


def chop(data, sizes):
	"""cut data into pieces: sizes is cycled; a 0 size gives an empty piece"""
	out = []
	pos = i = 0
	while pos < len(data) or not out:
		s = sizes[i % len(sizes)]
		out.append(data[pos:pos + s])
		pos += s
		i += 1
		if i > 100000:
			raise ValueError("sizes")
	return out


def interleave(pieces, order):
	"""pieces: {track: [bytes]} -> list of (track, bytes).
	order "rr": one of each in turn; "blocks": runs of 3; "serial": one track after the other; "rev": turns, last track first"""
	tracks = sorted(pieces)
	left = dict((t, list(pieces[t])) for t in tracks)
	out = []
	if order == "serial":
		return [(t, p) for t in tracks for p in left[t]]
	n = 3 if order == "blocks" else 1
	if order == "rev":
		tracks = tracks[::-1]
	while any(left.values()):
		for t in tracks:
			for _ in range(n):
				if left[t]:
					out.append((t, left[t].pop(0)))
	return out


def judge(res, job, tracks, check=False, big=False, ignore_offset=False, ambiguous=False, label=""):
	"""create, then rebuild; everything must be exact. tracks: the sample's streams"""
	c = job.create(check, big)
	if c != 0:
		res.bad("create", "%s: creating the SRS failed: %r" % (label, c))
		return None
	s = read(job.srs)
	at = leaks(s, tracks)
	if at is not None:
		res.bad("leak", "%s: the SRS holds stream data (from byte %d of a stream)" % (label, at))
	r = job.rebuild(ignore_offset)
	got = job.result()
	if r == 0 and got != job.data:
		res.bad("wrong success", "%s: success reported for a file that differs from the sample (%s of %d bytes)" % (label, got is None and "none" or len(got), len(job.data)))
	elif r != 0 and not ambiguous:
		res.bad("rebuild", "%s: rebuilding failed: %r" % (label, r))
	elif r != 0 and got is not None:
		res.bad("left", "%s: rebuilding failed (%r) but left a sample behind" % (label, r))
	for d in ("out", "srs", "in"):
		for n in os.listdir(os.path.join(job.root, d)):
			if n.endswith(".tmp"):
				res.bad("temp", "%s: left a temporary file in %s" % (label, d))
	return r


def ambiguous(main_tracks, sample_tracks, starts, sig=256):
	"""does a signature also fit before the right place in the main stream?"""
	for t, data in sample_tracks.items():
		s = data[:sig]
		if s and t in main_tracks and main_tracks[t].find(s) != starts.get(t, 0):
			return True
	return False


def alike(c, starts, sample, main):
	"""puts a look-alike of stream 0's signature before the place where the sample starts; -> the pieces it is made of.
	ownN: the signature's first N bytes as a piece of their own; endN: at the end of a piece; midN: in the middle of one;
	twoN: twice; threeN: three pieces of the signature's start; selfN: a stream of which the first N bytes come again
	inside the sample; zeros, period: the sample's start repeats itself"""
	kind = c["alike"].rstrip("0123456789")
	if kind == "none":
		return []
	num = int(c["alike"][len(kind):] or 0)
	s = sample[0]
	st = starts[0]
	extra = []
	if kind == "zeros":
		s = bytes(min(len(s), 30)) + s[30:]
	elif kind == "period":
		s = (b"abcdefgh" * 12)[:len(s)] + s[96:]
	elif kind == "self":
		s = s[:num] + s[:num] + s[2 * num:]
	sig = s[:256]
	if kind == "own":
		extra = [sig[:num]]
	elif kind == "end":
		extra = [b"#" * 45 + sig[:num]]
	elif kind == "mid":
		extra = [b"#" * 45 + sig[:num] + b"#" * 45]
	elif kind == "two":
		extra = [sig[:num], sig[:num]]
	elif kind == "three":
		extra = [sig[:num], sig[num:num * 2], sig[num * 2:num * 2 + 20] + b"#" * 10]
	elif kind == "zeros":
		extra = [b"#" + bytes(20)]
	elif kind == "period":
		extra = [b"#" * 20 + b"abcdefgh" * 4]
	s = s[:len(sample[0])]
	tail = main[0][st + len(sample[0]):]
	sample[0] = s
	main[0] = main[0][:st] + b"".join(extra) + s + tail
	starts[0] = st + sum(map(len, extra))
	return extra
