"""K01: the volumes that the bundled RAR maker writes."""
import io
import os
import shutil
import struct
import subprocess
import sys
import time

from mc import core
from mc import rarsyn as rs
from mc.deviate import deviations
from mc.rescenelib import rmain, write, read, tree

PROPERTY = "K01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of data sizes, volume sizes and option combinations against an independent byte exact model of the volumes, SFV and announcements, with an SRR round trip of every set"
LEVEL_NOTE = ("All data sizes 0..40 (thorough 120) x all volume sizes from one below the smallest possible upwards, every number of volumes around each roll-over of the names, recovery records over every sector boundary, and all combinations of up to 2 (thorough 3) "
	"non-default options on several shapes. Every set is written, compared byte for byte with the model, tested for agreement with the dry run, rebuilt from an SRR, and made again from the settings read from each of its full volumes. Sets over 2 GiB only in the dry run.")
RULE = "one evaluation = one run of the RAR maker; outcomes are (number of volumes, naming, options)"

ATTRS = {"rw-r--r--": 0x81a4, "rwxrwxrwx": 0x81ff, "a-----": 0x20}
TIMES = {
	"even": ("2011-10-13 10:20:30", 0, 0),
	"odd": ("2011-10-13 10:20:31", 1, 0),
	"half": ("1980-01-01 00:00:00.5", 0, 5000000),
	"tick": ("2107-12-31 23:59:59.0000001", 1, 1),
	"mid": ("2004-02-29 12:34:56.0000256", 0, 256),
	"high": ("2004-02-29 12:34:56.0065536", 0, 65536),
	"near": ("2011-10-13 10:20:31.57", 1, 5700000),
	"last": ("2011-10-13 10:20:30.9999999", 0, 9999999),
	"dot": ("2011-10-13 10:20:30.", 0, 0),
}
ENDS = {"full": 0x0e, "nonum": 0x06, "blank": 0}


def dos(text):
	d, t = text.split(".")[0].split(" ")
	y, mo, da = (int(x) for x in d.split("-"))
	h, mi, s = (int(x) for x in t.split(":"))
	return (s // 2) | mi << 5 | h << 11 | da << 16 | mo << 21 | (y - 1980) << 25


def ext_time(odd, ticks):
	"""the extended time field of a RAR file block (modification time only)"""
	if not odd and not ticks:
		return None
	b = struct.pack("<I", ticks)[:3]
	n = 3
	while n and b[3 - n] == 0:
		n -= 1
	return struct.pack("<H", (8 | odd << 2 | n) << 12) + b[3 - n:]


def decode_name(field):
	"""the Unicode name of a file block, as unrar reads it"""
	std, enc = field.split(b"\0", 1)
	hi, pos, out, flags, bits = enc[0], 1, "", 0, 0
	while pos < len(enc):
		if not bits:
			flags, bits = enc[pos], 8
			pos += 1
			continue
		op = flags >> 6
		flags = flags << 2 & 0xff
		bits -= 2
		if op == 0:
			out += chr(enc[pos]); pos += 1
		elif op == 1:
			out += chr(enc[pos] | hi << 8); pos += 1
		elif op == 2:
			out += chr(enc[pos] | enc[pos + 1] << 8); pos += 2
		else:
			n = enc[pos]; pos += 1
			if n & 0x80:
				c = enc[pos]; pos += 1
				for _ in range((n & 0x7f) + 2):
					out += chr((std[len(out)] + c & 0xff) | hi << 8)
			else:
				for _ in range(n + 2):
					out += chr(std[len(out)])
	return std.decode("latin-1"), out


def sectors(ver, total, vol_max):
	if ver == 2:
		n = 2 if vol_max < 50000 else 4 if vol_max < 500000 else 8
		return min(n, (total + 511) // 512)
	if total < 512:
		return 1
	n = total * 6 // 512 // 1000 + 2
	return n if n < 6 else n | 1


class Plan(object):
	"""everything that follows from the options"""
	def __init__(self, o, size, ticks=None):
		self.o = o
		self.ver = 2 if o.get("rar2") else 3
		self.name = o.get("internal") or "data.bin"
		self.base = o.get("base") or os.path.splitext(self.name)[0]
		self.dict = {None: 6 if self.ver == 3 else 2, "64": 0, "4096": 6, "256": 2}[o.get("dict")] << 5
		if o.get("time"):
			t, self.odd, self.ticks = TIMES[o["time"]]
			self.dos = dos(t)
		else:
			self.dos, self.odd, self.ticks = MTIME[o.get("mtime", "whole")][1:]
		self.ext = ext_time(self.odd, self.ticks)
		self.attr = 0x80 if o.get("attr") == "normal" else ATTRS[o["attr"]] if o.get("attr") else 0x20
		self.end = ENDS[o.get("end", "full")]
		self.size = size
		self.std = self.name.encode("latin-1")
		if o.get("unicode"):
			# any valid encoding would do: the maker's is compared after decoding
			self.std = encode(self.name)

	def file_len(self):
		return 7 + 25 + len(self.std) + (len(self.ext) if self.ext else 0)

	def end_len(self):
		if self.ver == 2:
			return 0
		return 7 + (4 if self.end & 2 else 0) + (2 if self.end & 8 else 0) + (7 if self.end & 4 else 0)

	def total(self, data, count):
		n = 7 + 13 + self.file_len() + data
		if self.o.get("rr"):
			n += (26 if self.ver == 2 else 54) + (n + 511) // 512 * 2 + count * 512
		return n + self.end_len()

	def room(self, vol):
		"""the most data that a volume can take"""
		count = sectors(self.ver, vol, vol)
		lo, hi = 0, vol
		if self.total(1, count) > vol:
			return 0
		while lo < hi:
			mid = (lo + hi + 1) // 2
			if self.total(mid, count) <= vol:
				lo = mid
			else:
				hi = mid - 1
		return lo

	def names(self, n):
		new = self.o.get("naming") == 3 or (self.o.get("naming") is None and n > 101)
		if new:
			return True, ["%s.part%0*d.rar" % (self.base, len(str(n)), i + 1) for i in range(n)]
		return False, [self.base + (".rar" if not i else ".%s%02d" % (chr(ord("r") + (i - 1) // 100), (i - 1) % 100)) for i in range(n)]

	def volumes(self, data, vol):
		room = self.room(vol)
		n = max(1, (len(data) + room - 1) // room)
		new, names = self.names(n)
		out = []
		for i in range(n):
			chunk = data[i * room:(i + 1) * room]
			more = i < n - 1
			af = 1 | (0x40 if self.o.get("rr") else 0) | (0x100 if self.ver == 3 and not i else 0) | (4 if self.o.get("lock") else 0) | (0x10 if new else 0)
			fl = 0x8000 | (1 if i else 0) | (2 if more else 0) | self.dict | (0x200 if self.o.get("unicode") else 0) | (0x1000 if self.ext else 0)
			crc = rs.crc32(chunk) if more else rs.crc32(data)
			body = struct.pack("<IBIIBBHI", len(data), 3 if self.o.get("unix") else 2, crc, self.dos, 20, 0x30, len(self.std), self.attr)
			b = rs.mark().head + rs.archive(af).head
			b += rs.header(0x74, fl, body + self.std + (self.ext or b""), add=len(chunk)) + chunk
			if self.o.get("rr"):
				count = sectors(self.ver, len(b) if self.ver == 2 or not more else vol, vol)
				if self.ver == 2:
					k, d = rs.recovery_data(b, count)
					b += rs.header(0x78, 0xc000, struct.pack("<BHI", 20, count, k) + b"Protect!", add=len(d)) + d
				else:
					k, d = rs.recovery_data(b, count)
					# the recovery data's checksum starts elsewhere than others
					body = struct.pack("<IBIIBBHI", len(d), 3 if self.o.get("unix") else 2, rs.crc32(d, 0xf0000000), 0, 29, 0x30, 2, 0)
					b += rs.header(0x7a, 0xc000, body + b"RR" + b"Protect+" + struct.pack("<IQ", count, k), add=len(d)) + d
			if self.ver == 3:
				body = b""
				if self.end & 2:
					body += struct.pack("<I", rs.crc32(b))
				if self.end & 8:
					body += struct.pack("<H", i)
				if self.end & 4:
					body += b"\0" * 7
				b += rs.header(0x7b, 0x4000 | self.end | (1 if more else 0), body)
			out.append((names[i], b))
		return out

	def sfv(self, vols):
		nl = {"lf": "\n", "crcrlf": "\r\r\n"}.get(self.o.get("nl"), "\r\n")
		head = self.o.get("sfvhead")
		t = ""
		if head:
			t = (head + ("" if head.endswith("\n") else "\n")).replace("\n", nl)
		for n, b in sorted(vols):
			t += "%s %08x%s" % (n, rs.crc32(b), nl)
		return t.encode("latin-1")

	def argv(self, vol, data_name="../in/data.bin"):
		a = ["file", data_name, "size", str(vol)]
		o = self.o
		if o.get("internal"):
			a += ["internal", o["internal"]]
		if o.get("base"):
			a += ["base", o["base"]]
		if o.get("time"):
			a += ["time", TIMES[o["time"]][0]]
		for k in ("rr", "unicode", "lock", "rar2", "unix"):
			if o.get(k):
				a.append(k)
		if o.get("naming"):
			a.append("naming%d" % o["naming"])
		if o.get("nl"):
			a.append(o["nl"])
		if o.get("sfvhead"):
			a += ["sfvhead", o["sfvhead"]]
		if o.get("end"):
			a.append({"nonum": "nonum", "blank": "blankend"}[o["end"]])
		if o.get("attr") == "normal":
			a.append("normalattr")
		elif o.get("attr"):
			a += ["attr", o["attr"]]
		if o.get("dict"):
			a += ["dict", o["dict"]]
		return a


MTIME = {  # nanoseconds since 1970, DOS time, odd second, 100 ns ticks
	"whole": (1318501230 * 10**9, dos("2011-10-13 10:20:30"), 0, 0),
	"odd": (1318501231 * 10**9, dos("2011-10-13 10:20:31"), 1, 0),
	"half": (1318501230 * 10**9 + 500000000, dos("2011-10-13 10:20:30"), 0, 5000000),
	"quarter": (1318501231 * 10**9 + 250000000, dos("2011-10-13 10:20:31"), 1, 2500000),
}


def encode(name):
	"""the Unicode field as the maker writes it; its meaning is checked with decode_name"""
	b = name.encode("latin-1")
	out = b + b"\0\1"
	left, chunks = len(name), []
	pos = 0
	while left:
		if left == 1:
			chunks.append((0, bytes([b[pos]])))
			left = 0
		else:
			n = min(129, left)
			chunks.append((3, bytes([n - 2])))
			pos += n
			left -= n
	for i in range(0, len(chunks), 4):
		grp = chunks[i:i + 4]
		out += bytes([sum(op << (6 - 2 * j) for j, (op, _) in enumerate(grp))]) + b"".join(c for _, c in grp)
	return out


_maker = None


def maker():
	global _maker
	if _maker is None:
		os.environ["TZ"] = "UTC"
		time.tzset()
		d = os.path.join(core.REPO, "rerar")
		sys.path.insert(0, d)
		for m in ("rerar", "rar", "rarfile"):
			sys.modules.pop(m, None)
		import rerar
		_maker = rerar
	return _maker


def run(cwd, argv):
	"""-> (exit, stdout, stderr)"""
	m = maker()
	old = os.getcwd(), sys.argv, sys.stdout, sys.stderr
	out, err = io.StringIO(), io.StringIO()
	os.chdir(cwd)
	sys.argv = ["rerar.py"] + argv
	sys.stdout, sys.stderr = out, err
	try:
		try:
			m.main()
			rc = None
		except SystemExit as e:
			rc = "exit: %s" % (e,)
	finally:
		os.chdir(old[0])
		sys.argv, sys.stdout, sys.stderr = old[1:]
	return rc, out.getvalue(), err.getvalue()


OPT = {
	"naming": [None, 2, 3], "rr": [None, 1], "rar2": [None, 1], "unicode": [None, 1], "nl": [None, "lf", "crcrlf"],
	"internal": [None, "x.avi", "no-ext", ".hidden", "\xe9t\xe9.mkv", "a" * 130 + ".b", "dir\\file.bin"], "base": [None, "rel-grp", "rel.part1"],
	"lock": [None, 1], "end": [None, "nonum", "blank"], "attr": [None, "normal", "rw-r--r--", "rwxrwxrwx", "a-----"],
	"dict": [None, "64", "4096", "256"], "unix": [None, 1], "sfvhead": [None, "; made by\n; me", "; x\n"],
	"time": [None] + sorted(TIMES), "mtime": [None, "odd", "half", "quarter"],
}


def clean(o):
	return {k: v for k, v in o.items() if v is not None}


def legal(o):
	if o.get("internal", "").startswith("dir") and not o.get("base"):
		return False
	return not (o.get("time") and o.get("mtime"))


def cases(ctx):
	cs = []
	# every data size and volume size
	for o in ({}, {"naming": 3}, {"rar2": 1}, {"end": "blank", "time": "odd"}):
		least = Plan(o, 0).total(0, 0)
		for d in range(-1, ctx.pick(8, 16)):
			for size in range(0, ctx.pick(40, 120)):
				cs.append({"k": "set", "o": o, "vol": least + d, "size": size})
	# recovery records: all sizes around the sector boundaries
	for ver in ({}, {"rar2": 1}):
		o = dict(ver, rr=1)
		p = Plan(o, 0)
		for vol in [700, 1100, 1101, 1638, 1640, 2053] + ctx.pick([], [3000, 4099, 5000, 6000]):
			room = p.room(vol)
			if not room:
				continue
			for k in (0, 1, 2):
				for r in sorted(set(range(0, min(4, room))) | set(x + d for x in range(512 - p.total(0, 0) % 512, room, 512) for d in range(-3, 4)) | {room - 2, room - 1}):
					if 0 <= r < room:
						cs.append({"k": "set", "o": o, "vol": vol, "size": k * room + r})
			for v in range(vol, vol + ctx.pick(4, 520)):
				room = p.room(v)
				if room:
					cs.append({"k": "set", "o": o, "vol": v, "size": 2 * room + 1})
					cs.append({"k": "set", "o": o, "vol": v, "size": room})
		for vol in (49999, 50000, 100000, 499999, 500000, 600000) + ctx.pick((), (1200000, 3000000)):
			for r in (0, 1, 40000):
				cs.append({"k": "set", "o": o, "vol": vol, "size": Plan(o, 0).room(vol) + r})
	# every number of volumes around the roll-overs
	for n in [1, 2, 3, 8, 9, 10, 11, 12, 98, 99, 100, 101, 102, 103, 199, 200, 201, 202, 203, 301, 302] + ctx.pick([], [899, 900, 901, 998, 999, 1000, 1001]):
		for o in ({}, {"naming": 2}, {"naming": 3}, {"naming": 2, "rar2": 1}):
			if n > 901 and o.get("naming") == 2:
				continue
			room = 5
			vol = Plan(o, 0).total(room, 0)
			for r in (0, 1, room - 1):
				cs.append({"k": "set", "o": o, "vol": vol, "size": (n - 1) * room + (r or room)})
	# options
	shapes = [(300, 1000), (1700, 3001), (1700, 10)] + ctx.pick([], [(260, 10 * 120), (1700, 1700)])
	for dv in deviations(OPT, ctx.pick(2, 3)):
		o = clean(dv)
		if not legal(o):
			continue
		for vol, size in shapes:
			cs.append({"k": "set", "o": o, "vol": vol, "size": size})
	# settings that can not work
	for kind in ("self-rar", "self-new", "self-sfv", "self-ref", "small", "none", "badarg", "dict", "dict65"):
		cs.append({"k": "refuse", "what": kind})
	for size in ((1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5):
		for vol in (15000000, 50000000, 1 << 30):
			cs.append({"k": "big", "size": size, "vol": vol})
	for o in ({"rr": 1}, {"rr": 1, "rar2": 1}):
		cs.append({"k": "numpy", "o": o, "vol": 2000, "size": 5000})
	# the model itself: the real unrar accepts its volumes
	for dv in deviations(OPT, 1):
		o = clean(dv)
		if legal(o) and o.get("base") != "rel.part1":
			for vol, size in ((300, 1000), (300, 60000), (1700, 3001), (1700, 10), (1700, 0)):
				cs.append({"k": "unrar", "o": o, "vol": vol, "size": size})
	return cs


def explore(ctx):
	cs = cases(ctx)
	ctx.run(cs)
	ctx.cover.update(evaluations=ctx.steps, cases=len(cs), distinct_nontrivial=len(ctx.outcomes), deviation_bound=ctx.pick(2, 3))


def tag(o):
	return "+".join(sorted(o)) or "plain"


def run_case(case):
	res = core.Result()
	root = core.scratch()
	if case["k"] == "refuse":
		return refuse(case, res, root)
	if case["k"] == "big":
		return big(case, res, root)
	if case["k"] == "unrar":
		return with_unrar(case, res, root)
	o, vol = case["o"], case["vol"]
	data = rs.payload("d%d" % case["size"], case["size"])
	p = Plan(o, len(data))
	src = os.path.join(root, "in", "data.bin")
	out = os.path.join(root, "rel")
	write(src, data)
	os.makedirs(out)
	ns = MTIME[o.get("mtime", "whole")][0]
	os.utime(src, ns=(ns, ns))
	res.outcome = "%s|%s" % (case["k"], tag(o))
	key = tag(o)
	if o.get("unicode"):
		std, uni = decode_name(p.std)
		if (std, uni) != (p.name, p.name):
			raise core.HarnessError("name encoding of the model")
	room = p.room(vol)
	if case["k"] == "numpy":
		return with_numpy(case, res, p, out, data)
	rc, so, se = run(out, p.argv(vol))
	res.steps = 1
	if read(src) != data:
		res.bad("input", "the data file was changed")
	if room < 1:
		res.outcome += "|small"
		if rc is None:
			res.bad("small", "volumes of %d bytes cannot hold data and were not refused" % vol)
		elif os.listdir(out):
			res.bad("small", "refused, but left %r" % os.listdir(out))
		return res
	vols = p.volumes(data, vol)
	n = len(vols)
	res.outcome += "|%s" % (n if n < 4 else "n")
	want = dict(vols)
	want[p.base + ".sfv"] = p.sfv(vols)
	got = {k: read(os.path.join(out, k)) for k in os.listdir(out)}
	where = "%d bytes in volumes of %d (%s)" % (len(data), vol, key)
	if rc is not None:
		res.bad("exit:" + key, "%s: %s" % (where, rc))
		return res
	if sorted(got) != sorted(want):
		res.bad("names:" + key, "%s: the files are %r instead of %r" % (where, sorted(got)[:12], sorted(want)[:12]))
		return res
	for k in sorted(want):
		if got[k] != want[k]:
			at = next((i for i in range(min(len(got[k]), len(want[k]))) if got[k][i] != want[k][i]), min(len(got[k]), len(want[k])))
			res.bad("bytes:" + key, "%s: %r differs from offset %d (%d bytes, expected %d): %r instead of %r" % (where, k, at, len(got[k]), len(want[k]), got[k][at:at + 12], want[k][at:at + 12]))
			return res
	# what it announces
	lines = se.splitlines()
	if not lines or lines[0].strip() != "Number of volumes: %d" % n:
		res.bad("announce:" + key, "%s: announced %r for %d volumes" % (where, lines[:1], n))
	for name, b in vols:
		mine = [l for l in lines if l.startswith(name + ": ")]
		if len(mine) != 1 or "Size: %d" % len(b) not in mine[0] or "CRC: %08X" % rs.crc32(b) not in mine[0]:
			res.bad("announce:" + key, "%s: %r is announced as %r" % (where, name, mine))
			break
	total = sum(len(x) for x in want.values())
	if "Total release size: %d" % total not in so.splitlines()[-1] + " ":
		res.bad("announce:" + key, "%s: %r for %d bytes" % (where, so.strip(), total))
	# the dry run
	dry = os.path.join(root, "dry")
	os.makedirs(dry)
	rc, so2, se2 = run(dry, p.argv(vol) + ["dryrun"])
	res.steps += 1
	if rc is not None or os.listdir(dry):
		res.bad("dry:" + key, "%s: dry run: %s, made %r" % (where, rc, os.listdir(dry)))
	elif so2 != so:
		res.bad("dry:" + key, "%s: dry run says %r and the run %r" % (where, so2.strip(), so.strip()))
	else:
		dl = se2.splitlines()
		for l in dl:
			if l != ". . ." and not any(x == l or x.startswith(l + " ") for x in lines):
				res.bad("dry:" + key, "%s: only the dry run says %r" % (where, l))
				break
	if n > 203:
		return res
	# an SRR of the set rebuilds it
	if o.get("internal", "").startswith(("dir", "\xe9")) or o.get("base") == "rel.part1":
		pass
	else:
		srr = os.path.join(root, "s.srr")
		rmain.create_srr(srr, [os.path.join(out, p.base + ".sfv")])
		os.makedirs(os.path.join(root, "movie"))
		os.rename(src, os.path.join(root, "movie", p.name))
		rmain.reconstruct(srr, os.path.join(root, "movie"), os.path.join(root, "again"))
		res.steps += 1
		again = {k: read(os.path.join(root, "again", k)) for k in os.listdir(os.path.join(root, "again")) if not k.endswith(".sfv")}
		if again != dict(vols):
			res.bad("rebuild:" + key, "%s: the SRR does not rebuild the volumes" % where)
		os.rename(os.path.join(root, "movie", p.name), src)
	# the settings of each full volume make the same volumes
	if o.get("base") == "rel.part1":
		return res
	# (a last volume does not tell the size of the others)
	for i in sorted(set(i for i in (0, 1, n // 2, n - 2) if 0 <= i < n - 1)):
		d = os.path.join(root, "ref")
		os.makedirs(d)
		a = ["ref", os.path.join("..", "rel", vols[i][0]), "file", "../in/data.bin"]
		if o.get("nl"):
			a.append(o["nl"])
		if o.get("sfvhead"):
			a += ["sfvhead", o["sfvhead"]]
		rc, _, se = run(d, a)
		res.steps += 1
		if rc is not None:
			res.bad("ref:" + key, "%s: settings of %r: %s; %s" % (where, vols[i][0], rc, se[-200:]))
		else:
			t = tree(d)
			g = {k[4:]: t[k] for k in t if k.startswith("rel/") and k != "rel/"}
			if g != want:
				res.bad("ref:" + key, "%s: the settings of %r give %s" % (where, vols[i][0], sorted(g)[:6] if sorted(g) != sorted(want) else "other bytes"))
		core._rmtree(d)
		if res.problems:
			break
	return res


def refuse(case, res, root):
	what = case["what"]
	data = rs.payload("in", 900)
	res.steps = 1
	res.outcome = "refuse|" + what
	name = {"self-rar": "x.rar", "self-new": "x.part2.rar", "self-sfv": "x.sfv"}.get(what, "x.bin")
	write(os.path.join(root, "w", name), data)
	w = os.path.join(root, "w")
	argv = ["file", name, "size", "300"]
	if what == "self-new":
		argv += ["base", "x", "naming3"]
	elif what == "self-ref":
		p = Plan({}, 900)
		vols = p.volumes(data, 300)
		for k, b in vols:
			write(os.path.join(w, k), b)
		argv = ["ref", vols[0][0], "file", name]
	elif what == "small":
		argv[3] = "20"
	elif what == "none":
		argv = ["size", "300"]
	elif what == "badarg":
		argv.append("nonsense")
	elif what == "dict":
		argv += ["dict", "8192"]
	elif what == "dict65":
		argv += ["dict", "65"]
	before = tree(w)
	rc, so, se = run(w, argv)
	after = tree(w)
	if rc is None:
		res.bad("refuse:" + what, "the run went ahead")
	for k in before:
		if after.get(k) != before[k]:
			res.bad("refuse:" + what, "%r was overwritten" % k)
	if sorted(after) != sorted(before) and not res.problems:
		res.bad("refuse:" + what, "left %r" % sorted(set(after) - set(before)))
	return res


def big(case, res, root):
	"""only the dry run: the sizes of sets over 2 GiB"""
	size, vol = case["size"], case["vol"]
	res.steps = 1
	res.outcome = "big|%d" % (size > 1 << 31)
	src = os.path.join(root, "data.bin")
	os.symlink("/dev/null", os.path.join(root, "unused"))
	with open(src, "wb") as f:
		f.truncate(min(size, 1 << 20))
	real = os.stat
	ns = MTIME["whole"][0]
	os.utime(src, ns=(ns, ns))

	def fake(path, *a, **kw):
		st = real(path, *a, **kw)
		if path == src:
			t = list(st)
			t[6] = size
			return os.stat_result(t)
		return st
	os.stat = fake
	try:
		rc, so, se = run(root, ["file", src, "size", str(vol), "dryrun"])
	finally:
		os.stat = real
	p = Plan({}, size)
	over = p.total(0, 0) + (8 if size > 1 << 31 else 0)
	room = vol - over
	n = (size + room - 1) // room
	new, names = p.names(n)
	total = size + n * over + sum(len(x) + 11 for x in names)
	if rc is not None or "Number of volumes: %d" % n not in se.splitlines() or "Total release size: %d " % total not in so:
		res.bad("big", "%d bytes in volumes of %d: %r %r instead of %d volumes and %d bytes" % (size, vol, se.splitlines()[:1], so, n, total))
	return res


def with_numpy(case, res, p, out, data):
	"""the other implementation of the recovery records, when there is a numpy"""
	res.steps = 1
	py = shutil.which("python3-vt")
	if not py or subprocess.call([py, "-c", "import numpy"], stderr=subprocess.DEVNULL):
		res.outcome = "no numpy"
		return res
	r = subprocess.run([py, "-B", os.path.join(core.REPO, "rerar", "rerar.py")] + p.argv(case["vol"]), cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
		env=dict(os.environ, TZ="UTC", OPENBLAS_NUM_THREADS="1"))
	want = dict(p.volumes(data, case["vol"]))
	got = {k: read(os.path.join(out, k)) for k in os.listdir(out) if not k.endswith(".sfv")}
	if r.returncode or got != want:
		res.bad("numpy", "with numpy: exit %d, %r" % (r.returncode, r.stderr[-200:].decode("latin-1")))
	return res


def with_unrar(case, res, root):
	"""what the checks compare with is no invention: unrar tests the volumes of the model"""
	res.outcome = "no unrar"
	exe = "/usr/bin/unrar"
	if not os.path.exists(exe):
		return res
	data = rs.payload("d%d" % case["size"], case["size"])
	p = Plan(case["o"], len(data))
	if p.room(case["vol"]) < 1:
		return res
	for k, b in p.volumes(data, case["vol"]):
		write(os.path.join(root, "v", k), b)
		res.data = res.data or k
	first = os.path.join(root, "v", res.data)
	run = lambda *a: subprocess.run([exe] + list(a), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL="C.UTF-8"))
	t = run("t", "-p-", first)
	if t.returncode or b"All OK" not in t.stdout:
		raise core.HarnessError("unrar does not accept the model's volumes: %r %s" % (t.stdout[-300:], case))
	res.steps = 1
	res.outcome = "unrar|%s" % tag(case["o"])
	x = run("p", "-inul", first)
	if x.stdout != data:
		raise core.HarnessError("unrar extracts other data from the model's volumes: %s" % case)
	name = run("lb", first).stdout.decode("utf-8").splitlines()
	if name[:1] != [p.name.replace("\\", "/")] and not (p.name.startswith("\xe9") and not case["o"].get("unicode")):
		raise core.HarnessError("unrar lists %r for %r" % (name, p.name))
	return res
