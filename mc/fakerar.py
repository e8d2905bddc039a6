"""A stand-in for the RAR executables: a deterministic pseudo-compressor with RAR's command line and RAR's
files. What each version writes depends on version, level, dictionary, thread count, the files before (solid)
and, for some versions, the neighbouring files - the things the compressed rebuild has to find out."""
import hashlib
import os
import re
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import rarsyn as rs  # noqa: E402

CHUNK = 1024
PER = 400       # packed bytes for one chunk
SMALL = 2048    # files below are packed by one thread
# name, has -mt, first and last thread count, sees the next file, sees the previous file
VERSIONS = [
	("1998-02-02_rar205", None),
	("2002-08-26_rar310", None),
	("2005-08-10_rar350.exe", None),
	("2006-09-01_rar361", (0, 16)),
	("2009-09-01_rar390.exe", (0, 16)),
	("2012-06-09_rar420", (1, 32)),
	("2013-04-18_rar500b2", (1, 32)),
	("2016-02-04_rar531.exe", (1, 32)),
]
NAMES = [v[0] for v in VERSIONS]
MT = dict(VERSIONS)


class Bad(Exception):
	def __init__(self, rc):
		Exception.__init__(self, rc)
		self.rc = rc


def lead(version, threads, size):
	"""older versions and other thread counts compress worse: every one has its own packed size"""
	rank = len(NAMES) - NAMES.index(version)
	return rank if size < SMALL else 40 * rank + threads


def effective(version, threads, size):
	if MT[version] is None or size < SMALL:
		return 1
	return max(1, threads)


def pack(version, level, dic, threads, data, before=b"", after=b"", style="plain"):
	"""before: what the compressor has seen (solid); after: what it may look ahead to"""
	if not data:
		return b""
	thr = effective(version, threads, len(data))
	key = ("%s|%d|%s|%d" % (version, level, dic, thr)).encode()
	out = []
	state = hashlib.sha1(before).digest() if before else b""
	per = CHUNK + 30 if style == "grow" else PER
	chunks = [data[i:i + CHUNK] for i in range(0, len(data), CHUNK)]
	for i, c in enumerate(chunks):
		look = chunks[i + 1][:64] if i + 1 < len(chunks) else after[:64]
		n = 1 + len(c) * per // CHUNK + (400 if len(data) >= SMALL else 10) * (sum(c) % 3)
		if i == 0 and style == "prev" and before:
			n += 1300
		if i == 0:
			n += lead(version, thr, len(data))
		if i + 1 == len(chunks) and after:
			n += 1300
		out.append(hashlib.shake_128(key + b"|" + state + b"|" + c + b"|" + look).digest(n))
		state = hashlib.sha1(state + c).digest()
	return b"".join(out)


class Entry(object):
	def __init__(self, name, data=b"", level=3, dic="A", packed=None, is_dir=False, solid=False, dtime=0x3c6b8a51):
		self.name, self.data, self.level, self.dic, self.packed = name, data, level, dic, packed
		self.is_dir, self.solid, self.dtime = is_dir, solid, dtime


def pack_entries(entries, version, threads, solid, style="plain"):
	"""fills in what each entry is packed to"""
	seen = b""
	files = [e for e in entries if not e.is_dir]
	for i, e in enumerate(files):
		if e.level == 0:
			e.packed = e.data
			continue
		nxt = prv = b""
		if (style == "next" or style == "rest" and i) and i + 1 < len(files):
			nxt = files[i + 1].data
		if style == "prev" and i:
			prv = files[i - 1].data[-64:]
		e.packed = pack(version, e.level, e.dic, threads, e.data, seen if solid else prv, nxt, style)
		e.solid = solid and seen != b""
		if solid:
			seen += e.data
	for e in entries:
		if e.is_dir:
			e.packed = b""


def write_set(entries, version, split, newnames, base, solid=False):
	"""[(file name, bytes)] of a set with volumes of split bytes (None: one archive)"""
	old = version.find("_rar2") > 0
	ver = 20 if old else 29
	vols = []

	def start():
		af = (1 if split else 0) | (0x10 if split and newnames else 0) | (8 if solid else 0)
		if split and not old and not vols:
			af |= 0x100
		return rs.mark().head + rs.archive(af).head
	cur = start()
	endlen = 0 if old else len(rs.end_block("full", True, 0, 0).head)

	def finish(more):
		if old:
			return cur
		return cur + rs.end_block("full" if split else "bare", more, len(vols), rs.crc32(cur)).head
	for e in entries:
		pos, first = 0, True
		body = e.packed if not e.is_dir else b""
		while True:
			fl = (0 if first else 1) | (0x10 if e.solid else 0)
			if not e.is_dir:
				fl |= "ABCDEFG".index(e.dic) << 5
			kw = dict(method=0x30 + (0 if e.is_dir or not e.data else e.level), ver=ver, is_dir=e.is_dir, dtime=e.dtime)
			head = len(rs.file_block(e.name, b"", len(e.data), 0, flags=fl, **kw).head)
			room = None if not split else split - len(cur) - endlen - head
			left = len(body) - pos
			if room is not None and (room < 1 if left else room < 0):
				if len(cur) < 30:
					raise Bad(7)
				v = finish(True)
				vols.append(v)
				cur = start()
				continue
			n = left if room is None else min(left, room)
			part = body[pos:pos + n]
			last = n == left
			crc = rs.crc32(e.data) if last else (0xffffffff if old and e.level else rs.crc32(part))
			b = rs.file_block(e.name, part, len(e.data), crc, flags=fl | (0 if last else 2), **kw)
			cur += b.head + part
			pos += n
			first = False
			if last:
				break
			vols.append(finish(True))
			cur = start()
	vols.append(finish(False))
	names = rs.volume_names("new" if newnames and split else "old", base, len(vols))
	return list(zip(names, vols))


def run(argv, cwd="."):
	"""(exit status, output) of an executable"""
	version = os.path.basename(argv[0])
	args = list(argv[1:])
	if version not in MT:
		return 9, b""
	major = int(version[14])
	mt = MT[version]
	if not args:
		text = b"\nRAR " + version.encode() + b"\n\nUsage: rar <command> -<switch 1> -<switch N> <archive> <files...>\n"
		if mt:
			text += b"  mt<threads>   Set the number of threads\n"
		return 0 if major > 2 else 7, text
	try:
		conf = open(os.path.join(os.path.dirname(os.path.join(cwd, argv[0])), "style.txt")).read().split()
	except OSError:
		conf = ["plain"]
	try:
		if args.pop(0) != "a":
			raise Bad(7)
		level, dic, solid, sort, threads, old, ma4, split = 3, "A", False, True, 1, major == 2, False, None
		names = []
		over = ep = False
		for a in args:
			if names or not a.startswith("-"):
				names.append(a)
			elif re.match(r"-m[0-5]$", a):
				level = int(a[2])
			elif re.match(r"-md[A-G]$", a):
				dic = a[3]
			elif a in ("-s", "-s-"):
				solid = a == "-s"
			elif a == "-ds":
				sort = False
			elif re.match(r"-mt\d+$", a):
				threads = int(a[3:])
				if not mt or not mt[0] <= threads <= mt[1]:
					raise Bad(7)
			elif a == "-vn" and major > 2:
				old = True
			elif a == "-ma4" and major > 4:
				ma4 = True
			elif re.match(r"-v[1-9]\d*b$", a):
				split = int(a[2:-1])
			elif a == "-o+":
				over = True
			elif a == "-ep":
				ep = True
			elif a == "-idcd":
				pass
			else:
				raise Bad(7)
		if len(names) < 2 or not ep or not over:
			raise Bad(7)
		out = os.path.join(cwd, names[0])
		files, rc = [], 0
		for f in names[1:]:
			f = os.path.join(cwd, f)
			if not os.path.isfile(f):
				rc = 1        # a warning: the others are packed
			elif os.path.realpath(f) not in [os.path.realpath(x) for x in files]:
				files.append(f)
		if not files:
			raise Bad(10)
		if solid and sort:
			files.sort(key=lambda x: (os.path.splitext(x)[1], x))
		base = os.path.splitext(os.path.basename(out))[0]
		if os.path.exists(out):
			with open(out, "rb") as fh:
				if struct.unpack_from("<H", fh.read(16), 10)[0] & 1:
					raise Bad(3)      # a volume is never changed
		if major > 4 and not ma4:
			with open(out, "wb") as fh:
				fh.write(b"Rar!\x1a\x07\x01\x00" + b"\0" * 60)
			return 0, b""
		entries = []
		for f in files:
			with open(f, "rb") as fh:
				entries.append(Entry(os.path.basename(f), fh.read(), level, dic))
		pack_entries(entries, version, threads, solid, conf[0])
		whole = write_set(entries, version, None, False, base, solid)
		if split and len(whole[0][1]) > split:
			whole = write_set(entries, version, split, not old, base, solid)
		for n, data in whole:
			with open(os.path.join(os.path.dirname(out), n), "wb") as fh:
				fh.write(data)
		return rc, b""
	except Bad as ex:
		return ex.rc, b"rar: error %d\n" % ex.rc


def install(folder, names, style="plain", python=None):
	"""real executables that run this file"""
	os.makedirs(folder, exist_ok=True)
	for n in names:
		p = os.path.join(folder, n)
		with open(p, "w") as fh:
			fh.write("#!/bin/sh\nexec '%s' -B -I '%s' \"$0\" \"$@\"\n" % (python or sys.executable, os.path.abspath(__file__)))
		os.chmod(p, 0o755)
	with open(os.path.join(folder, "style.txt"), "w") as fh:
		fh.write(style)


if __name__ == "__main__":
	rc, text = run(sys.argv[1:], os.getcwd())
	sys.stdout.buffer.write(text)
	sys.stdout.flush()
	sys.exit(rc)
