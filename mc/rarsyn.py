"""Independent RAR 1.5-4.x (store mode) volume writer and SRR model.

Written from the published RAR technote and SRR format notes; imports nothing
from the code under test."""
import hashlib
import struct
import zlib

MARK = b"Rar!\x1a\x07\x00"
DIRFLAG = 0x00e0


def payload(tag, size):
	"""deterministic, incompressible, distinct per tag"""
	if size <= 0:
		return b""
	return hashlib.shake_128(("payload:" + tag).encode("utf-8")).digest(size)


def crc32(b, start=0):
	return zlib.crc32(b, start) & 0xffffffff


class Block(object):
	"""head: header bytes; data: bytes following the header in the RAR;
	instored: True when an SRR keeps `data` (everything but file data and RR)"""

	def __init__(self, kind, head, data=b"", instored=True, rr=None, member=None):
		self.kind, self.head, self.data = kind, head, data
		self.instored, self.rr, self.member = instored, rr, member


def header(btype, flags, body, add=None):
	size = 7 + (4 if add is not None else 0) + len(body)
	h = struct.pack("<BHH", btype, flags, size)
	if add is not None:
		h += struct.pack("<I", add)
	h += body
	return struct.pack("<H", crc32(h) & 0xffff) + h


def mark():
	return Block("mark", MARK)


def archive(flags, res1=0, res2=0, extra=b""):
	return Block("arch", header(0x73, flags, struct.pack("<HI", res1, res2) + extra))


def encode_unicode(std, uni):
	"""plain encoding: high byte 0, opcode 2 (full 16 bit) for each char"""
	enc = bytearray([0])
	chars = [ord(c) for c in uni]
	for i in range(0, len(chars), 4):
		group = chars[i:i + 4]
		flags = 0
		body = bytearray()
		for j, c in enumerate(group):
			if c < 0x100:
				op = 0
				body.append(c)
			else:
				op = 2
				body += struct.pack("<H", c)
			flags |= op << (6 - 2 * j)
		enc.append(flags)
		enc += body
	return std + b"\0" + bytes(enc)


def file_block(name, chunk, unp_size, crc, flags=0, method=0x30, large=False,
		nolong=False, uni=None, utf8=None, salt=None, ext=None, attr=0x20, os_=2, ver=20,
		dtime=0x3c6b8a51, extra=b"", is_dir=False, btype=0x74, high=None):
	if is_dir:
		flags |= DIRFLAG
	flags |= 0x8000
	if nolong:
		flags &= ~0x8000
	std = name.encode("cp1252", "replace") if isinstance(name, str) else name
	if uni is not None:
		flags |= 0x200
		std = encode_unicode(std, uni)
	elif utf8 is not None:
		flags |= 0x200
		std = utf8.encode("utf-8")
	if large:
		flags |= 0x100
	if salt is not None:
		flags |= 0x400
	if ext is not None:
		flags |= 0x1000
	pack = len(chunk)
	body = struct.pack("<IBIIBBHI", unp_size & 0xffffffff, os_, crc, dtime, ver,
		method, len(std), attr)
	if large:
		body += struct.pack("<II", pack >> 32, unp_size >> 32)
	body += std
	if salt is not None:
		body += salt
	if ext is not None:
		body += ext
	body += extra
	h = header(btype, flags, body, add=pack & 0xffffffff)
	return Block("file" if btype == 0x74 else "newsub", h, chunk, instored=btype != 0x74)


def newsub(name, data, method=0x30, extra=b"", flags=0x4000, large=False):
	b = file_block(name, data, len(data), crc32(data), flags=flags, method=method,
		attr=0, btype=0x7a, ver=29, extra=extra, large=large)
	b.kind = "newsub"
	return b


def recovery_data(protected, sectors):
	n = (len(protected) + 511) // 512
	crcs = bytearray()
	rs = [bytearray(512) for _ in range(sectors)]
	for i in range(n):
		s = protected[i * 512:(i + 1) * 512].ljust(512, b"\0")
		crcs += struct.pack("<H", (~crc32(s)) & 0xffff)
		p = rs[i % sectors]
		for k in range(512):
			p[k] ^= s[k]
	return n, bytes(crcs) + b"".join(bytes(r) for r in rs)


def new_rr(protected, sectors):
	n, data = recovery_data(protected, sectors)
	b = newsub("RR", data, extra=b"Protect+" + struct.pack("<IQ", sectors, n), flags=0xC000)
	b.instored = False
	b.kind = "rr"
	b.rr = sectors
	return b


def old_rr(protected, sectors, nolong=False):
	n, data = recovery_data(protected, sectors)
	h = header(0x78, 0x4000 if nolong else 0xC000, struct.pack("<BHI", 20, sectors, n) + b"Protect!", add=len(data))
	return Block("rr", h, data, instored=False, rr=sectors)


def old_comment(text=b"hello"):
	body = struct.pack("<HBBH", len(text), 20, 0x30, crc32(text) & 0xffff) + text
	return Block("oldcmt", header(0x75, 0, body))


def old_av(btype=0x79, data=b""):
	if data:
		return Block("av", header(btype, 0xC000, b"\x01\x02\x03", add=len(data)), data)
	return Block("av", header(btype, 0x4000, b"\x11\x22\x33\x44\x55"))


def end_block(kind, more, volno, vol_crc):
	if kind == "bare":
		return Block("end", header(0x7b, 0x4000 | (1 if more else 0), b""))
	if kind == "full":
		return Block("end", header(0x7b, 0x4000 | 0x0e | (1 if more else 0),
			struct.pack("<IH", vol_crc, volno) + b"\0" * 7))
	if kind == "crcnum":
		return Block("end", header(0x7b, 0x4000 | 0x0a | (1 if more else 0),
			struct.pack("<IH", vol_crc, volno)))
	if kind == "gvd26":
		return Block("end", header(0x7b, 0x400f, struct.pack("<IH", vol_crc, volno) + b"\0" * 13))
	if kind == "zero":  # P0W4: everything but the size is zero
		return Block("end", struct.pack("<HBHH", 0, 0, 0, 20) + b"\0" * 13)
	raise ValueError(kind)


class Volume(object):
	def __init__(self, name, blocks, pad=b""):
		self.name, self.blocks, self.pad = name, blocks, pad

	def bytes(self):
		return b"".join(b.head + b.data for b in self.blocks) + self.pad

	def srr_meta(self):
		"""what an SRR keeps of this volume"""
		out = b"".join(b.head + (b.data if b.instored else b"") for b in self.blocks)
		if self.pad:
			out += struct.pack("<HBHHI", 0x6c6c, 0x6c, 0x8000, 11, len(self.pad)) + self.pad
		return out


def volume_names(naming, base, n):
	if naming == "old":
		out = [base + ".rar"]
		for i in range(n - 1):
			out.append("%s.%s%02d" % (base, chr(ord("r") + i // 100), i % 100))
		return out
	if naming == "new":
		w = 1 if n < 10 else 2 if n < 100 else 3
		return ["%s.part%0*d.rar" % (base, w, i + 1) for i in range(n)]
	if naming == "new2":
		return ["%s.part%02d.rar" % (base, i + 1) for i in range(n)]
	if naming == "num":
		return ["%s.%03d" % (base, i + 1) for i in range(n)]
	if naming == "OLD":
		return [x.upper() for x in volume_names("old", base, n)]
	if naming == "NEW":
		return [x.upper() for x in volume_names("new", base, n)]
	raise ValueError(naming)


class Member(object):
	def __init__(self, name, size=0, is_dir=False, data=None, **kw):
		self.name = name            # name inside the RAR, with backslashes
		self.is_dir = is_dir
		self.data = b"" if is_dir else (payload(name, size) if data is None else data)
		self.kw = kw

	@property
	def disk_name(self):
		return (self.kw.get("uni") or self.kw.get("utf8") or self.name).replace("\\", "/")


def build_set(members, cuts=(), naming="old", base="rel", rr=None, end="full", pad=b"",
		cmt=None, pre=(), arch_flags=0, vol_always=False, pad_volumes="all", extra_last=None):
	"""members: list of Member; cuts: ascending list of (member index, offset):
	a volume boundary before byte `offset` of that member (offset 0: between members).
	Returns list of Volume."""
	parts = [[]]
	cuts = list(cuts)
	for mi, m in enumerate(members):
		mycuts = [c[1] for c in cuts if c[0] == mi]
		if mycuts and mycuts[0] == 0:
			parts.append([])
			mycuts = mycuts[1:]
		bounds = [0] + [max(0, c) for c in mycuts] + [len(m.data)]  # -1: an empty first part
		for k in range(len(bounds) - 1):
			if k:
				parts.append([])
			parts[-1].append((m, bounds[k], bounds[k + 1], k > 0, k < len(bounds) - 2))
	n = len(parts)
	names = volume_names(naming, base, n)
	vols = []
	for vi, plist in enumerate(parts):
		af = arch_flags
		if n > 1 or vol_always:
			af |= 0x0001
			if vi == 0:
				af |= 0x0100
		if naming in ("new", "new2", "NEW"):
			af |= 0x0010
		if rr:
			af |= 0x0040
		blocks = [mark(), archive(af)]
		if vi == 0 and cmt:
			if cmt == "cmt":
				blocks.append(newsub("CMT", payload("cmt", 33), method=0x33))
			elif cmt == "cmtstore":
				blocks.append(newsub("CMT", b"Rar!\x1a\x07\x00 a comment", method=0x30))
			elif cmt == "cmt0":
				blocks.append(newsub("CMT", b"", method=0x30))
			elif cmt == "oldcmt":
				blocks.append(old_comment())
			elif cmt == "av":
				blocks.append(newsub("AV", payload("av", 17)))
			elif cmt == "oldav":
				blocks.append(old_av(0x76, payload("av76", 9)))
			elif cmt == "oldsub":
				blocks.append(old_av(0x77, payload("sub77", 21)))
			elif cmt == "sign":
				blocks.append(old_av(0x79))
			elif cmt == "acl":
				blocks.append(newsub("ACL", payload("acl", 12), method=0x33))
			elif cmt == "cmtlarge":
				blocks.append(newsub("CMT", payload("cmtl", 20), method=0x33, large=True))
			elif cmt == "unk":
				blocks.append(newsub("UOWNER", payload("uo", 5)))
			else:
				raise ValueError(cmt)
		for (m, a, b, before, after) in plist:
			chunk = m.data[a:b]
			c = crc32(chunk) if after else crc32(m.data)
			fl = (1 if before else 0) | (2 if after else 0)
			kw = dict(m.kw)
			fl |= kw.pop("flags", 0)
			crc = kw.pop("crc", None)
			unp = len(m.data)
			packer = kw.pop("packer", None)
			if packer == "late" and after:     # the size is only in the last volume
				unp = 0xffffffffffffffff
				kw["large"] = True
			elif packer == "unknown":          # never a size
				unp = 0xffffffff
			blk = file_block(m.name, chunk, unp, c if crc is None else crc,
				flags=fl, is_dir=m.is_dir, **kw)
			blk.member = (m, a, b)
			blocks.append(blk)
		sofar = b"".join(x.head + x.data for x in blocks)
		if rr:
			kind, sectors = rr
			if kind == "new":
				blocks.append(new_rr(sofar, sectors))
			elif kind == "old":
				blocks.append(old_rr(sofar, sectors))
			elif kind == "oldnolong":
				blocks.append(old_rr(sofar, sectors, nolong=True))
			sofar = b"".join(x.head + x.data for x in blocks)
		if end:
			blocks.append(end_block(end, vi < n - 1, vi, crc32(sofar)))
		p = pad if end in ("full", "bare", "crcnum", "gvd26") else b""
		if pad_volumes == "first" and vi:
			p = b""
		vols.append(Volume(names[vi], blocks, p))
	return vols


# ---------------------------------------------------------------- SRR model
def srr_header(app):
	a = app.encode("utf-8")
	if not a:
		return struct.pack("<HBHH", 0x6969, 0x69, 0, 7)
	return struct.pack("<HBHHH", 0x6969, 0x69, 1, 9 + len(a), len(a)) + a


def srr_stored(name, data):
	n = name.encode("utf-8")
	return struct.pack("<HBHHIH", 0x6a6a, 0x6a, 0x8000, 13 + len(n), len(data), len(n)) + n + data


def srr_rarfile(name, flags=1):
	n = name.encode("utf-8")
	return struct.pack("<HBHHH", 0x7171, 0x71, flags, 9 + len(n), len(n)) + n


def srr_oso(name, size, hash_hex):
	n = name.encode("utf-8")
	return struct.pack("<HBHHQQH", 0x6b6b, 0x6b, 0, 25 + len(n), size, int(hash_hex, 16), len(n)) + n


def build_srr(app, stored, volumes, oso=(), prefix=""):
	out = srr_header(app)
	for n, d in stored:
		out += srr_stored(n, d)
	for v in volumes:
		out += srr_rarfile(prefix + v.name) + v.srr_meta()
	for n, s, h in oso:
		out += srr_oso(n, s, h)
	return out


def oso_hash(data):
	"""published OpenSubtitles hash; None when shorter than 128 KiB"""
	w = 65536
	if len(data) < 2 * w:
		return None
	h = len(data)
	for part in (data[:w], data[-w:]):
		for (v,) in struct.iter_unpack("<Q", part):
			h = (h + v) & 0xffffffffffffffff
	return "%016x" % h


class SrrParse(object):
	"""independent SRR parser: header, ordered stored files, rest (bytes)"""

	def __init__(self, data):
		self.app = None
		self.stored = []
		self.rest = b""
		self.items = []     # ("stored", name, data) / ("block", bytes)
		self.rars = []      # names
		self.oso = []
		self.error = None
		pos = 0
		n = len(data)
		removed = True
		while pos < n:
			if n - pos < 7:
				self.error = "short block header at %d" % pos
				return
			crc, t, fl, hs = struct.unpack_from("<HBHH", data, pos)
			if hs < 7 or pos + hs > n:
				self.error = "bad block length at %d" % pos
				return
			head = data[pos:pos + hs]
			add = 0
			if t in (0x74, 0x7a) or fl & 0x8000:
				if hs < 11:
					self.error = "no add size at %d" % pos
					return
				(add,) = struct.unpack_from("<I", head, 7)
			if t == 0x69:
				if pos:
					self.error = "second SRR header at %d" % pos
					return
				if fl & 1:
					(l,) = struct.unpack_from("<H", head, 7)
					if 9 + l != hs:
						self.error = "application name length"
						return
					self.app = head[9:9 + l].decode("utf-8")
				else:
					self.app = ""
				pos += hs
				continue
			if pos == 0:
				self.error = "no SRR header"
				return
			if t == 0x6a:
				size, l = struct.unpack_from("<IH", head, 7)
				if 13 + l != hs or pos + hs + size > n:
					self.error = "stored file overruns at %d" % pos
					return
				name = head[13:13 + l].decode("utf-8")
				d = data[pos + hs:pos + hs + size]
				self.stored.append((name, d))
				self.items.append(("stored", name, d))
				pos += hs + size
				continue
			skip = hs
			if t == 0x71:
				(l,) = struct.unpack_from("<H", head, 7)
				self.rars.append(head[9:9 + l].decode("utf-8"))
				removed = bool(fl & 1)
			elif t == 0x6b:
				size, h, l = struct.unpack_from("<QQH", head, 7)
				self.oso.append((head[25:25 + l].decode("utf-8"), size, "%016x" % h))
			elif t == 0x74:
				pass
			elif t == 0x78 or (t == 0x7a and hs > 34 and head[26:28] == b"\2\0" and head[32:34] == b"RR"):
				if not removed:
					skip += add
			else:
				skip += add
			if pos + skip > n:
				self.error = "block data overruns at %d" % pos
				return
			b = data[pos:pos + skip]
			self.items.append(("block", b))
			self.rest += b
			pos += skip
