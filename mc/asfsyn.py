"""Independent ASF (WMV) writer."""
import struct

from mc.rarsyn import payload

HEADER = bytes.fromhex("3026B2758E66CF11A6D900AA0062CE6C")
DATA = bytes.fromhex("3626B2758E66CF11A6D900AA0062CE6C")
STREAM = bytes.fromhex("9107DCB7B7A9CF118EE600C00C205365")
FILE = bytes.fromhex("A1DCAB8C47A9CF118EE400C00C205365")
CONTENT = bytes.fromhex("3326B2758E66CF11A6D900AA0062CE6C")
EXTENSION = bytes.fromhex("B503BF5F2EA9CF118EE300C00C205365")
INDEX = bytes.fromhex("90080033B1E5CF1189F400A0C90349CB")


def obj(guid, data):
	return guid + struct.pack("<Q", len(data) + 24) + data


def field(kind, value):
	"""0: none, 1: byte, 2: word, 3: dword"""
	return b"" if kind == 0 else struct.pack("<" + " BHL"[kind], value & (0xff, 0xff, 0xffff, 0xffffffff)[kind])


class Packer(object):
	def __init__(self, o):
		self.o = o
		self.size = o.get("psize", 500)
		self.prop = o.get("prop", 0x5d)  # stream 1 byte, object 1 byte, offset 4 bytes, replicated 1 byte
		self.padtype = o.get("padtype", 1)
		self.lentype = o.get("lentype", 0)
		self.seqtype = o.get("seqtype", 0)
		self.out = []
		self.number = {}
		self.k = 0

	def room(self, multi):
		return self.size - len(self.head(multi, 0, 0, 1))

	def head(self, multi, pad, length, count):
		flags = (1 if multi else 0) | self.seqtype << 1 | self.padtype << 3 | self.lentype << 5
		h = b"\x82\0\0" + bytes([flags, self.prop])
		h += field(self.lentype, length) + field(self.seqtype, self.k) + field(self.padtype, pad)
		h += struct.pack("<LH", self.k * 40, 40)
		if multi:
			h += bytes([0x80 | count])
		return h

	def payload_head(self, stream, number, offset, total, key, multi, length, compressed=False):
		h = bytes([stream | (0x80 if key else 0)])
		h += field(self.prop >> 4 & 3, number)
		h += field(self.prop >> 2 & 3, self.k if compressed else offset)
		rep = self.o.get("rep", 8) if self.prop & 3 else 0
		if compressed:
			h += field(self.prop & 3, 1) + b"\x28"
		else:
			h += field(self.prop & 3, rep)
			if rep:
				h += struct.pack("<LL", total, self.k * 40) + payload("rep", rep - 8)
		if multi:
			h += struct.pack("<H", length)
		return h

	def flush(self, multi, payloads):
		"""payloads: list of (header without length, data)"""
		body = b"".join(payloads)
		given = self.padtype
		gap = self.size - len(self.head(multi, 0, 0, len(payloads))) - len(body)
		if given == 1 and gap > 255:
			self.padtype = 2
			gap -= 1
		assert gap >= 0, gap
		length = 0
		pad = gap
		if self.lentype:
			length = self.size
			if self.o.get("short"):
				length = self.size - gap
				pad = 0
		if not self.padtype and not self.lentype:
			assert gap == 0, gap
		elif not self.padtype:
			length = self.size - gap
		fill = self.o.get("fill", 0)
		p = bytes(gap) if not fill else payload("padding%d" % (self.k if fill == 2 else 0), gap)
		self.out.append(self.head(multi, pad, length, len(payloads)) + body + p)
		assert len(self.out[-1]) == self.size
		self.padtype = given
		self.k += 1

	def pack(self, objects):
		"""objects: list of (stream number, bytes, key)"""
		kind = self.o.get("kind", "multi")
		cur, used = [], 0
		i = 0
		while i < len(objects):
			stream, data, key = objects[i]
			n = self.number.get(stream, 0)
			self.number[stream] = n + 1
			k = kind
			if kind == "mixed":
				k = ["multi", "single", "comp"][self.k % 3]
			if k in ("comp", "compsingle") and (not self.prop & 3 or len(data) > 255):
				k = "multi" if k == "comp" else "single"
			if k == "comp" or k == "compsingle":
				# a group of small objects of the same stream in one payload
				multi = k == "comp"
				if cur:
					self.flush(True, cur)
					cur, used = [], 0
				group = b""
				while i < len(objects) and objects[i][0] == stream and len(objects[i][1]) < 256 and len(group) + len(objects[i][1]) + 1 + 20 < self.room(multi):
					group += bytes([len(objects[i][1])]) + objects[i][1]
					i += 1
				if group:
					self.flush(multi, [self.payload_head(stream, n, 0, 0, key, multi, len(group), True) + group])
					continue
				k = "single" if k == "compsingle" else "multi"
			at = 0
			first = True
			while first or at < len(data):
				first = False
				multi = k == "multi"
				h = len(self.payload_head(stream, n, at, len(data), key, multi, 0))
				if not multi:
					if cur:
						self.flush(True, cur)
						cur, used = [], 0
					part = data[at:at + self.room(False) - h]
					self.flush(False, [self.payload_head(stream, n, at, len(data), key, False, len(part)) + part])
				else:
					if used and (self.room(True) - used < h + min(self.o.get("least", 1), len(data) - at) or len(cur) >= self.o.get("most", 63)):
						self.flush(True, cur)
						cur, used = [], 0
					part = data[at:at + self.room(True) - used - h]
					p = self.payload_head(stream, n, at, len(data), key, True, len(part)) + part
					cur.append(p)
					used += len(p)
				at += len(part)
			i += 1
		if cur:
			self.flush(True, cur)
		return self.out


def build(objects, streams, o):
	"""objects: list of (stream number, bytes); streams: the declared stream numbers"""
	packets = Packer(o).pack([(s, d, i % 5 == 0) for i, (s, d) in enumerate(objects)])
	psize = o.get("psize", 500)
	count = 0
	subs = []
	extra = o.get("extra", ())
	if "ext" in extra:
		subs.append(obj(EXTENSION, payload("ext", 18) + struct.pack("<L", 60) + payload("ext2", 60)))
	for s in streams:
		subs.append(obj(STREAM, payload("st", 32) + struct.pack("<QLLHL", 0, 20, 10, s, 0) + payload("st%d" % s, 30)))
	if "content" in extra:
		subs.append(obj(CONTENT, struct.pack("<HHHHH", 4, 2, 2, 2, 2) + b"t\0\0\0" + bytes(8)))
	data = obj(DATA, payload("fileid", 16) + struct.pack("<QH", len(packets), 0x101) + b"".join(packets))
	tail = b""
	if "index" in extra:
		tail += obj(INDEX, payload("index", 32 + 6 * 5))
	if "index2" in extra:
		tail += obj(payload("guid2", 16), payload("index2", 200)) + obj(INDEX, payload("index3", 32))
	count = len(subs) + 1
	size = 30 + sum(map(len, subs)) + 104 + len(data) + len(tail)
	subs.insert(o.get("fileat", 0) % (len(subs) + 1), obj(FILE, payload("fileid", 16) + struct.pack("<QQQQQQLLLL", size, 7, len(packets), 8, 9, 3000, 2, psize, psize, 100000)))
	head = b"".join(subs)
	out = HEADER + struct.pack("<QLBB", len(head) + 30, count, 1, 2) + head + data + tail
	assert len(out) == size
	return out
