"""Independent Matroska writer."""
import zlib

from mc.rarsyn import payload


def size(n, width=0):
	"""EBML size; width 0: the least that is not the reserved all-ones value"""
	w = width or 1
	while not width and n >= (1 << (7 * w)) - 1:
		w += 1
	if n >= (1 << (7 * w)) - 1:
		raise ValueError("size %d in %d bytes" % (n, w))
	return (n | 1 << (7 * w)).to_bytes(w, "big")


def el(ident, data, width=0):
	return bytes.fromhex(ident) + size(len(data), width) + data


def uint(n, width=0):
	return n.to_bytes(width or max(1, (n.bit_length() + 7) // 8), "big")


def lace(kind, frames):
	if kind == "none":
		if len(frames) != 1:
			raise ValueError("frames without lacing")
		return b"", 0
	n = bytes([len(frames) - 1])
	if kind == "fixed":
		if len(set(map(len, frames))) > 1:
			raise ValueError("unequal frames")
		return n, 0x04
	if kind == "xiph":
		for f in frames[:-1]:
			n += b"\xff" * (len(f) // 255) + bytes([len(f) % 255])
		return n, 0x02
	# ebml
	if len(frames) == 1:
		return n, 0x06
	n += size(len(frames[0]))
	for a, b in zip(frames, frames[1:-1]):
		d = len(b) - len(a)
		w = 1
		while not -((1 << (7 * w - 1)) - 1) <= d <= (1 << (7 * w - 1)) - 1:
			w += 1
		v = d + (1 << (7 * w - 1)) - 1
		n += (v | 1 << (7 * w)).to_bytes(w, "big")
	return n, 0x06


def block(track, tc, frames, lacing="none", group=False, width=0, extra=False):
	if not all(frames) and lacing == "xiph" and not frames[-1]:
		pass
	head, flags = lace(lacing, frames)
	num = track
	w = 1
	while num >= (1 << (7 * w)) - 1:
		w += 1
	body = (num | 1 << (7 * w)).to_bytes(w, "big") + (tc & 0xffff).to_bytes(2, "big") + bytes([flags | (0 if group else 0x80)]) + head + b"".join(frames)
	if not group:
		return el("A3", body, width)
	inside = el("A1", body, width)
	inside += el("9B", uint(40))
	if extra:
		inside = el("FB", b"\x01") + inside + el("75A1", el("A6", el("EE", b"\x01") + el("A5", payload("blockadd", 9))))
	return el("A0", inside, width)


def build(blocks, tracks, attachments=None, attach_at="front", per=5, width=0, extras=(), cue=True, tail=b"", algo=True, segment_pad=0):
	"""blocks: list of (track, [frames], lacing, group); tracks: {number: (codec, strip)}
	strip: None, bytes of header stripping, "zlib": compressed with the default algorithm
	extras: names of additional elements"""
	out = el("1A45DFA3", el("4286", b"\1") + el("42F7", b"\1") + el("42F2", b"\4") + el("42F3", b"\x08") + el("4282", b"matroska") + el("4287", b"\4") + el("4285", b"\2"), width)
	seg = b""
	if "seek" in extras:
		seg += el("114D9B74", el("4DBB", el("53AB", bytes.fromhex("1549A966")) + el("53AC", uint(77, 8))), width)
	if "void" in extras:
		seg += el("EC", bytes(57), width)
	info = el("2AD7B1", uint(1000000)) + el("4489", b"\x40\x8f\x40\0") + el("7BA9", "títle".encode()) + el("4D80", b"mux 1") + el("5741", b"app 1")
	if "crc" in extras:
		info = el("BF", zlib.crc32(info).to_bytes(4, "little")) + info
	seg += el("1549A966", info, width)
	tl = b""
	for n, (codec, strip) in tracks.items():
		t = el("D7", uint(n)) + el("73C5", uint(n * 7 + 1, 8)) + el("83", b"\1" if n % 2 else b"\2") + el("86", codec)
		if "private" in extras:
			t += el("63A2", payload("private%d" % n, 300))
		if strip is not None:
			if strip == "zlib":
				c = el("4254", b"\0") if algo else b""
			else:
				c = el("4254", b"\3") + el("4255", strip)
			t += el("6D80", el("6240", el("5031", b"\0") + el("5032", b"\1") + el("5033", b"\0") + el("5034", c)))
		t += el("E0", el("B0", uint(1280)) + el("BA", uint(720)))
		tl += el("AE", t, width)
	seg += el("1654AE6B", tl, width)
	at = b""
	if attachments is not None:
		files = b""
		for k, a in enumerate(attachments):
			name, data = a[0], a[1]
			f = el("467E", b"description") + el("466E", name) + el("4660", b"application/x-font") + el("465C", data) + el("46AE", uint(k + 1, 8))
			files += el("61A7", f, width)
		at = el("1941A469", files, width)
	if attach_at == "front":
		seg += at
	if "tags" in extras:
		seg += el("1254C367", el("7373", el("63C0", b"") + el("67C8", el("45A3", b"NAME") + el("4487", b"value"))), width)
	if "chapters" in extras:
		seg += el("1043A770", el("45B9", el("45BC", uint(1)) + el("B6", el("73C4", uint(5)) + el("91", uint(0)) + el("80", el("85", b"chap") + el("437C", b"eng")))), width)
	cues = b""
	k = 0
	for at0 in range(0, max(1, len(blocks)), per):
		c = el("E7", uint(at0 * 40))
		if "crc" in extras:
			c = el("BF", b"\1\2\3\4") + c
		if "prev" in extras:
			c += el("A7", uint(at0 + 99)) + el("AB", uint(44))
		for (t, frames, lacing, group) in blocks[at0:at0 + per]:
			if "inner" in extras and k % 4 == 2:
				c += el("EC", bytes(k % 90))
			c += block(t, k * 40, frames, lacing, group, width, "blockadd" in extras)
			k += 1
		cues += el("BB", el("B3", uint(at0 * 40)) + el("B7", el("F7", uint(1)) + el("F1", uint(len(seg)))))
		seg += el("1F43B675", c, width)
	if cue:
		seg += el("1C53BB6B", cues, width)
	if attach_at == "back":
		seg += at
	if "unknown" in extras:
		seg += el("5ABC", b"unknown element", width)
	return out + el("18538067", seg, width or 8) + tail
