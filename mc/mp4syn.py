"""Independent MP4 writer."""
import struct

from mc.rarsyn import payload


def atom(kind, data, wide=False):
	if wide:
		return struct.pack(">L", 1) + kind + struct.pack(">Q", len(data) + 16) + data
	return struct.pack(">L", len(data) + 8) + kind + data


def fullbox(kind, data, version=0, flags=0):
	return atom(kind, struct.pack(">L", version << 24 | flags) + data)


def group(samples, per):
	"""per: samples in a chunk, cycled -> list of lists"""
	out, i, k = [], 0, 0
	while i < len(samples):
		n = per[k % len(per)]
		out.append(samples[i:i + n])
		i += n
		k += 1
	return out


def stsc(counts, kind):
	runs = []
	for i, n in enumerate(counts):
		if kind == "each" or not runs or runs[-1][1] != n:
			runs.append((i + 1, n))
	return fullbox(b"stsc", struct.pack(">L", len(runs)) + b"".join(struct.pack(">LLL", a, n, 1) for a, n in runs))


def stsz(sizes, kind):
	if kind == "fixed" and sizes and len(set(sizes)) == 1 and sizes[0]:
		return fullbox(b"stsz", struct.pack(">LL", sizes[0], len(sizes)))
	if kind in ("stz8", "stz16", "stz4"):
		bits = int(kind[3:])
		if max(sizes or [0]) < 1 << bits:
			if bits == 4:
				s = list(sizes) + [0] * (len(sizes) % 2)
				body = bytes(a << 4 | b for a, b in zip(s[::2], s[1::2]))
			else:
				body = b"".join(struct.pack(">B" if bits == 8 else ">H", x) for x in sizes)
			return fullbox(b"stz2", bytes([0, 0, 0, bits]) + struct.pack(">L", len(sizes)) + body)
	return fullbox(b"stsz", struct.pack(">LL", 0, len(sizes)) + b"".join(struct.pack(">L", s) for s in sizes))


def moov(tracks, offsets, o):
	t = b""
	for n, (ident, chunks) in enumerate(tracks):
		v1 = o.get("tkhd") == 1
		if v1:
			tk = fullbox(b"tkhd", struct.pack(">QQLLQ", 3, 4, ident, 0, 999) + bytes(60), 1, 7)
		else:
			tk = fullbox(b"tkhd", struct.pack(">LLLLL", 0xC0000000, 0xC0000001, ident, 0, 999) + bytes(60), 0, 7)
		sizes = [len(s) for c in chunks for s in c]
		offs = offsets[n]
		parts = {
			"stsd": fullbox(b"stsd", struct.pack(">L", 1) + atom(b"avc1", payload("avc%d" % n, 70))),
			"stts": fullbox(b"stts", struct.pack(">LLL", 1, len(sizes), 512)),
			"stsc": stsc([len(c) for c in chunks], o.get("stsc")),
			"stsz": stsz(sizes, o.get("stsz")),
			"stco": fullbox(b"co64", struct.pack(">L", len(offs)) + b"".join(struct.pack(">Q", x) for x in offs)) if o.get("co64")
				else fullbox(b"stco", struct.pack(">L", len(offs)) + b"".join(struct.pack(">L", x) for x in offs)),
		}
		names = ["stsd", "stts", "stsc", "stsz", "stco"]
		if o.get("tables") == "rev":
			names = ["stsd", "stts", "stco", "stsz", "stsc"]
		stbl = atom(b"stbl", b"".join(parts[x] for x in names))
		minf = atom(b"minf", fullbox(b"vmhd", bytes(8), 0, 1) + atom(b"dinf", payload("dinf", 28)) + stbl)
		mdia = atom(b"mdia", fullbox(b"mdhd", bytes(20)) + fullbox(b"hdlr", bytes(4) + (b"vide" if n == 0 else b"soun") + bytes(13)) + minf)
		extra = atom(b"edts", fullbox(b"elst", struct.pack(">LLLL", 1, 999, 0, 0x10000))) if o.get("edts") else b""
		t += atom(b"trak", tk + extra + mdia)
	body = fullbox(b"mvhd", payload("mvhd", 96)) + t
	if o.get("udta"):
		body += atom(b"udta", atom(b"meta", payload("meta", 50)))
	return atom(b"moov", body, o.get("wide_moov"))


def build(tracks, order, o):
	"""tracks: list of (id, chunks); chunks: list of lists of samples
	order: list of (track index, chunk index) in file order
	o: moov "front"/"back"/"mid", mdats, header ("plain", "wide", "toend"), co64, stsc, stsz, tkhd, free, zero, edts, udta"""
	head = atom(b"ftyp", b"isom" + struct.pack(">L", 512) + b"isomavc1mp42")
	if o.get("free"):
		head += atom(b"free", payload("free", 33))
	if o.get("wide8"):
		head += atom(b"wide", b"")
	cuts = o.get("mdats", 1)
	parts = [order[len(order) * k // cuts:len(order) * (k + 1) // cuts] for k in range(cuts)]

	def mdat(part, last):
		data = b"".join(b"".join(tracks[t][1][c]) for t, c in part)
		if o.get("header") == "wide":
			return atom(b"mdat", data, True)
		if o.get("header") == "toend" and last:
			return struct.pack(">L", 0) + b"mdat" + data
		return (bytes(8) if o.get("zero") else b"") + atom(b"mdat", data)

	def place(moov_at_front):
		offsets = [[0] * len(t[1]) for t in tracks]
		pos = len(head) + moov_at_front
		for k, part in enumerate(parts):
			m = mdat(part, k == cuts - 1)
			at = pos + len(m) - sum(len(s) for t, c in part for s in tracks[t][1][c])
			for t, c in part:
				offsets[t][c] = at
				at += sum(map(len, tracks[t][1][c]))
			pos += len(m)
			if o.get("moov") == "mid" and k == 0 and cuts > 1:
				pos += len(moov(tracks, offsets, o))
		return offsets
	front = o.get("moov", "front") == "front" or o.get("header") == "toend"
	size = len(moov(tracks, [[0] * len(t[1]) for t in tracks], o)) if front else 0
	offsets = place(size)
	mv = moov(tracks, offsets, o)
	out = head + (mv if front else b"")
	for k, part in enumerate(parts):
		out += mdat(part, k == cuts - 1)
		if o.get("moov") == "mid" and k == 0 and cuts > 1 and not front:
			out += mv
	if not front and not (o.get("moov") == "mid" and cuts > 1):
		out += mv
	if o.get("free") and o.get("header") != "toend":
		out += atom(b"free", bytes(40))
	return out
