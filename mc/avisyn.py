"""Independent AVI writer."""
import struct

from mc.rarsyn import payload


def chunk(fourcc, data, pad=0):
	return fourcc + struct.pack("<L", len(data)) + data + (bytes([pad]) if len(data) % 2 else b"")


def lst(kind, fourcc, body):
	return kind + struct.pack("<L", len(body) + 4) + fourcc + body


KINDS = [b"dc", b"wb", b"sb", b"db", b"wb", b"wb"]


def build(frames, n_tracks, index="rel", rec=False, odml=False, junk=(), pad=0, trailer=b"", ids=None, extra_hdrl=b"", palette=False):
	"""frames: list of (track, bytes)"""
	ids = ids or list(range(n_tracks))
	strl = b""
	for i in range(n_tracks):
		strl += lst(b"LIST", b"strl", chunk(b"strh", payload("strh%d" % i, 56)) + chunk(b"strf", payload("strf%d" % i, 40 + i)))
	hdrl = lst(b"LIST", b"hdrl", chunk(b"avih", payload("avih", 56)) + strl + extra_hdrl)
	head = hdrl + lst(b"LIST", b"INFO", chunk(b"ISFT", b"maker 1.0\0")) + chunk(b"JUNK", payload("junk", 31))

	def movi(frames, base, first):
		body = b""
		idx = []
		group = b""
		for k, (t, data) in enumerate(frames):
			cc = b"%02d" % ids[t] + KINDS[t % len(KINDS)]
			c = chunk(cc, data, pad)
			if k in junk:
				body += chunk(b"JUNK", payload("j%d" % k, 13 + k), pad)
			if palette and k == 1:
				c = chunk(b"%02dpc" % ids[t], payload("pal", 20)) + c
			idx.append((cc, len(body) + 4, len(data)))
			if rec and k % 3 == 0:
				c2 = lst(b"LIST", b"rec ", c)
				idx[-1] = (cc, len(body) + 4 + 12, len(data))
				c = c2
			body += c
		if odml:
			body += chunk(b"ix00", payload("ix", 24))
		return lst(b"LIST", b"movi", body), idx
	half = len(frames) // 2 if odml else len(frames)
	m1, idx = movi(frames[:half], 0, True)
	base = 12 + len(head)
	ix = b""
	if index:
		for cc, off, ln in idx:
			o = off if index == "rel" else off + base + 8 if index == "abs" else off + 1000003
			ix += cc + struct.pack("<LLL", 16, o, ln)
		ix = chunk(b"idx1", ix)
	out = lst(b"RIFF", b"AVI ", head + m1 + ix)
	if odml:
		m2, _ = movi(frames[half:], 0, False)
		out += lst(b"RIFF", b"AVIX", m2)
	return out + trailer
