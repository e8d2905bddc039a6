"""Independent writer for music files: FLAC metadata blocks and the tags around FLAC and MP3 data."""
import struct

from mc.rarsyn import payload


def synchsafe(n):
	return bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])


def id3v2(n, seed="id3", inside=b""):
	"""a tag of n bytes besides its header"""
	body = inside[:n] + payload(seed, max(0, n - len(inside)))
	return b"ID3\x03\0\0" + synchsafe(n) + body.replace(b"\xff", b"\xfe").replace(b"ID3", b"id3") if not inside else b"ID3\x03\0\0" + synchsafe(n) + body


def id3v1(seed="v1"):
	return b"TAG" + bytes(b & 127 for b in payload(seed, 125))


def lyrics1(n, seed="lyr"):
	return b"LYRICSBEGIN" + bytes(32 + b % 90 for b in payload(seed, n)) + b"LYRICSEND"


def lyrics2(n, seed="lyr2"):
	body = b"LYRICSBEGIN" + bytes(32 + b % 90 for b in payload(seed, n))
	return body + b"%06d" % len(body) + b"LYRICS200"


def ape(version, n, seed="ape", header=True):
	"""n bytes of items; version 1000 tags have no header"""
	items = bytes(b & 127 for b in payload(seed, n))
	foot = lambda flags: b"APETAGEX" + struct.pack("<LLLL", version, n + 32, 3, flags) + bytes(8)
	if version == 1000:
		return items + foot(0)
	if not header:
		return items + foot(0)
	return foot(0xa0000000) + items + foot(0x80000000)


def flac_block(kind, data, last):
	return bytes([kind | (0x80 if last else 0)]) + struct.pack(">L", len(data))[1:] + data


def flac(blocks, audio, before=b"", after=b""):
	"""blocks: list of (type, bytes), the first is STREAMINFO"""
	return before + b"fLaC" + b"".join(flac_block(k, d, i == len(blocks) - 1) for i, (k, d) in enumerate(blocks)) + audio + after


def audio(n, kind="flac", seed="audio"):
	"""n bytes of frames: no sync mark or tag name besides the one at the start"""
	data = payload(seed, n).replace(b"\xff", b"\xfe")
	head = {"flac": b"\xff\xf8", "flac9": b"\xff\xf9", "mp3": b"\xff\xfb\x90\x64", "mp2": b"\xff\xe0\0\0", "riff": b"RIFF"}[kind]
	return (head + data)[:n]
