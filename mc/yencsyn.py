"""Articles as they are posted: yEnc after yenc-draft 1.3, independent of the decoder."""
import zlib

ALWAYS = frozenset((0x00, 0x0a, 0x0d, 0x3d))
EDGES = frozenset((0x09, 0x20))
COMMON = frozenset((0x09, 0x1b, 0x20, 0x2e))
# "=y" starts a control line: what would be escaped that way never is
EVERY = frozenset(range(256)) - {(ord("y") - 64) & 0xff}


def encode_lines(data, width, escapes=ALWAYS, edges=True, dots=True):
	"""-> the encoded lines; escapes: the encoded values that are escaped;
	edges: spaces and tabs at the edges of a line too; dots: a dot in column one too"""
	lines, cur, col = [], bytearray(), 0
	for i, b in enumerate(data):
		e = (b + 42) & 0xff
		edge = col == 0 or col >= width - 1 or i == len(data) - 1
		if e in escapes or e in ALWAYS or (edges and edge and e in EDGES) or (dots and col == 0 and e == 0x2e):
			cur += bytes((0x3d, (e + 64) & 0xff))
			col += 2
		else:
			cur.append(e)
			col += 1
		if col >= width:
			lines.append(bytes(cur))
			cur, col = bytearray(), 0
	if cur:
		lines.append(bytes(cur))
	return lines


def crc(data):
	return b"%08x" % (zlib.crc32(data) & 0xffffffff)


def article(whole, name, part=None, width=128, extra_begin=(), extra_end=(), ypart=True, crcs=("part",), upper=False, **kw):
	"""the lines of one article as nntplib gives them.
	part: None for a single part post or (number, total, begin, end), begin counting from 0"""
	data = whole if part is None else whole[part[2]:part[3]]
	head = b"=ybegin"
	if part:
		head += b" part=%d" % part[0]
		if part[1]:
			head += b" total=%d" % part[1]
	head += b" line=%d size=%d" % (width, len(whole))
	for x in extra_begin:
		head += b" " + x
	head += b" name=" + name
	lines = [head]
	if part and ypart:
		lines.append(b"=ypart begin=%d end=%d" % (part[2] + 1, part[3]))
	body = encode_lines(data, width, **kw)
	lines += body
	tail = b"=yend size=%d" % len(data)
	if part:
		tail += b" part=%d" % part[0]
		c, w = crc(data), crc(whole)
		if upper:
			c, w = c.upper(), w.upper()
		if "part" in crcs:
			tail += b" pcrc32=" + c
		if "whole" in crcs:
			tail += b" crc32=" + w
	else:
		tail += b" crc32=" + (crc(data).upper() if upper else crc(data))
	for x in extra_end:
		tail += b" " + x
	lines.append(tail)
	return lines
