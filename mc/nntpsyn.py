"""News servers in memory, behind the real nntplib: a post, what each server has of it and what goes wrong."""
import contextlib
import io
import nntplib
import optparse

from mc import core
from mc import yencsyn as ys


class World(object):
	"""articles: {message id: [lines]}; hosts: names; faults: {"at": {request number: damage}, "on": {(host, message id): damage}}
	A request is a BODY, HEAD or STAT command on any host; they are counted from 0."""

	def __init__(self, articles, hosts=("main", "alt"), faults=None, lines_header="right", other=None, limit=400):
		self.articles = dict(articles)
		self.hosts = hosts
		self.faults = faults or {}
		self.lines_header = lines_header
		self.log = []
		self.other = other or {}
		self.dead = set()
		self.limit = limit
		self.fired = 0

	def fault(self, host, cmd, mid):
		k = len(self.log)
		self.log.append((host, cmd, mid))
		if len(self.log) > self.limit:
			raise core.CaseTimeout()
		d = self.faults.get("at", {}).get(k) or self.faults.get("on", {}).get((host, mid))
		self.fired += d is not None
		return d


class Sock(object):
	def __init__(self, world, host):
		self.world, self.host = world, host

	def makefile(self, *_a, **_k):
		return File(self.world, self.host)

	def settimeout(self, *_a):
		pass

	def shutdown(self, *_a):
		pass

	def close(self):
		pass


class File(object):
	def __init__(self, world, host):
		self.world, self.host = world, host
		self.out = io.BytesIO(b"200 " + host.encode() + b" ready\r\n")
		self.pending = b""
		self.eof = False

	def close(self):
		pass

	def flush(self):
		pass

	def readline(self, limit=-1):
		line = self.out.readline(limit)
		if not line and self.boom:
			raise self.boom
		return line
	boom = None	# what reading on gives
	gone = False	# closed by the server

	def reply(self, data):
		# what was not read yet stays in front
		rest = self.out.read()
		self.out = io.BytesIO(rest + data)

	def write(self, data):
		if self.boom or self.gone:
			raise BrokenPipeError(32, "Broken pipe")
		self.pending += data
		while b"\n" in self.pending:
			line, _, self.pending = self.pending.partition(b"\n")
			self.command(line.rstrip(b"\r").decode("latin-1"))

	def command(self, line):
		w = self.world
		cmd, _, arg = line.partition(" ")
		cmd = cmd.upper()
		if cmd == "CAPABILITIES":
			self.reply(b"101 list\r\nVERSION 2\r\nREADER\r\n.\r\n")
		elif cmd == "MODE":
			self.reply(b"200 ok\r\n")
		elif cmd == "AUTHINFO":
			self.reply(b"281 ok\r\n" if arg.upper().startswith("PASS") else b"381 more\r\n")
		elif cmd == "GROUP":
			self.reply(b"211 5 1 5 " + arg.encode() + b"\r\n" if "bad" not in arg else b"411 no such group\r\n")
		elif cmd == "QUIT":
			self.reply(b"205 bye\r\n")
		elif cmd in ("BODY", "HEAD", "STAT"):
			self.article(cmd, arg.strip().strip("<>"))
		else:
			self.reply(b"500 what?\r\n")

	def article(self, cmd, mid):
		w = self.world
		d = w.fault(self.host, cmd, mid)
		lines = w.articles.get(mid)
		kind = d[0] if isinstance(d, (tuple, list)) else d
		if lines is None or kind == "430":
			return self.reply(b"430 no such article\r\n")
		if kind in ("400", "502"):
			self.reply(kind.encode() + b" go away\r\n")
			self.gone = True
			return
		if kind == "reset":
			self.boom = ConnectionResetError(104, "Connection reset by peer")
			return
		if kind == "timeout":
			self.boom = TimeoutError("timed out")
			return
		if kind == "closed":
			self.gone = True	# an end of file instead of an answer
			return
		head = "0 <%s>" % mid
		if cmd == "STAT":
			return self.reply(b"223 " + head.encode() + b" exists\r\n")
		if cmd == "HEAD":
			n = {"right": len(lines), "none": None, "few": max(11, len(lines) // 4), "many": len(lines) * 40 + 20, "zero": 0}[w.lines_header]
			h = [b"From: p@x", b"Subject: s"] + ([b"Lines: %d" % n] if n is not None else []) + [b"Message-ID: <" + mid.encode() + b">"]
			return self.reply(b"221 " + head.encode() + b" head\r\n" + b"".join(x + b"\r\n" for x in h) + b".\r\n")
		lines = damaged(list(lines), d, w, mid)
		raw = b"".join((b"." if x.startswith(b".") else b"") + x + b"\r\n" for x in lines)
		start = b"222 " + head.encode() + b" body\r\n"
		if kind == "eof":
			self.gone = True
			return self.reply(start + raw[:len(raw) // 2])
		if kind == "drop":
			self.reply(start + raw[:len(raw) // 2])
			self.gone = True
			self.boom = ConnectionResetError(104, "Connection reset by peer")
			return
		self.reply(start + raw + b".\r\n")


def is_data(x):
	return not x.startswith((b"=ybegin", b"=ypart", b"=yend"))


def damaged(lines, d, w, mid):
	"""an article as a server with bad luck has it"""
	kind = d[0] if isinstance(d, (tuple, list)) else d
	data = [i for i, x in enumerate(lines) if is_data(x)]
	if kind is None or kind in ("eof", "drop"):
		return lines
	if kind == "flip":	# one byte of the data; d[1]: which line (0: first, -1: last, ...)
		i = data[d[1] % len(data)] if data else 0
		x = bytearray(lines[i])
		p = len(x) // 2
		if p and x[p - 1] == 0x3d:
			p -= 2 if p > 1 else 0
		for v in (x[p] ^ 1, x[p] ^ 2, x[p] ^ 4, 0x41, 0x42, 0x43):
			if v not in (0, 10, 13, 0x3d, 0x2e, x[p]):
				x[p] = v
				break
		lines[i] = bytes(x)
		return lines
	if kind == "lost":	# a line of the data
		del lines[data[d[1] % len(data)]]
		return lines
	if kind == "cut":	# ends in the middle
		return lines[:data[0] + max(1, len(data) // 2)]
	if kind == "cutend":	# only the =yend line is gone
		return lines[:-1]
	if kind == "headless":	# the =ybegin line is gone
		return lines[1:]
	if kind == "empty":
		return []
	if kind == "text":
		return [b"This article was removed."] * 5
	if kind == "other":	# another article of the same post, or of another one
		return list(w.other[d[1]] if d[1] in w.other else w.articles[d[1]])
	if kind == "number":	# the headers say another part number
		a, b = d[1]
		return [x.replace(b" part=%d " % a, b" part=%d " % b) if x.startswith((b"=ybegin", b"=yend")) else x for x in lines]
	raise core.HarnessError("no damage %r" % (d,))


def post(name, data, size, width=16, mid="f", single=False):
	"""-> ({message id: lines}, [(bytes, number, message id)]) of a file posted in parts of `size` bytes"""
	n = max(1, -(-len(data) // size))
	arts, segs = {}, []
	for i in range(n):
		m = "%s.%d@h" % (mid, i + 1)
		part = None if single and n == 1 else (i + 1, n, i * size, min(len(data), (i + 1) * size))
		arts[m] = ys.article(data, name.encode("utf-8"), part=part, width=width)
		segs.append((sum(len(x) + 2 for x in arts[m]), i + 1, m))
	return arts, segs


_mod = None


def module():
	global _mod
	if _mod is None:
		core.setup_repo_path()
		with contextlib.redirect_stdout(io.StringIO()):
			import srr_usenet as m
		_mod = m
	return _mod


@contextlib.contextmanager
def connected(world, lines=4, ignore_crc=True, servers=None):
	"""srr_usenet with these servers -> the module"""
	m = module()
	keep = dict((k, getattr(m, k)) for k in ("EXTRA_SERVERS", "NNTP_SERVER", "NNTP_PORT", "NNTP_LOGIN", "NNTP_PASSWORD", "NO_CLI_SERVER", "DEFAULT_LINES", "IGNORE_CRC_ERRORS"))
	real = nntplib.NNTP._create_socket
	fake = nntplib.socket

	def create(self, timeout):
		if self.host in world.dead:
			raise ConnectionRefusedError(111, "Connection refused")
		return Sock(world, self.host)
	nntplib.NNTP._create_socket = create
	m.EXTRA_SERVERS = [(h, 119, "", "") for h in world.hosts]
	m.NNTP_SERVER, m.NNTP_PORT, m.NNTP_LOGIN, m.NNTP_PASSWORD = m.EXTRA_SERVERS[0]
	m.NO_CLI_SERVER = 1
	m.DEFAULT_LINES = lines
	m.IGNORE_CRC_ERRORS = ignore_crc
	had = getattr(m, "options", None)
	m.options = optparse.Values({"nntp_debug_level": 0, "nostat": False, "group": False, "dry_run": False, "fuckup": False, "output_dir": None})
	try:
		with contextlib.redirect_stdout(io.StringIO()):
			yield m
	finally:
		nntplib.NNTP._create_socket = real
		for k, v in keep.items():
			setattr(m, k, v)
		m.options = had


class Segment(object):
	def __init__(self, b, n, m):
		self.bytes, self.number, self.message_id = b, n, m


class NzbFile(object):
	"""what the NZB reader gives"""
	def __init__(self, name, segs, groups=("a.b.c",)):
		self.poster, self.subject, self.groups = "p", '[1/1] "%s" yEnc (1/%d)' % (name, len(segs)), list(groups)
		self.segments = [Segment(*s) for s in segs]
