"""NZB files: a writer with every liberty the format gives, and a strict reader (expat), both independent of the code under test.

An entry is (poster, date, subject, (group, ...), ((bytes, number, message id), ...))."""
from xml.parsers import expat

NS = "http://www.newzbin.com/DTD/2003/nzb"


def esc(s, style="named", quote='"', encoding="utf-8"):
	out = []
	for ch in s:
		if ch == "&":
			t = {"named": "&amp;", "dec": "&#38;", "hex": "&#x26;"}[style]
		elif ch == "<":
			t = {"named": "&lt;", "dec": "&#60;", "hex": "&#x3c;"}[style]
		elif ch == ">":
			t = {"named": "&gt;", "dec": ">", "hex": "&#x3E;"}[style]
		elif ch == quote:
			t = {"named": "&quot;" if ch == '"' else "&apos;", "dec": "&#%d;" % ord(ch), "hex": "&#x%x;" % ord(ch)}[style]
		elif ch in "\r\n\t":
			t = "&#%d;" % ord(ch)
		else:
			t = ch
			try:
				ch.encode(encoding)
			except UnicodeEncodeError:
				t = "&#%d;" % ord(ch) if style != "hex" else "&#x%X;" % ord(ch)
		out.append(t)
	return "".join(out)


def build(entries, decl="utf-8", doctype=True, nl="\n", indent="  ", head=False, comment=False, quote='"',
		escapes="named", order=0, cdata=False, selfclose=False, tail="\n", raw=None):
	"""-> bytes of an NZB file"""
	enc = decl or "utf-8"
	E = lambda s: esc(s, escapes, quote, enc)
	at = lambda *kv: " ".join("%s=%s%s%s" % (k, quote, E(v), quote) for k, v in (kv[order % len(kv):] + kv[:order % len(kv)]))
	o = []
	if decl:
		o.append('<?xml version="1.0" encoding="%s"?>' % decl)
	if doctype:
		o.append('<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">')
	if comment:
		o.append('<!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->')
	o.append("<nzb xmlns=%s%s%s>" % (quote, NS, quote))
	if head:
		o.append(indent + "<head>")
		o.append(indent * 2 + '<meta type="title">A &amp; B</meta>')
		o.append(indent * 2 + '<meta type="tag">HD</meta>')
		o.append(indent + "</head>")
	for poster, date, subject, groups, segments in entries:
		o.append(indent + "<file %s>" % at(("poster", poster), ("date", str(date)), ("subject", subject)))
		if comment:
			o.append(indent * 2 + "<!-- <file poster=\"no\" date=\"1\" subject=\"no\"> -->")
		if groups or not selfclose:
			o.append(indent * 2 + "<groups>")
			for g in groups:
				o.append(indent * 3 + "<group>%s</group>" % E(g))
			o.append(indent * 2 + "</groups>")
		else:
			o.append(indent * 2 + "<groups/>")
		if segments or not selfclose:
			o.append(indent * 2 + "<segments>")
			for b, n, mid in segments:
				t = "<![CDATA[%s]]>" % mid if cdata else E(mid)
				o.append(indent * 3 + "<segment %s>%s</segment>" % (at(("bytes", str(b)), ("number", str(n))), t))
			o.append(indent * 2 + "</segments>")
		else:
			o.append(indent * 2 + "<segments />")
		o.append(indent + "</file>")
	o.append("</nzb>")
	return (nl.join(o) + tail).encode(enc)


class Bad(Exception):
	pass


def parse(data):
	"""-> list of entries; Bad when it is no NZB file"""
	out, st = [], []
	cur = {}

	def start(name, attrs):
		st.append(name)
		cur["text"] = ""
		if name == NS + " file":
			if st[:-1] != [NS + " nzb"]:
				raise Bad("a file inside %r" % st)
			cur["file"] = [attrs["poster"], int(attrs["date"]), attrs["subject"], [], []]
		elif name == NS + " segment":
			cur["seg"] = (int(attrs["bytes"]), int(attrs["number"]))

	def end(name):
		st.pop()
		if name == NS + " group":
			cur["file"][3].append(cur["text"])
		elif name == NS + " segment":
			cur["file"][4].append(cur["seg"] + (cur["text"],))
		elif name == NS + " file":
			f = cur["file"]
			out.append((f[0], f[1], f[2], tuple(f[3]), tuple(f[4])))
		cur["text"] = ""

	def text(t):
		cur["text"] += t
	p = expat.ParserCreate(namespace_separator=" ")
	p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
	try:
		p.Parse(data, True)
	except (expat.ExpatError, KeyError, ValueError) as e:
		raise Bad("%s: %s" % (type(e).__name__, e))
	return out


def entry(name, n=1, subject=None, poster="p@x (P)", date=1234567890, groups=("alt.binaries.x",), segs=2, size=1000):
	return (poster, date, subject if subject is not None else '[ %s ]-[1/2] - "%s" yEnc (1/%d)' % (name.rsplit(".", 1)[0], name, segs),
		tuple(groups), tuple((size + i, i + 1, "%s.%d.%d@h" % (name.replace(" ", "_"), n, i + 1)) for i in range(segs)))
