"""U03: NZB files are read completely, and the NZB tools never lose an entry."""
import contextlib
import io
import itertools
import optparse
import os
import time

from mc import core
from mc import faults as F
from mc import nzbsyn as ns
from mc.rescenelib import write, read, tree
from checks.r04 import faults as fault_list

PROPERTY = "U03"
SHIM = True
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive enumeration of NZB files (structure, spelling, repairable damage, every truncation), of tool input sets and orders, and of crash points and faults at the libc boundary, against an independent NZB writer and reader"
LEVEL_NOTE = ("Reading, with each of the three parsers: all combinations of up to 3 (thorough 4) non-default spellings of an NZB file, all counts of files, groups and segments up to 2 (3), every XML character below U+0400 and samples of every later block, each repairable damage in all spellings, every truncation. "
	"Merging: all sets of up to 3 (4) NZB files; splitting: all sequences of up to 4 (5) files over 7 subject shapes with earlier output and input inside the output folder; sample extraction, renaming and moving by age over small folders. "
	"Every file operation of 13 scenarios fails, tears, is interrupted or is the last one. A segment without message id and NZB files with other XML errors than the documented ones are not claimed; neither is which file name a subject gives beyond the quoted one.")
RULE = "one evaluation = one NZB file read, or one tool run (with at most one fault); outcomes are (kind, how it ended)"

FORMS = {
	"decl": ["utf-8", None, "iso-8859-1", "us-ascii", "utf-16"], "doctype": [True, False], "nl": ["\n", "\r\n", ""], "indent": ["  ", "", "\t"], "head": [False, True],
	"comment": [False, True], "quote": ['"', "'"], "escapes": ["named", "dec", "hex"], "order": [0, 1, 2], "cdata": [False, True], "selfclose": [False, True], "tail": ["\n", "", "\n\n"],
}
MIX = [
	ns.entry("A.Release-GRP.r00", segs=3),
	("J\xf6hn <j@x>", 0, "&amp; < > \" ' \xe9 [1/2] \"a & b.rar\" yEnc (1/1)", ("a.b.c", "a.b.d-e"), ((5, 2, "b&1<2>@h"), (7, 1, "a@h"), (5, 2, "b&1<2>@h"))),
	("p", 1300000000, "", (), ()),
]
BREAK = ["amp", "amp-entity", "ouml", "nul", "no end", "double end", "double end bare", "empty", "all"]
SAME_REL = "[ %s ]-[1/9] - \"%s\" yEnc (1/2)"


def chunks():
	cps = [c for c in range(0x20, 0x400)] + [9, 10, 13]
	cps += [b + o for b in range(0x400, 0xd800, 0x100) for o in (0, 0x7f, 0xff)] + [0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff]
	return [cps[i:i + 64] for i in range(0, len(cps), 64)]


def cases(ctx):
	from mc.deviate import deviations, full
	cs = []
	for dv in deviations(FORMS, ctx.pick(3, 4)):
		cs.append({"k": "form", "f": full(FORMS, dv)})
	n = ctx.pick(2, 3)
	shapes = list(itertools.product(range(n + 1), repeat=2))
	for m in range(0, n + 1):
		for combo in itertools.product(shapes, repeat=m):
			cs.append({"k": "counts", "c": [list(x) for x in combo]})
	for i in range(len(chunks())):
		for field in ("poster", "subject", "group", "id"):
			cs.append({"k": "chars", "i": i, "field": field})
	for b in BREAK:
		for dv in deviations(FORMS, ctx.pick(1, 2)):
			f = full(FORMS, dv)
			if f["decl"] != "utf-16" and not f["cdata"]:	# an ampersand in a CDATA section isn't wrong
				cs.append({"k": "broken", "how": b, "f": f})
	for dv in deviations(FORMS, 1):
		if "cdata" not in dv:
			cs.append({"k": "cut", "f": full(FORMS, dv)})
	for tz in ("UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-13:45"):
		cs.append({"k": "dates", "tz": tz})
	cs.append({"k": "names"})
	cs += merges(ctx) + splits(ctx) + samples(ctx) + moves(ctx)
	cs += [{"k": "fault", "s": s} for s in sorted(SCENARIOS)]
	return cs


def merges(ctx):
	out = []
	kinds = [0, 1, 2, "empty", "broken"]
	for m in range(0, ctx.pick(3, 4) + 1):
		for combo in itertools.product(kinds, repeat=m):
			for names in (["a.nzb", "bb.nzb", "ccc.nzb", "dddd.nzb"], ["longer.nzb", "x.NZB", "same2.nzb", "same1.nzb"]):
				for extra in ("", "others"):
					for via in ("call", "main"):
						out.append({"k": "merge", "c": list(combo), "names": names[:m], "extra": extra, "via": via})
	return out


# shape -> (subject, the release it belongs to; None: only exactly once matters; "": must be reported)
SHAPES = {
	"A": ('[ Rel.One-GRP ]-[1/2] - "rel-one.r%02d" yEnc (1/2)', "Rel.One-GRP"),
	"B": ('[1/2]-[ Rel.Two-GRP ]- "rel-two.part%02d.rar" yEnc (1/2)', "Rel.Two-GRP"),
	"S": ('[:SEK9:][9%02d]-[:Rel:Three?-GRP:] "x.sfv" (1/1)', "Rel_Three_-GRP"),
	"C": ('(Rel.Four-GRP Powered by Cheese) "four.s%02d" yEnc (1/2)', "Rel.Four-GRP"),
	"F": ('[ Rel.One-GRP ] "read%02d.txt" yEnc (1/2)', ""),
	"E": ('".rar"', ""),
	"N": ('"nothing%02d.mkv" yEnc (1/2)', None),
}


def splits(ctx):
	out = []
	for m in range(0, ctx.pick(4, 5) + 1):
		for seq in itertools.product(sorted(SHAPES), repeat=m):
			for old in ("none", "good") if m < 4 else ("none",):
				for where in ("apart", "inside", "named") if m < 4 else ("apart",):
					out.append({"k": "split", "seq": "".join(seq), "old": old, "where": where})
	for seq in ("A", "AB", "BA", "BAB"):
		for where in ("apart", "inside"):
			out.append({"k": "split", "seq": seq, "old": "broken", "where": where})
			out.append({"k": "split", "seq": seq, "old": "empty", "where": where})
	return out


EXTS = ["avi", "mkv", "mp4", "wmv", "vob", "m2ts", "rar", "nfo"]


def samples(ctx):
	out = []
	for opts in itertools.product((False, True), repeat=6):
		out.append({"k": "sample", "opts": list(opts), "max": -1, "out": "default", "via": "files"})
	for mx in (-1, 0, 1, 2000, 2001, 2002, 10 ** 9):
		for o in ("default", "other", "own", "has"):
			for via in ("files", "dir"):
				out.append({"k": "sample", "opts": [True] * 3 + [False] * 3, "max": mx, "out": o, "via": via})
	return out


def moves(ctx):
	out = []
	rel = ["One.Long.Release.Name-GRP", "Two.Long.Release.Name-GRP", None]
	for m in range(0, 4):
		for combo in itertools.product(range(3), repeat=m):
			for music in (0, 1, 2):
				for have in ("nothing", "folder", "folders", "clash"):
					out.append({"k": "rename", "c": list(combo), "music": music, "have": have})
	for days in itertools.product((5, 10, 15, 20, 25), repeat=2):
		for have in ("nothing", "folder", "clash", "list"):
			out.append({"k": "age", "days": list(days), "have": have})
	return out


def explore(ctx):
	cs = cases(ctx)
	allo = set()
	for d in ctx.run(cs):
		for o in d or ():
			allo.add(tuple(o))
	ctx.cover.update(evaluations=len(cs) + ctx.steps, cases=len(cs), faults=sum(1 for _ in allo), distinct_nontrivial=len(ctx.outcomes) + len(allo))


# ----------------------------------------------------------------------
def mods():
	core.setup_repo_path()
	import nzb_utils, nzb_merge, nzb_split, nzb_sample_extract, nzb_rename, nzb_age
	return nzb_utils, nzb_merge, nzb_split, nzb_sample_extract, nzb_rename, nzb_age


def captured(fn, *a):
	"""-> (what it returned, None or the exception's name, printed lines)"""
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out):
			r = fn(*a)
		return r, None, out.getvalue().splitlines()
	except (Exception, SystemExit) as e:
		return None, type(e).__name__ + ": " + str(e)[:80], out.getvalue().splitlines()


def plain(files):
	return [(f.poster, int(f.date.timestamp()), f.subject, tuple(g or "" for g in f.groups),
		tuple((s.bytes, s.number, getattr(s, "message_id", "")) for s in f.segments)) for f in files]


def parsers():
	"""the one in use first"""
	import pynzb
	ps = [pynzb.nzb_parser]
	for c in (pynzb.LXMLNZBParser, pynzb.ETreeNZBParser, pynzb.ExpatNZBParser):
		if c is not None and not isinstance(ps[0], c):
			ps.append(c())
	return ps


def check_read(res, data, want, label, roundtrip=True):
	u = mods()[0]
	ps = parsers()
	try:
		# which one a user has depends on what is installed
		for p in ps[1:]:
			u.pynzb.nzb_parser = p
			check_read_with(res, data, want, label + " " + type(p).__name__, False)
	finally:
		u.pynzb.nzb_parser = ps[0]
	check_read_with(res, data, want, label, roundtrip)


def check_read_with(res, data, want, label, roundtrip):
	u = mods()[0]
	p = write(os.path.join(core.scratch(), "in.nzb"), data)
	files, err, _ = captured(u.read_nzb, p)
	if err:
		res.bad("read:" + label, "reading fails (%s): %r" % (err, data[:300]))
		return
	have = plain(files)
	if have != want:
		res.bad("read:" + label, "wrong entries: %r instead of %r" % (have, want))
		return
	if read(p) != data:
		res.bad("touched", "reading changed the NZB file")
	if not roundtrip:
		return

	def save():
		doc = u.empty_nzb_document()
		for f in files:
			u.add_file(doc, f)
		return u.get_xml(doc)
	xml, err, _ = captured(save)
	if err:
		res.bad("write:" + label, "writing fails: %s" % err)
		return
	try:
		back = ns.parse(xml)
	except ns.Bad as e:
		back = "bad: %s" % e
	if back != want:
		res.bad("write:" + label, "wrong entries are written: %r instead of %r" % (back, want))


def run_case(c):
	res = core.Result()
	globals()["case_" + c["k"]](c, res)
	if not res.outcome or res.outcome == "ok":
		res.outcome = c["k"]
	return res


def case_form(c, res):
	data = ns.build(MIX, **c["f"])
	if ns.parse(data) != MIX:
		raise core.HarnessError("the writer and the reader disagree: %r" % data)
	check_read(res, data, MIX, "form")


def case_counts(c, res):
	want = []
	for i, (g, s) in enumerate(c["c"]):
		want.append(("p%d" % i, 1234567890 + i, "s%d" % i, tuple("a.b.%d" % j for j in range(g, 0, -1)),
			tuple((100 * i + j, (j * 2) % 3 + 1, "m%d.%d@h" % (i, j)) for j in range(s))))
	for sc in (False, True):
		check_read(res, ns.build(want, selfclose=sc), want, "counts")
		res.steps += 1


def case_chars(c, res):
	s = "".join(chr(cp) for cp in chunks()[c["i"]])
	# a tab or line break in an attribute is written as it is by minidom of Python before 3.13
	s = s.replace("\r", "").replace("\n", "").replace("\t", "")
	e = {"poster": (s, 1, "s", ("g",), ((1, 1, "m@h"),)), "subject": ("p", 1, s, ("g",), ((1, 1, "m@h"),)),
		"group": ("p", 1, "s", (s,), ((1, 1, "m@h"),)), "id": ("p", 1, "s", ("g",), ((1, 1, s),))}[c["field"]]
	for decl in ("utf-8", "us-ascii", "iso-8859-1"):
		for st in ("named", "dec", "hex"):
			check_read(res, ns.build([e], decl=decl, escapes=st), [e], "chars")
			res.steps += 1


def broken(how, f):
	mix = list(MIX[:2])
	enc = f["decl"] or "utf-8"
	if how == "empty":
		return b"", []
	data = None
	if how in ("amp", "amp-entity", "all"):
		mark = {"amp": "R&B; x && y & ", "amp-entity": "A&B &#x26; &amp; &lt; &#1601; &", "all": "R&B &ouml;"}[how]
		want = {"amp": "R&B; x && y & ", "amp-entity": "A&B & & < \u0641 &", "all": "R&B \xf6"}[how]
		mix.append(("p", 5, "X%sX" % want, ("g",), ((1, 1, "m@h"),)))
		data = ns.build(mix[:-1] + [("p", 5, "XMARKX", ("g",), ((1, 1, "m@h"),))], **f)
		data = data.replace(b"XMARKX", ("X" + mark + "X").encode("ascii"))
	if how == "ouml":
		mix.append(("J\xf6", 5, "\xf6 x \xf6", ("g",), ((1, 1, "m@h"),)))
		data = ns.build(mix[:-1] + [("JMARK", 5, "MARK x MARK", ("g",), ((1, 1, "m@h"),))], **f).replace(b"MARK", b"&ouml;")
	if data is None:
		data = ns.build(mix, **f)
	if how in ("nul", "all"):
		data = data.replace(b"<file ", b"\0<file\0 ").replace(b"</segments>", b"</seg\0ments>")
	if how == "no end":
		data = data[:data.rindex(b"</nzb>")]
	if how in ("double end", "double end bare"):
		# the tag is repeated on a line of its own
		data = data[:data.rindex(b"</nzb>")].rstrip() + b"\n<!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->\n</nzb>\n</nzb>" + (b"\n" if how == "double end" else b"")
	return data, mix


def case_broken(c, res):
	data, want = broken(c["how"], c["f"])
	check_read(res, data, want, "broken " + c["how"])
	res.outcome = "broken " + c["how"]


def case_cut(c, res):
	u = mods()[0]
	mix = MIX[:2]
	data = ns.build(mix, **c["f"])
	p = os.path.join(core.scratch(), "in.nzb")
	ends = {}
	# bytes after which only the closing tag is missing: that one is added
	fine = set(n for n in range(len(data) + 1) if data[:n].rstrip(b"\0\r\n\t ").endswith((b"</file>", b"</head>", b"</nzb>", b"-->")) or n == 0)
	ps = parsers()
	try:
		for parser in ps:
			u.pynzb.nzb_parser = parser
			for n in range(len(data) + 1):
				write(p, data[:n])
				files, err, _ = captured(u.read_nzb, p)
				res.steps += 1
				if err:
					ends["refused"] = ends.get("refused", 0) + 1
					if n == len(data):
						res.bad("cut", "the whole file isn't read: %s" % err)
					continue
				have = plain(files)
				ends[len(have)] = ends.get(len(have), 0) + 1
				if have != mix[:len(have)] or (c["f"]["decl"] != "utf-16" and len(have) != data[:n].count(b"</file>")):
					res.bad("cut", "cut at byte %d: entries that are not in the file: %r (%s)" % (n, have, type(parser).__name__))
				elif have and n not in fine and c["f"]["decl"] != "utf-16":
					res.bad("cut accepted", "cut at byte %d, inside an element: %d files are read and nothing is reported (%s)" % (n, len(have), type(parser).__name__))
				if read(p) != data[:n]:
					res.bad("touched", "reading changed the NZB file")
	finally:
		u.pynzb.nzb_parser = ps[0]
	res.data = [["cut"] + sorted(map(str, ends))]


def case_dates(c, res):
	old = os.environ.get("TZ")
	os.environ["TZ"] = c["tz"]
	time.tzset()
	try:
		# around the changes of the clock in 2009 (Europe and America) in steps of a quarter of an hour
		for start in (1238288400, 1256432400, 1236495600, 1257055200, 0, 86400 * 365 * 30, 2 ** 31 - 7200):
			ds = [start + 900 * i for i in range(0 if start == 0 else -20, 21)]
			want = [("p", d, "s%d" % d, ("g",), ((1, 1, "m%d@h" % d),)) for d in ds if d >= 0]
			check_read(res, ns.build(want), want, "dates")
			res.steps += len(want)
	finally:
		if old is None:
			os.environ.pop("TZ", None)
		else:
			os.environ["TZ"] = old
		time.tzset()


def case_names(c, res):
	u = mods()[0]
	names = ["a.rar", "a b.r00", "a-b (1/2).nfo", "x.vol00+01.par2", "[1].sfv", "\xe9.nzb", "a", "yEnc (1/2)"]
	want = []
	for pre in ("", "[1/2] - ", "[#a.b.x@EFNet]-[ Rel-GRP ]-[1/2] - ", "Re: (x) ", "a & <b> "):
		for post in ("", " yEnc (1/2)", " (1/20)", " - 12.3 MB - yEnc (01/12)"):
			for n in names:
				s = '%s"%s"%s' % (pre, n, post)
				want.append((n, s))
				got, err, _ = captured(u.parse_name, s)
				res.steps += 1
				if err or got != n:
					res.bad("name", "file name of %r: %r %s" % (s, got, err or ""))
	es = [("p", 100 + i, s, ("g",), ((1, 1, "m@h"),)) for i, (n, s) in enumerate(want)]
	p = write(os.path.join(core.scratch(), "x.nzb"), ns.build(es))
	got, err, _ = captured(u.list_filenames, p)
	if err or [(n, int(d.timestamp())) for n, d in got] != [(w[0], 100 + i) for i, w in enumerate(want)]:
		res.bad("list", "list_filenames: %r %s" % (got, err))


# ----------------------------------------------------------------------
def nzb_bytes(kind, i):
	"""-> (bytes, entries or None if unreadable)"""
	if kind == "empty":
		return b"", []
	if kind == "broken":
		return ns.build([ns.entry("x%d.rar" % i)])[:-60], None
	es = [ns.entry("f%d.%d & \xe9.rar" % (i, j), i * 10 + j, segs=j + 1) for j in range(kind)]
	return ns.build(es), es


def all_entries(folder):
	out = []
	for f, d in sorted(tree(folder).items()):
		if f.lower().endswith(".nzb") and d is not None:
			try:
				out += ns.parse(d)
			except ns.Bad:
				pass
	return out


def merge_world(c, root):
	folder = os.path.join(root, "main", "Rel")
	os.makedirs(folder)
	ins = {}
	for i, k in enumerate(c["c"]):
		d, es = nzb_bytes(k, i)
		write(os.path.join(folder, c["names"][i]), d)
		ins[c["names"][i]] = (d, es)
	others = {}
	if c["extra"]:
		others = {"readme.txt": b"text", "nzb": b"no", "dir.nzb/inner.nzb": ns.build([ns.entry("inner.rar")]), "a.nzb.bak": b"bak"}
		for f, d in others.items():
			write(os.path.join(folder, f), d)
	return folder, ins, others


def merge_state(res, folder, ins, others, ended, label):
	now = tree(folder)
	for f, d in others.items():
		if now.pop(f, None) != d:
			res.bad("merge others", "%s: %s changed" % (label, f))
	now = dict((f, d) for f, d in now.items() if d is not None and not (f + "/").startswith("dir.nzb/"))
	full = sorted(e for d, es in ins.values() for e in (es or []))
	small = min((len(n) for n in ins), default=0)
	target = None
	for n in ins:
		if len(n) == small and n in now:
			try:
				if sorted(ns.parse(now[n])) == full:
					target = n
			except ns.Bad:
				pass
	lost = [n for n, (d, es) in ins.items() if now.get(n) != d]
	unreadable = any(es is None for d, es in ins.values())
	if lost and not target:
		res.bad("merge loss", "%s (%s): %s not as it was, and no complete merged file: %s" % (label, ended, sorted(lost), sorted(now)))
	if unreadable and len(ins) > 1 and lost:
		res.bad("merge refused", "%s: an unreadable NZB file, but %s changed" % (label, lost))
	if ended == "ok" and len(ins) > 1 and not unreadable:
		if not target or sorted(now) != [target]:
			res.bad("merge result", "%s: expected the merged file and nothing else: %s" % (label, sorted(now)))
		else:
			es = ns.parse(now[target])
			for d, part in ins.values():
				it = iter(es)
				if not all(any(e == x for x in it) for e in part):
					res.bad("merge order", "%s: the files of one NZB file are in another order" % label)
	if ended == "ok" and len(ins) < 2 and lost:
		res.bad("merge single", "%s: a single NZB file was changed" % label)
	return target


def case_merge(c, res):
	m = mods()[1]
	root = core.scratch()
	folder, ins, others = merge_world(c, root)
	if c["via"] == "call":
		_, err, _ = captured(m.merge_nzbs, folder)
	else:
		# a second release before and after
		for n in ("AAA", "ZZZ"):
			write(os.path.join(root, "main", n, "one.nzb"), ns.build([ns.entry("one.rar")]))
			write(os.path.join(root, "main", n, "two_.nzb"), ns.build([ns.entry("two.rar", 2)]))
		write(os.path.join(root, "main", "loose.nzb"), ns.build([ns.entry("loose.rar")]))
		write(os.path.join(root, "main", "loose2.nzb"), ns.build([ns.entry("loose2.rar")]))
		_, err, _ = captured(m.main, optparse.Values(), [os.path.join(root, "main")])
		for n in ("AAA", "ZZZ"):
			if sorted(all_entries(os.path.join(root, "main", n))) != sorted([ns.entry("one.rar"), ns.entry("two.rar", 2)]):
				res.bad("merge neighbour", "entries of another release were lost")
			if not err and os.listdir(os.path.join(root, "main", n)) != ["one.nzb"]:
				res.bad("merge neighbour", "another release isn't merged: %s" % os.listdir(os.path.join(root, "main", n)))
		for n in ("loose", "loose2"):
			if ns.parse(read(os.path.join(root, "main", n + ".nzb"))) != [ns.entry(n + ".rar")]:
				res.bad("merge neighbour", "a file outside the release folders changed")
	readable = not any(es is None for d, es in ins.values())
	if err and (readable or len(ins) < 2):
		res.bad("merge fails", "merging readable NZB files fails: %s" % err)
	if not err and not readable and len(ins) > 1:
		res.bad("merge accepted", "an unreadable NZB file is merged")
	merge_state(res, folder, ins, others, "failed" if err else "ok", "merge %r %r" % (c["c"], c["names"]))
	res.outcome = "merge %d %s" % (len(ins), "refused" if err else "ok")


def split_world(c, root):
	out = os.path.join(root, "out")
	os.makedirs(out)
	es, exp = [], []
	for i, s in enumerate(c["seq"]):
		subj, rel = SHAPES[s]
		es.append(ns.entry("f%d" % i, i, subject=subj % i if "%" in subj else subj))
		exp.append(rel)
	old = {}
	if c["old"] == "good":
		old = {"Rel.One-GRP.nzb": ns.build([ns.entry("earlier.r00", 77)]), ".nzb": ns.build([ns.entry("hidden.r00", 78)]), "zz.nzb": ns.build([ns.entry("zz.r00", 79)]), "other.txt": b"x"}
	elif c["old"] == "broken":
		old = {"Rel.One-GRP.nzb": ns.build([ns.entry("earlier.r00", 77)])[:-40]}
	elif c["old"] == "empty":
		old = {"Rel.One-GRP.nzb": b""}
	if c["where"] == "named":
		old.pop("Rel.One-GRP.nzb", None)
	for f, d in old.items():
		write(os.path.join(out, f), d)
	inp = {"apart": os.path.join(root, "in", "big.nzb"), "inside": os.path.join(out, "big.nzb"), "named": os.path.join(out, "Rel.One-GRP.nzb")}[c["where"]]
	data = ns.build(es)
	write(inp, data)
	return out, inp, data, es, exp, old


def split_state(res, world, c, lines, ended, label):
	out, inp, data, es, exp, old = world
	if not os.path.isfile(inp) or read(inp) != data:
		res.bad("split input", "%s (%s): the NZB file that is split was changed" % (label, ended))
		return
	now = tree(out)
	if c["where"] != "apart":
		now.pop(os.path.basename(inp))
	got = {}
	for f, d in now.items():
		if d is None or not f.endswith(".nzb"):
			continue
		try:
			got[f] = ns.parse(d)
		except ns.Bad as e:
			if old.get(f) != d:
				res.bad("split partial", "%s (%s): %s is no complete NZB file: %s" % (label, ended, f, e))
			else:
				got[f] = []
	earlier = []
	for f, d in old.items():
		if f not in now:
			res.bad("split earlier", "%s: %s is gone" % (label, f))
			continue
		try:
			o = ns.parse(d) if f.endswith(".nzb") else None
		except ns.Bad:
			o = None
		if o is None:
			if now[f] != d and (d or f not in got):
				res.bad("split earlier", "%s: %s changed" % (label, f))
		else:
			earlier += o
			if not all(e in got.get(f, []) for e in o):
				res.bad("split earlier", "%s (%s): %s lost an entry it had" % (label, ended, f))
	have = [e for f in got for e in got[f]]
	for e in have:
		if e not in es and e not in earlier:
			res.bad("split invented", "%s: an entry that was not there: %r" % (label, e))
	if any(have.count(e) > 1 for e in have):
		res.bad("split twice", "%s: an entry is written twice" % label)
	for e, rel in zip(es, exp):
		if rel and e in have and e not in got.get(rel + ".nzb", []):
			res.bad("split place", "%s: %r is not in %s.nzb" % (label, e[2], rel))
	if ended != "ok":
		return
	failed = [x[len("Failed: "):] for x in lines if x.startswith("Failed: ")]
	for e, rel in zip(es, exp):
		n = have.count(e)
		told = e[2] in failed
		named = c["where"] == "named" and rel == "Rel.One-GRP"
		if n + told != 1 and not (e[2] == '".rar"' and n == 0 and told):
			res.bad("split lost", "%s: %r is in %d files%s" % (label, e[2], n, " and reported as failed" if told else ", and not reported"))
		elif rel and not named and n != 1:
			res.bad("split refused", "%s: %r is reported as failed" % (label, e[2]))
		elif rel is None and n != 1:
			res.bad("split refused", "%s: %r is reported as failed" % (label, e[2]))
	order = [e for e in es]
	for f, g in got.items():
		mine = [e for e in g if e in es]
		if mine != [e for e in order if e in mine]:
			res.bad("split order", "%s: the entries of %s are in another order" % (label, f))


def do_split(inp, out, substring=False):
	s = mods()[2]
	return captured(s.main, optparse.Values({"substring": substring}), [inp, out])


def case_split(c, res):
	world = split_world(c, core.scratch())
	_, err, lines = do_split(world[1], world[0])
	touches_old = c["old"] == "broken" and "A" in c["seq"] and c["where"] != "named"
	if err and not touches_old:
		res.bad("split fails", "splitting %r fails: %s" % (c, err))
	if not err and touches_old:
		res.bad("split accepted", "the unreadable earlier output is replaced")
	split_state(res, world, c, lines, "failed" if err else "ok", "split %s" % c)
	res.outcome = "split %s %s" % (c["where"], "refused" if err else "ok")


# ----------------------------------------------------------------------
def sample_world(c, root):
	names = []
	for e in EXTS:
		names += ["x." + e, "y." + e.upper(), "z." + e + ".par2", "v." + e + ".vol00+01.PAR2", "n." + e + ".txt", "n." + e + "x"]
	es = [ns.entry(n, i, size=1000 if i % 2 else 1001, segs=2) for i, n in enumerate(names)]	# 2001 and 2003 bytes
	d = os.path.join(root, "in")
	write(os.path.join(d, "a.nzb"), ns.build(es))
	write(os.path.join(d, "b.NZB"), ns.build([ns.entry("only.rar")]))
	write(os.path.join(d, "c.nzb"), b"<nzb><bro")
	write(os.path.join(d, "d.txt"), b"d")
	outd = {"default": os.path.join(d, "samples"), "other": os.path.join(root, "out", "deep"), "own": d, "has": os.path.join(root, "has")}[c["out"]]
	if c["out"] == "has":
		write(os.path.join(outd, "a.nzb"), ns.build([ns.entry("former.avi")]))
	return d, outd, names, es


def do_sample(c, d, outd):
	m = mods()[3]
	o = c["opts"]
	m.options = optparse.Values(dict(output_dir=None if c["out"] == "default" else outd, avisample=o[0], mkvsample=o[1], mp4sample=o[2],
		wmvsample=o[3], vobsample=o[4], m2tssample=o[5], max_size=c["max"]))
	args = [d] if c["via"] == "dir" else [os.path.join(d, n) for n in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, n))]
	return captured(m.main, m.options, args)


def sample_want(c, names, es):
	exts = [e for e, on in zip(EXTS, c["opts"]) if on] or ["avi", "mkv"]
	out = []
	for n, e in zip(names, es):
		low = n.lower()
		if any(low.endswith(s) for x in exts for s in ("." + x, "." + x + ".par2", "." + x + ".vol00+01.par2")):
			if int(c["max"]) <= 0 or sum(s[0] for s in e[4]) <= int(c["max"]):
				out.append(e)
	return out


def case_sample(c, res):
	root = core.scratch()
	d, outd, names, es = sample_world(c, root)
	before = dict((f, x) for f, x in tree(d).items())
	_, err, lines = do_sample(c, d, outd)
	if err:
		res.bad("sample fails", "sample extraction fails: %s" % err)
	now = tree(d)
	if any(now.get(f) != x for f, x in before.items()):
		res.bad("sample input", "%r: an input file changed" % c)
	want = sample_want(c, names, es)
	if c["out"] == "own":
		return
	got = tree(outd) if os.path.isdir(outd) else {}
	had = {"a.nzb": ns.build([ns.entry("former.avi")])} if c["out"] == "has" else {}
	if want:
		try:
			x = ns.parse(got.get("a.nzb", b""))
		except ns.Bad as e:
			x = "unreadable: %s" % e
		if x != want:
			res.bad("sample result", "%r: extracted %r instead of %r" % (c, x, want))
	elif got != had:
		res.bad("sample result", "%r: nothing to extract, but %r" % (c, sorted(got)))
	if set(got) - {"a.nzb"}:
		res.bad("sample extra", "%r: also written: %r" % (c, sorted(got)))
	res.outcome = "sample %s %d" % (c["out"], len(want))


def conserved(res, root, contents, label):
	now = list(tree(root).values())
	for d in contents:
		if d in now:
			now.remove(d)
		else:
			res.bad("moved away", "%s: an NZB file is gone: %r" % (label, d[:200]))
			return


def rename_world(c, root):
	d = os.path.join(root, "in")
	os.makedirs(d)
	rel = ["One.Long.Release.Name-GRP", "Two.Long.Release.Name-GRP", None]
	contents = []
	for i, r in enumerate(c["c"]):
		if rel[r] is None:
			x = b"" if i else b"<nzb><broken"
		else:
			n = "t%d.%s" % (i, ["rar", "mp3", "flac"][c["music"]])
			x = ns.build([ns.entry(n, i, subject=SAME_REL % (rel[r], n))])
		write(os.path.join(d, "in%d.nzb" % i), x)
		contents.append(x)
	if c["have"] != "nothing":
		os.makedirs(os.path.join(d, "processed"))
	if c["have"] in ("folders", "clash"):
		os.makedirs(os.path.join(d, "processed", "music"))
		os.makedirs(os.path.join(d, "processed", "other"))
	if c["have"] == "clash":
		for sub in ("music", "other"):
			for n in ("One.Long.Release.Name-GRP.nzb", "in0.nzb", ".nzb"):
				x = ns.build([ns.entry("former %s %s" % (sub, n))])
				contents.append(x)
				write(os.path.join(d, "processed", sub, n), x)
	return d, contents, rel


def case_rename(c, res):
	m = mods()[4]
	root = core.scratch()
	d, contents, rel = rename_world(c, root)
	_, err, _ = captured(m.main, optparse.Values(), [d])
	if err:
		res.bad("rename fails", "renaming fails: %s" % err)
	conserved(res, root, contents, "rename %r" % c)
	sub = "music" if c["music"] else "other"
	now = tree(d)
	for r in (0, 1):
		if r in c["c"]:
			if "processed/%s/%s.nzb" % (sub, rel[r]) not in now:
				res.bad("rename result", "rename %r: there is no %s.nzb: %s" % (c, rel[r], sorted(now)))
			same = [f for f in now if "/" not in f and now[f] in contents and rel[r].encode() in now[f]]
			if len(same) != c["c"].count(r) - (0 if r == 0 and c["have"] == "clash" else 1):
				res.bad("rename result", "rename %r: left %s" % (c, same))


def case_age(c, res):
	m = mods()[5]
	root = core.scratch()
	d, outd = os.path.join(root, "in"), os.path.join(root, "out")
	contents = []
	now = int(time.time())
	for i, days in enumerate(c["days"]):
		x = ns.build([ns.entry("f%d.rar" % i, i, date=now - days * 86400 - 3600)])
		contents.append(x)
		write(os.path.join(d, "f%d.nzb" % i), x)
	keep = b"<nzb>keeps the folder</nzb>"
	write(os.path.join(d, "keep.txt"), keep)
	if c["have"] in ("folder", "clash"):
		os.makedirs(outd)
	if c["have"] == "clash":
		x = ns.build([ns.entry("former.rar")])
		contents.append(x)
		write(os.path.join(outd, "f0.nzb"), x)
	o = optparse.Values({"output_dir": None if c["have"] == "list" else outd})
	_, err, lines = captured(m.main, o, ["9-21", d])
	if err:
		res.bad("age fails", "%r: %s" % (c, err))
	conserved(res, root, contents + [keep], "age %r" % c)
	for i, days in enumerate(c["days"]):
		inside = 9 < days < 21
		at = os.path.isfile(os.path.join(outd, "f%d.nzb" % i)) and read(os.path.join(outd, "f%d.nzb" % i)) == contents[i]
		want = inside and c["have"] != "list" and not (c["have"] == "clash" and i == 0)
		if at != want:
			res.bad("age result", "%r: f%d.nzb (%d days) is %smoved" % (c, i, days, "" if at else "not "))
		if c["have"] == "list" and ("f%d.nzb" % i in lines) != inside:
			res.bad("age result", "%r: f%d.nzb (%d days): %r" % (c, i, days, lines))


# ----------------------------------------------------------------------
SCENARIOS = {
	"merge2": {"c": [1, 2], "names": ["a.nzb", "bb.nzb"], "extra": "others", "via": "call"},
	"merge3": {"c": [2, 1, 1], "names": ["bbb.nzb", "cccc.nzb", "a.nzb"], "extra": "", "via": "call"},
	"merge-main": {"c": [1, 1], "names": ["a.nzb", "bb.nzb"], "extra": "", "via": "main"},
	"split-AB": {"seq": "AB", "old": "none", "where": "apart"},
	"split-ABA": {"seq": "ABA", "old": "none", "where": "inside"},
	"split-old": {"seq": "AAB", "old": "good", "where": "apart"},
	"split-old2": {"seq": "BA", "old": "good", "where": "inside"},
	"split-named": {"seq": "BA", "old": "none", "where": "named"},
	"sample-default": {"opts": [True] * 6, "max": -1, "out": "default", "via": "files"},
	"sample-has": {"opts": [True] * 6, "max": -1, "out": "has", "via": "dir"},
	"sample-own": {"opts": [True] * 6, "max": -1, "out": "own", "via": "dir"},
	"rename": {"c": [0, 0, 1], "music": 0, "have": "folders"},
	"rename-clash": {"c": [0, 1], "music": 1, "have": "clash"},
}


def case_fault(c, res):
	name = c["s"]
	s = SCENARIOS[name]
	kind = name.split("-")[0].rstrip("23")
	root = core.scratch()
	world = os.path.join(root, "w")

	def reset():
		if os.path.isdir(world):
			core._empty(world)
		os.makedirs(world, exist_ok=True)
		if kind == "merge":
			return merge_world(s, world)
		if kind == "split":
			return split_world(s, world)
		if kind == "sample":
			return sample_world(s, world)
		return rename_world(s, world)

	def go(w):
		if kind == "merge":
			m = mods()[1]
			out = captured(m.merge_nzbs, w[0]) if s["via"] == "call" else captured(m.main, optparse.Values(), [os.path.join(world, "main")])
		elif kind == "split":
			out = do_split(w[1], w[0])
		elif kind == "sample":
			out = do_sample(s, w[0], w[1])
		else:
			out = captured(mods()[4].main, optparse.Values(), [w[0]])
		return out[1], [x for x in out[2] if x.startswith("Failed") or "Broken" in x]

	w = reset()
	base = F.run(lambda: go(w), root, reads=True)
	if base["etype"] or base["ret"][0]:
		res.bad("fault base", "%s fails without a fault: %r" % (name, base))
		return
	outcomes = {}
	todo = [tuple(c["fault"])] if "fault" in c else [f for f in fault_list(False, base["kinds"])]
	for mode, k, e in todo:
		w = reset()
		before = tree(world)
		r = F.run(lambda: go(w), root, mode, k, e, reads=True)
		res.steps += 1
		ret = r["ret"] or (None, [])
		ended = "died" if r["died"] else r["etype"] or ("refused" if ret[0] else "ok")
		label = "%s with %s at operation %d (%s of %s), ended: %s" % (name, F.NAMES[mode], k, base["kinds"][k], base["kinds"], ended)
		if kind == "merge":
			# an interrupted or failed merge may have stopped before or after the merged file was complete
			merge_state(res, w[0], w[1], w[2], ended if s["via"] == "call" else "x", label)
		elif kind == "split":
			split_state(res, w, s, ret[1], ended, label)
		elif kind == "sample":
			now = tree(w[0])
			for f, x in before.items():
				if f.startswith("in/") and now.get(f[3:]) != x:
					res.bad("sample input", "%s: %s changed" % (label, f))
			p = os.path.join(w[1], "a.nzb")
			if s["out"] != "own" and os.path.isfile(p):
				try:
					x = ns.parse(read(p))
				except ns.Bad as er:
					x = str(er)
				if x != sample_want(s, w[2], w[3]) and x != [ns.entry("former.avi")]:
					res.bad("sample partial", "%s: %s is neither the old nor the new one: %s" % (label, p, str(x)[:200]))
		else:
			conserved(res, w[0], w[1], label)
		oc = (name, F.NAMES[mode], base["kinds"][k], ended)
		outcomes[oc] = outcomes.get(oc, 0) + 1
	res.data = [list(o) for o in outcomes]
	res.outcome = "fault %s" % name
