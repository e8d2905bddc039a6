"""R03: edits of stored files == edits of an ordered list; breadth-first search
over the real operations, state = the bytes of the SRR file."""
import hashlib
import os

from mc import core
from mc import rarsyn as rs
from mc.rescenelib import rescene, rmain, OBS, write, read, tree, reset_events, allow_overwrite

PROPERTY = "R03"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: breadth-first search over real edit operations on SRR bytes against an ordered-list model"
LEVEL_NOTE = ("All operation sequences up to depth 4 (quick) or 5 (thorough) from every initial SRR; a state is the exact file bytes, so merged states have the same futures. "
	"Every transition is the real operation, compared with the list model. Merging into an input, and adding flat, by an absolute path or from outside the folder, are checked in every state but (quick) not gone on from. Renaming onto an existing name and editing duplicate names are left out (unspecified).")
RULE = "state = SRR bytes; transition = one add/rename/remove/merge/refused operation or one extraction on the real file"

LOOK = rs.srr_stored("fake.nfo", b"zz") + rs.srr_rarfile("fake.rar") + rs.MARK
FILES = {
	"a.nfo": b"hello nfo",
	"A.NFO": b"capital",
	"sub/a.nfo": b"in sub",
	"e.sfv": b"",
	"b[1].bin": LOOK,
	"\u00fcn\u65e5.txt": b"\xff\xfe\x00unicode",
	"s p/d.d/x y.txt": rs.payload("xy", 300),
}


def initial():
	m = rs.Member("v.bin", 900)
	plain = rs.build_set([m], [(0, 100)], "old")
	rich = rs.build_set([rs.Member("v\u00e9.avi", 700), rs.Member("d", is_dir=True)], [(0, 300)], "new", rr=("new", 2),
		cmt="cmt", pad=b"padding after the end")
	oldrr = rs.build_set([m], [], "old", rr=("old", 1), end=None)
	out = {}
	out["plain"] = rs.build_srr("pyReScene x", [], plain)
	out["rich"] = rs.build_srr("app \u00e9", [("a.nfo", b"other"), ("sub/first.sfv", LOOK)], rich,
		[("v.avi", 700, "00000000deadbeef")])
	out["music"] = rs.build_srr("music app 1.23", [("z/1.srs", rs.payload("s", 50))], [])
	out["noapp"] = rs.build_srr("", [("q.nfo", b"q")], oldrr)
	# beta SRR: the recovery record's data is kept
	keep = b""
	for v in oldrr:
		keep += rs.srr_rarfile(v.name, 0) + b"".join(b.head + (b.data if b.kind != "file" else b"") for b in v.blocks)
	out["beta"] = rs.srr_header("old") + rs.srr_stored("q.nfo", b"q") + keep
	out["mid"] = rs.srr_header("mid") + rs.srr_rarfile(plain[0].name) + plain[0].srr_meta() + rs.srr_stored(
		"late.sfv", b"late") + rs.srr_rarfile(plain[1].name) + plain[1].srr_meta()
	return out


INITIAL = initial()


def parse(data):
	p = rs.SrrParse(data)
	if p.error:
		return None, p.error
	return p, None


def ops(p, thorough):
	names = [n for n, _ in p.stored]
	dup = len(set(names)) != len(names)
	out = []
	for f in FILES:
		out.append(["add", [f]])
	out.append(["add", ["a.nfo", "sub/a.nfo"]])
	out.append(["add", ["\u00fcn\u65e5.txt", "e.sfv", "a.nfo"]])
	out.append(["add", ["missing.nfo"]])
	out.append(["add", ["missing.nfo", "e.sfv"]])
	out.append(["add", ["./a.nfo"]])
	if not dup:
		for n in sorted(set(names)):
			for new in ("r.nfo", "sub/deep/r\u00e9.nfo", "a.nfo", "/".join(["x" * 100] * 3)):
				if new not in names:
					out.append(["rename", n, new])
			out.append(["rename", n, "bad:name"])
			out.append(["rename", n, "bad\\name"])
			out.append(["rename", n, ""])
			out.append(["rename", n, "n" * 65523])
			out.append(["remove", [n]])
		if len(names) > 1:
			out.append(["remove", [names[0], names[-1]]])
			out.append(["remove", list(names)])
	out.append(["rename", "not there", "x"])
	out.append(["remove", ["not there"]])
	out.append(["remove", []])
	out.append(["merge", "plain", "after", None])
	out.append(["merge", "music", "after", None])
	out.append(["merge", "rich", "before", "newname"])
	out.append(["mergeinto", "plain", "after", None])
	out.append(["mergeinto", "rich", "before", None])
	# stored under their name only
	for f in (["sub/a.nfo"], ["e.sfv", "s p/d.d/x y.txt"]):
		out.append(["addflat", f])
	out.append(["addout", "out.nfo"])
	out.append(["addabs", ["sub/a.nfo"]])
	return out


def stored_position(p):
	"""index in items where new files go: before the first RAR block"""
	for i, it in enumerate(p.items):
		if it[0] == "block" and it[1][2] == 0x71:
			return i
	return len(p.items)


def expect(p, op):
	"""(items, app, error kinds or None)"""
	items = list(p.items)
	names = [n for n, _ in p.stored]
	k = op[0]
	if k in ("add", "addabs"):
		norm = [os.path.normpath(f) for f in op[1]]
		if any(f in names for f in norm):
			return items, p.app, (rmain.DupeFileName,)
		new = [("stored", f, FILES[f]) for f in norm if f in FILES]
		i = stored_position(p)
		return items[:i] + new + items[i:], p.app, None
	if k == "addflat":
		# (an equal stored name is refused, and so is the path as it was given)
		if any(f in names or os.path.basename(f) in names for f in op[1]):
			return items, p.app, (rmain.DupeFileName,)
		new = [("stored", os.path.basename(f), FILES[f]) for f in op[1]]
		i = stored_position(p)
		return items[:i] + new + items[i:], p.app, None
	if k == "addout":
		if op[1] in names:
			return items, p.app, (rmain.DupeFileName,)
		i = stored_position(p)
		return items[:i] + [("stored", op[1], b"outside")] + items[i:], p.app, None
	if k == "rename":
		if op[1] not in names:
			return items, p.app, (rmain.FileNotFound,)
		if ":" in op[2] or "\\" in op[2] or op[2] == "" or len(op[2]) > 65522:
			return items, p.app, (AttributeError,)
		i = [j for j, it in enumerate(items) if it[0] == "stored" and it[1] == op[1]][0]
		items[i] = ("stored", op[2], items[i][2])
		return items, p.app, None
	if k == "remove":
		return [it for it in items if not (it[0] == "stored" and it[1] in op[1])], p.app, None
	if k in ("merge", "mergeinto"):
		q, _ = parse(INITIAL[op[1]])
		a, b = (p, q) if op[2] == "after" else (q, p)
		app = op[3] or a.app or b.app
		both = a.items + b.items
		return ([it for it in both if it[0] == "stored"] + [it for it in both if it[0] == "block"], app, None)
	raise ValueError(k)


def run_case(case):
	"""one state, all its operations; data = list of successor bytes"""
	res = core.Result()
	root = core.scratch()
	data = bytes.fromhex(case["srr"])
	p, err = parse(data)
	if err:
		raise core.HarnessError("state does not parse: " + err)
	folder = os.path.join(root, "in")
	for f, d in FILES.items():
		write(os.path.join(folder, f), d)
	before_in = tree(folder)
	outside = write(os.path.join(root, "elsewhere", "out.nfo"), b"outside")
	succ = []
	todo = [case["op"]] if "op" in case else ops(p, case["thorough"])
	srr = os.path.join(root, "e", "x.srr")
	for op in todo:
		allow_overwrite(False)
		reset_events()
		write(srr, data)
		os.chmod(srr, 0o644)
		items, app, errs = expect(p, op)
		raised = None
		target = srr
		try:
			if op[0] == "add":
				rmain.add_stored_files(srr, list(op[1]), folder, True)
			elif op[0] == "addflat":
				rmain.add_stored_files(srr, list(op[1]), folder, False)
			elif op[0] == "addabs":
				rmain.add_stored_files(srr, [os.path.join(folder, f) for f in op[1]], folder, True)
			elif op[0] == "addout":
				rmain.add_stored_files(srr, [outside], folder, True)
			elif op[0] == "rename":
				rmain.rename_stored_file(srr, op[1], op[2])
			elif op[0] == "remove":
				rmain.remove_stored_files(srr, list(op[1]))
			else:
				other = write(os.path.join(root, "e", "other.srr"), INITIAL[op[1]])
				target = os.path.join(root, "e", "merged.srr")
				ins = [srr, other] if op[2] == "after" else [other, srr]
				if op[0] == "mergeinto":
					target = srr
				rmain.merge_srrs(ins, target, op[3])
				if target != srr and read(srr) != data or read(other) != INITIAL[op[1]]:
					res.bad("merge-input", "merging changed an input")
		except Exception as e:
			raised = e
		res.steps += 1
		key = op[0] + (":" + "/".join(x.__name__ for x in errs) if errs else "")
		tag = "%r on %s" % (op if len(repr(op)) < 200 else op[0], [s[0][:20] for s in p.stored])
		if errs:
			if raised is None or not isinstance(raised, errs):
				res.bad("norefuse:" + key, "%s: expected a refusal (%s), got %r" % (tag, key, raised))
		elif raised is not None:
			res.bad("raise:" + key, "%s: raised %s: %s" % (tag, type(raised).__name__, raised))
		now = read(target) if os.path.exists(target) else None
		left = set(os.listdir(os.path.dirname(srr))) - {"x.srr", "other.srr", "merged.srr"}
		if left:
			res.bad("temp:" + key, "%s: files left behind: %s" % (tag, sorted(left)))
		if now is None:
			res.bad("lost:" + key, "%s: the SRR is gone" % tag)
			core._empty(os.path.join(root, "e"))
			continue
		if raised is not None or errs:
			if now != data:
				res.bad("changed:" + key, "%s: refused, but the file changed" % tag)
		else:
			q, e2 = parse(now)
			if e2:
				res.bad("malformed:" + key, "%s: result is malformed: %s" % (tag, e2))
			else:
				if q.items != items:
					res.bad("items:" + key, "%s: stored list or metadata differ: %s, expected %s" % (tag,
						[i[1][:30] if i[0] == "stored" else len(i[1]) for i in q.items],
						[i[1][:30] if i[0] == "stored" else len(i[1]) for i in items]))
				elif q.app != app:
					res.bad("app:" + key, "%s: application name %r, expected %r" % (tag, q.app, app))
				elif case["thorough"] or op[0] in ("add", "rename", "remove", "merge"):
					succ.append((op, now))
			if target == srr and op[0] != "mergeinto" and os.stat(srr).st_mode & 0o777 != 0o644:
				res.bad("mode:" + key, "%s: the access permissions of the SRR changed" % tag)
		core._empty(os.path.join(root, "e"))
	if tree(folder) != before_in:
		res.bad("input", "an input file was changed")
	if "op" not in case:
		extraction(res, root, p, data)
	res.outcome = hashlib.sha1(data).hexdigest()[:10]
	res.data = succ
	return res


def extraction(res, root, p, data):
	names = [n for n, _ in p.stored]
	if len(set(names)) != len(names):
		return
	srr = write(os.path.join(root, "x.srr"), data)
	want = dict(p.stored)

	def go(tag, want, **kw):
		out = os.path.join(root, "out")
		core._empty(out) if os.path.isdir(out) else os.mkdir(out)
		reset_events()
		ret = rmain.extract_files(srr, out, **kw)
		got = dict((k, v) for k, v in tree(out).items() if v is not None)
		res.steps += 1
		if got != want:
			res.bad("extract:" + tag, "extracting (%s) gives %s, expected %s" % (tag, sorted(got), sorted(want)))
		if sorted(os.path.relpath(r[0], out) for r in ret if r[1]) != sorted(want):
			res.bad("extractret:" + tag, "the reported extractions (%s) are wrong: %r" % (tag, ret))
	go("all", want)
	bases = [os.path.basename(n) for n in names]
	if len(set(bases)) == len(bases):
		go("flat", dict((os.path.basename(n), d) for n, d in p.stored), extract_paths=False)
	for n in names:
		if "/" in n:
			go("named", {n: want[n]}, packed_name=n)
		else:
			go("namedbase", dict((m, want[m]) for m in names if os.path.basename(m) == n), packed_name=n)
	go("notthere", {}, packed_name="nothere.xyz")
	go("matcher", dict((n, want[n]) for n in names if n.endswith(".nfo")), matcher=lambda f: f.endswith(".nfo"))
	# existing files are not replaced
	if names:
		out = os.path.join(root, "out")
		core._empty(out)
		write(os.path.join(out, names[0]), b"precious")
		rmain.extract_files(srr, out)
		if read(os.path.join(out, names[0])) != b"precious":
			res.bad("extract:overwrite", "extraction replaced an existing file")
	if read(srr) != data:
		res.bad("extract:srr", "extraction changed the SRR")


def refuse_case(case):
	"""a RAR or rubbish is not an SRR"""
	res = core.Result("refuse")
	root = core.scratch()
	data = bytes.fromhex(case["data"])
	f = write(os.path.join(root, "x.srr"), data)
	write(os.path.join(root, "in", "a.nfo"), b"1")
	for op in ("add", "remove", "rename"):
		try:
			if op == "add":
				rmain.add_stored_files(f, ["a.nfo"], os.path.join(root, "in"), True)
			elif op == "remove":
				rmain.remove_stored_files(f, ["a.nfo"])
			else:
				rmain.rename_stored_file(f, "a.nfo", "b.nfo")
			res.bad("notsrr:" + op, "%s accepted a file that is not an SRR" % op)
		except (rmain.NotSrrFile, EnvironmentError, ValueError):
			pass
		if read(f) != data or sorted(os.listdir(root)) != ["in", "x.srr"]:
			res.bad("notsrrchg:" + op, "%s on a non-SRR changed files" % op)
	return res


def explore(ctx):
	depth = ctx.pick(4, 5)
	most = ctx.pick(3, 4)  # states with more stored files are checked but not expanded
	seen = set()
	frontier = []
	for n, d in INITIAL.items():
		seen.add(hashlib.sha1(d).digest())
		frontier.append(d)
	bounded = 0
	transitions = 0
	levels = []
	for level in range(depth):
		cases = [{"srr": d.hex(), "thorough": ctx.thorough} for d in frontier]
		levels.append(len(cases))
		nxt = []
		for data in ctx.run(cases):
			for op, b in data or ():
				transitions += 1
				h = hashlib.sha1(b).digest()
				if h not in seen:
					seen.add(h)
					if len(rs.SrrParse(b).stored) <= most:
						nxt.append(b)
					else:
						bounded += 1
		frontier = nxt
		if ctx.violations:
			break
	# the last level: extraction only would be cheap, but its operations are beyond the bound
	v = rs.build_set([rs.Member("a.bin", 50)], [])[0].bytes()
	ctx.run([{"data": v.hex()}, {"data": (b"x" * 100).hex()}, {"data": b"".hex()}, {"data": v[:19].hex()}], refuse_case)
	ctx.cover.update(states=len(seen), transitions=ctx.steps, traces_validated_against_impl=transitions,
		depth=depth, states_per_level=levels, frontier_not_expanded=len(frontier),
		stored_file_bound=most, states_above_stored_bound=bounded)


def replay_case(case):
	if "data" in case:
		return refuse_case(case)
	return run_case(case)
