"""R04: crash and fault atomicity of SRR edits."""
import errno
import os

from mc import core
from mc import faults as F
from mc import rarsyn as rs
from mc.rescenelib import rmain, write, read, tree, allow_overwrite
from checks import r03

PROPERTY = "R04"
SHIM = True
LEVEL = "fault_enumeration"
TECHNIQUE = "model checking of the implementation: exhaustive crash-point, torn-write and fault enumeration at the libc boundary"
LEVEL_NOTE = ("Every file operation (open, read, write, close, rename, unlink, truncate) of every edit from every initial SRR: the process dies before or after it, the write tears, "
	"it fails with EIO/ENOSPC/EACCES, every later operation fails too, or SIGINT arrives. The crash model is a process crash (the kernel's cache survives); power loss is out, the code never syncs.")
RULE = "one evaluation = one edit run with one fault at one file operation; non-trivial outcomes are (operation, fault, file operation kind, old/new, how it ended)"


def cases(ctx):
	out = []
	for name in r03.INITIAL:
		p, _ = r03.parse(r03.INITIAL[name])
		seen = set()
		for op in r03.ops(p, False):
			if op[0] in ("merge", "addabs") or op == ["addflat", ["e.sfv", "s p/d.d/x y.txt"]]:
				continue
			if op[0] == "rename" and op[2] in ("bad:name", "bad\\name", "") or op[0] == "rename" and len(op[2]) > 60000:
				continue
			if op[0] == "rename" and op[1] == "not there" or op == ["add", ["missing.nfo", "e.sfv"]]:
				continue
			out.append({"init": name, "op": op, "pad": 0})
		# a new name as long as the old one: nothing else has to move
		for n, _d in p.stored:
			out.append({"init": name, "op": ["rename", n, n[:-1] + ("Z" if n[-1] != "Z" else "Y")], "pad": 0})
			out.append({"init": name, "op": ["rename", n, "Z" * len(n.encode("utf-8"))], "pad": 0})
		# a large file: many write calls, tears inside the stored data
		out.append({"init": name, "op": ["add", ["a.nfo", "big.bin"]], "pad": 40000})
		out.append({"init": name, "op": ["rename", p.stored[0][0], "new.nfo"] if p.stored else ["remove", ["x"]], "pad": 40000})
		if p.stored:
			out.append({"init": name, "op": ["remove", [p.stored[0][0]]], "pad": 40000})
	return out


def faults(ctx_thorough, kinds):
	"""all (mode, k, errno) for one fault-free trace"""
	out = []
	for k, c in enumerate(kinds):
		if c in "or":
			for e in (errno.EIO,):
				out.append((F.FAIL, k, e))
			if c == "r":
				out.append((F.SHORT, k, 0))
			out.append((F.INT_AFTER, k, 0))
			continue
		out.append((F.DIE_BEFORE, k, 0))
		out.append((F.DIE_AFTER, k, 0))
		for e in (errno.ENOSPC, errno.EACCES if c in "ORu" else errno.EIO):
			out.append((F.FAIL, k, e))
		out.append((F.FAIL_FROM, k, errno.ENOSPC))
		if c == "w":
			for e in (1, 3, 4, 5, 6, 7, 8, 9):
				out.append((F.TORN, k, e))
			out.append((F.FULL, k, errno.ENOSPC))
			out.append((F.SHORT, k, 0))
		out.append((F.INT_BEFORE, k, 0))
		out.append((F.INT_AFTER, k, 0))
	return out


def run_case(case):
	res = core.Result()
	root = core.scratch()
	allow_overwrite(False)
	data = r03.INITIAL[case["init"]]
	if case["pad"]:
		p = rs.SrrParse(data)
		data = data[:len(rs.srr_header(p.app))] + rs.srr_stored("blob.bin", rs.payload("blob", case["pad"])) + data[len(rs.srr_header(p.app)):]
	folder = os.path.join(root, "in")
	for f, d in list(r03.FILES.items()) + [("big.bin", rs.payload("big", 30000))]:
		write(os.path.join(folder, f), d)
	edir = os.path.join(root, "e")
	outside = write(os.path.join(root, "elsewhere", "out.nfo"), b"outside")
	other = os.path.join(root, "elsewhere", "other.srr")
	srr = os.path.join(edir, "x.srr")
	op = case["op"]

	def reset():
		if os.path.isdir(edir):
			core._empty(edir)
		write(srr, data)
		write(os.path.join(edir, "neighbour.srr"), b"neighbour")
		if op[0] == "mergeinto":
			write(other, r03.INITIAL[op[1]])

	def go():
		if op[0] == "add":
			rmain.add_stored_files(srr, list(op[1]), folder, True)
		elif op[0] == "addflat":
			rmain.add_stored_files(srr, list(op[1]), folder, False)
		elif op[0] == "addout":
			rmain.add_stored_files(srr, [outside], folder, True)
		elif op[0] == "mergeinto":
			rmain.merge_srrs([srr, other] if op[2] == "after" else [other, srr], srr, op[3])
		elif op[0] == "rename":
			rmain.rename_stored_file(srr, op[1], op[2])
		else:
			rmain.remove_stored_files(srr, list(op[1]))

	reset()
	base = F.run(go, root, reads=True)
	new = read(srr) if os.path.exists(srr) else None
	if base["etype"] and new != data:
		res.bad("refused-changed", "%r: refused (%s) but the SRR changed" % (op, base["etype"]))
	before = tree(folder)
	outcomes = {}
	todo = [tuple(case["fault"])] if "fault" in case else faults(False, base["kinds"])
	for mode, k, e in todo:
		reset()
		r = F.run(go, root, mode, k, e, reads=True)
		res.steps += 1
		kind = base["kinds"][k]
		now = read(srr) if os.path.exists(srr) else None
		state = "gone" if now is None else "new" if now == new and now != data else "old" if now == data else "new" if now == new else "mixed"
		ended = "died" if r["died"] else r["etype"] or "ok"
		tag = "%r on %s with %s at operation %d (%s of %s)" % (op, case["init"], F.NAMES[mode], k, kind, base["kinds"])
		oc = (op[0], F.NAMES[mode], kind, state, ended)
		outcomes[oc] = outcomes.get(oc, 0) + 1
		key = "%s:%s:%s" % (op[0], F.NAMES[mode], kind)
		if state in ("gone", "mixed"):
			res.bad("lost:" + key, "%s: the SRR is %s afterwards" % (tag, "missing" if state == "gone" else "neither the old nor the new one"))
		if ended == "ok" and now != new:
			res.bad("false-ok:" + key, "%s: success is reported but the SRR is not the edited one" % tag)
		others = dict((f, v) for f, v in tree(edir).items() if f != "x.srr")
		if others.pop("neighbour.srr", None) != b"neighbour":
			res.bad("neighbour:" + key, "%s: an unrelated file was changed" % tag)
		if others and not r["died"] and mode in (F.FAIL, F.SHORT, F.FAIL_FROM, F.FULL) and kind != "u":
			res.bad("temp:" + key, "%s: left behind: %s" % (tag, sorted(others)))
		if tree(folder) != before:
			res.bad("input:" + key, "%s: a file to store was changed" % tag)
	res.data = [list(o) for o in outcomes]
	res.outcome = "%s|%d faults" % (op[0], len(todo))
	return res


def explore(ctx):
	cs = cases(ctx)
	allo = set()
	for d in ctx.run(cs, chunk=1):
		for o in d or ():
			allo.add(tuple(o))
	ctx.cover.update(evaluations=ctx.steps, edits=len(cs), distinct_nontrivial=len(allo))
	ctx.samples = [list(o) for o in sorted(allo)[:6]]
