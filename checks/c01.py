"""C01: messages reach the console, all of them and in order, in every interleaving."""
import sys
import threading
import zlib

from mc import core
from mc.sched import Scheduler, Stuck, explore as schedules
core.setup_repo_path()
import rescene  # noqa: E402
import rescene.main as engine  # noqa: E402
import rescene.srr as tool  # noqa: E402

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "model checking of the implementation: stateless exploration of all interleavings of the real posting and printing threads under a controlled scheduler, up to a preemption bound"
LEVEL_NOTE = ("The real MessageThread, Observer and event functions run under a scheduler that decides after every bytecode instruction that can touch shared state which thread goes on. Programs of up to 4 (thorough 6) messages with waits and filters; "
	"every schedule with at most 2 (thorough 3) preemptions, plus the switches at sleeps and at a thread's end.")
RULE = "one evaluation = one schedule of one program; distinct: the different orders in which messages were posted, printed, waited for and the stop was seen"

M = engine.MsgCode
SETS = {"all": None, "some": [M.MSG, M.FILE_NOT_FOUND], "none": []}
# p: a message for stdout, e: one for stderr, h: one that the filter "some" hides, w: wait for the output
QUICK = ["", "p", "e", "pp", "pe", "ep", "hp", "ph", "w", "pw", "pwp", "wp", "ppp", "peh", "pwep", "ppw", "hw", "pppp"]
THOROUGH = QUICK + ["ppppp", "pwpwp", "pepepe", "wpw", "phphw", "ppwpp"]
CODE = {"p": M.MSG, "e": M.FILE_NOT_FOUND, "h": M.BLOCK}


class Recorder(object):
	encoding = "utf-8"

	def __init__(self, name, log):
		self.name, self.log = name, log

	def write(self, text):
		self.log.append((self.name, text))
		return len(text)

	def flush(self):
		pass


def lines(log):
	"""-> [(stream, line)], from the pieces written"""
	out, part = [], {}
	for name, text in log:
		if not name:
			continue
		part[name] = part.get(name, "") + text
		while "\n" in part[name]:
			line, part[name] = part[name].split("\n", 1)
			out.append((name, line))
	return out + [(n, "unfinished: " + t) for n, t in part.items() if t]


def programs(ctx):
	for p in ctx.pick(QUICK, THOROUGH):
		for f in ctx.pick(("all", "some") if "h" in p else ("none", "some") if p in ("p", "pw") else ("all",), ("all", "some", "none")):
			yield p, f, 3 if ctx.thorough and len(p) <= 3 else 2


def cases(ctx):
	out = []
	for p, f, depth in programs(ctx):
		c = {"program": p, "filter": f, "depth": depth}
		steps = dry(c)
		out.append(dict(c, depth=0, prefix=[]))
		for s in range(1, steps + 1):
			out.append(dict(c, prefix=[s]))
	return out


def dry(c):
	return execute(c, ())[0]


def explore(ctx):
	cs = cases(ctx)
	orders = set()
	for d in ctx.run(cs):
		orders.update(d or ())
	ctx.cover.update(evaluations=ctx.steps, distinct_nontrivial=len(orders), programs_with_first_preemption=len(cs), schedules=ctx.steps, preemption_bound=ctx.pick(2, 3))


def execute(c, schedule, orders=None):
	"""-> (number of scheduling points, [(key, message)])"""
	problems = []
	log = []
	expected = []
	s = Scheduler({engine.__file__, tool.__file__}, schedule)
	tool.o.events = []
	old_callbacks = engine.callbacks[:]
	engine.callbacks[:] = [tool.o]
	mt = tool.MessageThread()
	shown = SETS[c["filter"]]
	if shown is not None:
		mt.set_messages(list(shown))
	run = mt.run

	def guarded(body):
		try:
			body()
		except Stuck:
			pass
		except BaseException as e:
			problems.append(("thread died", "%s: %s" % (type(e).__name__, e)))
		finally:
			sys.settrace(None)
			s.done()
	mt.run = lambda: guarded(run)

	def post():
		# s.register: the poster is known before its first message
		s.register()
		for i, op in enumerate(c["program"]):
			if op == "w":
				mt.wait_for_output()
				log.append(("", "waited"))
				if lines(log) != expected:
					problems.append(("wait", "waiting ended with %r printed instead of %r" % (lines(log), expected)))
			else:
				if shown is None or CODE[op] in shown:
					expected.append(("err" if op == "e" else "out", "message %d" % i))
				log.append(("", "post"))
				engine._fire(CODE[op], message="message %d" % i)
		s.point()
		log.append(("", "stop"))
		mt.done = True

	def start_poster():
		t = threading.Thread(target=lambda: guarded(post), daemon=True)
		t.start()
		return t

	def start_printer():
		mt.start()
		return mt
	streams = sys.stdout, sys.stderr
	sys.stdout, sys.stderr = Recorder("out", log), Recorder("err", log)
	try:
		s.run([start_poster, start_printer])
	finally:
		sys.stdout, sys.stderr = streams
		engine.callbacks[:] = old_callbacks
	problems += [("end", e) for e in s.errors]
	if orders is not None:
		orders.add(zlib.crc32(repr((c["program"], c["filter"], tuple(log))).encode()))
	if not s.errors and lines(log) != expected:
		problems.append(("output", "printed %r instead of %r" % (lines(log), expected)))
	return s.steps, problems


def run_case(c):
	res = core.Result()
	orders = set()
	n, failing, problems = schedules(lambda s: execute(c, s, orders), c["depth"], tuple(c["prefix"]))
	for key, msg in problems:
		res.bad(key, "%s; program %r, preempted at points %s" % (msg, c["program"], list(failing)))
	res.steps = n
	res.data = sorted(orders)
	res.outcome = "%s %s %d orders" % (c["program"], c["filter"], len(orders))
	return res
