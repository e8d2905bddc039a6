"""Controlled scheduler for real Python threads.

Threads run one at a time. Every bytecode instruction of the watched files that
can touch shared state is a scheduling point; a schedule is the ascending list
of the points at which the running thread is preempted. Sleeping hands over to
the other thread. Exploring all schedules with at most k preemptions is exact:
the interpreter switches threads between bytecode instructions only."""
import dis
import sys
import threading
import time

LOCAL = {"LOAD_FAST", "STORE_FAST", "LOAD_CONST", "POP_TOP", "NOP", "CACHE", "RESUME", "PUSH_NULL", "COPY", "SWAP",
	"RETURN_CONST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "JUMP_FORWARD", "JUMP_BACKWARD", "POP_JUMP_IF_FALSE",
	"POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "KW_NAMES", "COPY_FREE_VARS", "MAKE_CELL", "EXTENDED_ARG",
	"IS_OP", "UNARY_NOT", "END_FOR", "RETURN_VALUE", "BUILD_TUPLE", "PRECALL", "RETURN_GENERATOR"}


FAIR = 1500  # a thread that goes on for this long waits for another one


class Stuck(BaseException):
	"""ends a thread of an execution that was given up"""


class Scheduler(object):
	def __init__(self, files, schedule, limit=20000):
		self.files = files
		self.schedule = set(schedule)
		self.limit = limit
		self.steps = 0
		self.branch = []     # points at which another thread could have run
		self.threads = []    # idents, in the order they came
		self.sem = {}
		self.finished = set()
		self.current = None
		self.progress = 0
		self.give_up = False
		self.errors = []
		self.idle = 0
		self.alone = 0       # points since the last switch
		self.lock = threading.Lock()
		self.all_done = threading.Event()
		self.expected = 0
		self._points = {}

	# ---------------------------------------------------------- called by the threads
	def trace(self, frame, event, arg):
		if frame.f_code.co_filename not in self.files:
			return None
		frame.f_trace_opcodes = True
		frame.f_trace_lines = False
		self.register()
		return self.local

	def local(self, frame, event, arg):
		if event == "opcode":
			code = frame.f_code
			points = self._points.get(code)
			if points is None:
				points = self._points[code] = set(i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL)
			if frame.f_lasti in points:
				self.point()
		return self.local

	def register(self):
		me = threading.get_ident()
		if me in self.sem:
			return
		with self.lock:
			self.sem[me] = threading.Semaphore(0)
			self.threads.append(me)
		self.park(me)

	def park(self, me):
		while self.current != me:
			self.sem[me].acquire()
			if self.give_up:
				raise Stuck()
		if self.give_up:
			raise Stuck()

	def others(self, me):
		return [t for t in self.threads if t != me and t not in self.finished]

	def hand(self, me, to):
		self.alone = 0
		self.current = to
		self.sem[to].release()

	def point(self):
		me = threading.get_ident()
		if self.current != me or self.give_up:
			self.park(me)
		self.progress += 1
		self.idle = 0
		o = self.others(me)
		if not o:
			self.progress += 1
			if self.progress > self.limit:
				self.overrun()
			return
		self.steps += 1
		if self.progress > self.limit:
			self.overrun()
		self.alone += 1
		if self.steps in self.schedule or self.alone > FAIR:
			self.hand(me, o[0])
			self.park(me)

	def overrun(self):
		self.errors.append("the threads never end")
		self.give_up = True
		self.all_done.set()
		raise Stuck()

	def sleep(self, seconds=0):
		me = threading.get_ident()
		if me not in self.sem:
			return _real_sleep(seconds)
		self.progress += 1
		self.idle += 1
		if self.progress > self.limit or self.idle > 50:
			self.overrun()
		o = self.others(me)
		if o:
			self.hand(me, o[0])
			self.park(me)

	def wait(self, event, timeout=None):
		"""instead of threading.Event.wait"""
		me = threading.get_ident()
		if me not in self.sem:
			return _real_wait(event, timeout)
		while not event.is_set():
			self.sleep()
			if timeout is not None:
				break
		return event.is_set()

	def done(self):
		me = threading.get_ident()
		with self.lock:
			self.finished.add(me)
			o = self.others(me)
			if self.current == me and o:
				self.hand(me, o[0])
			if len(self.finished) == self.expected:
				self.all_done.set()

	# ---------------------------------------------------------- called by the driver
	def run(self, starters):
		"""starters: functions that start one thread each; the first one runs first"""
		self.expected = len(starters)
		old = threading.gettrace() if hasattr(threading, "gettrace") else None
		names = [(m, n) for m in list(sys.modules.values()) if getattr(m, "__file__", None) in self.files
			for n, v in vars(m).items() if v is _real_sleep] + [(time, "sleep")]
		wait = lambda event, timeout=None: self.wait(event, timeout)
		threading.settrace(self.trace)
		for m, n in names:
			setattr(m, n, self.sleep)
		threading.Event.wait = wait
		threads = []
		try:
			for i, start in enumerate(starters):
				threads.append(start())
				end = time.monotonic() + 5
				while len(self.threads) <= i and time.monotonic() < end:
					_real_sleep(0.00002)
				if len(self.threads) <= i:
					self.errors.append("a thread did not start")
					self.give_up = True
					return
			self.current = self.threads[0]
			self.sem[self.current].release()
			last = -1
			while not _real_wait(self.all_done, 0.5):
				if self.progress == last:
					# the running thread waits for something real: let another one go on
					o = self.others(self.current)
					if not o:
						if all(not t.is_alive() for t in threads):
							break
						continue
					self.hand(self.current, o[0])
				last = self.progress
		finally:
			threading.settrace(old)
			for m, n in names:
				setattr(m, n, _real_sleep)
			threading.Event.wait = _real_wait
			if self.give_up:
				for s in self.sem.values():
					s.release()
			for t in threads:
				t.join(5)
		if any(t.is_alive() for t in threads) and not self.errors:
			self.errors.append("a thread is still running")


_real_sleep = time.sleep
_real_wait = threading.Event.wait


def explore(execute, depth, prefix=(), limit=None):
	"""execute(schedule) -> (steps, problems); all schedules that extend prefix
	with at most depth - len(prefix) further preemptions.
	-> (number of schedules, first failing schedule or None, its problems)"""
	count = 0
	stack = [tuple(prefix)]
	while stack:
		s = stack.pop()
		steps, problems = execute(s)
		count += 1
		if problems:
			return count, s, problems
		if len(s) < depth:
			stack.extend(s + (p,) for p in range(s[-1] + 1 if s else 1, steps + 1))
	return count, None, []
