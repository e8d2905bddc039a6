"""Explorer core: tiers, counters, process pool, violations, replay, evidence.

A check module defines

    PROPERTY, LEVEL, RULE
    def explore(ctx): ...      # enumerates, calls ctx.run(cases) / ctx.map(...)
    def run_case(case): ...    # one execution of the real code -> Result

Every case is a JSON value; run_case is a function of the case and of the code
under /repo only, so a violation is replayed by calling run_case again.
"""
import contextlib
import importlib
import json
import os
import resource
import selectors
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import hashlib
import pickle
import mmap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 60
ENOUGH = 300       # seconds after which the first violation ends a run
MEM_LIMIT = 3 << 30


class CaseTimeout(BaseException):
	pass


class Result(object):
	"""outcome: short string classifying the execution (for the distinct count)
	problems: list of (key, message); key identifies the failing input/site"""
	__slots__ = ("outcome", "problems", "data", "steps")

	def __init__(self, outcome="ok", problems=None, data=None, steps=0):
		self.outcome = outcome
		self.problems = list(problems or [])
		self.data = data
		self.steps = steps

	def bad(self, key, msg):
		self.problems.append((key, msg))


def setup_repo_path():
	os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
	os.environ["RESCENE_NO_SPINNER"] = "1"
	sys.dont_write_bytecode = True
	for p in (os.path.join(REPO, "scripts"), os.path.join(REPO, "usenet"),
			os.path.join(REPO, "rerar"), os.path.join(REPO, "bin"), REPO):
		if p not in sys.path:
			sys.path.insert(0, p)


def scratch_root():
	for d in ("/dev/shm", None):
		try:
			return tempfile.mkdtemp(prefix="vmc-", dir=d)
		except OSError:
			continue
	raise SystemExit("no scratch space")


_SCRATCH = None


def scratch():
	"""the scratch directory of this worker; emptied between cases"""
	return _SCRATCH


def _empty(directory):
	for name in os.listdir(directory):
		p = os.path.join(directory, name)
		if os.path.isdir(p) and not os.path.islink(p):
			_rmtree(p)
		else:
			os.unlink(p)


def _rmtree(p):
	def onerror(func, path, _exc):
		try:
			os.chmod(os.path.dirname(path), 0o700)
			os.chmod(path, 0o700)
			func(path)
		except OSError:
			pass
	shutil.rmtree(p, onerror=onerror)


@contextlib.contextmanager
def scratch_dir():
	global _SCRATCH
	old = _SCRATCH
	root = scratch_root()
	_SCRATCH = root
	cwd = os.getcwd()
	try:
		os.chdir(root)
		yield root
	finally:
		os.chdir(cwd)
		_SCRATCH = old
		_rmtree(root)


class Quiet(object):
	"""swallows what the code prints (python level and fd level)"""
	def __enter__(self):
		self.out, self.err = sys.stdout, sys.stderr
		self.null = open(os.devnull, "w", encoding="utf-8", errors="replace")
		sys.stdout = sys.stderr = self.null
		return self

	def __exit__(self, *a):
		sys.stdout, sys.stderr = self.out, self.err
		self.null.close()
		return False


def _alarm(_sig, _frm):
	raise CaseTimeout()


def short_tb(limit=6):
	lines = traceback.format_exc().strip().splitlines()
	return " | ".join(l.strip() for l in lines[-limit:])


def guarded(run_case, case, timeout=CASE_TIMEOUT):
	"""run one case; any escape becomes a problem"""
	signal.signal(signal.SIGALRM, _alarm)
	signal.setitimer(signal.ITIMER_REAL, timeout, 5)
	try:
		try:
			with Quiet():
				res = run_case(case)
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)
		if res is None:
			res = Result()
		return res
	except CaseTimeout:
		return Result("timeout", [("timeout", "execution did not end within %d s" % timeout)])
	except HarnessError:
		raise
	except KeyboardInterrupt:
		raise
	except MemoryError:
		return Result("memory", [("memory", "execution exceeded the memory bound")])
	except BaseException as e:  # SystemExit as well
		return Result("escape:" + type(e).__name__,
			[("escape:%s" % type(e).__name__, "unexpected %s: %s [%s]" % (type(e).__name__, e, short_tb()))])


class HarnessError(Exception):
	"""a fault of the check itself: ends the run with an error exit"""


def _worker(fn, cases, counter, current, slot, wfd, chunk, unprivileged):
	global _SCRATCH
	try:
		resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
		resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
	except (ValueError, OSError):
		pass
	signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
	devnull = os.open(os.devnull, os.O_RDWR)
	os.dup2(devnull, 0)
	saved_err = os.dup(2)
	os.dup2(devnull, 1)
	os.dup2(devnull, 2)
	out = os.fdopen(wfd, "wb")

	def send(obj):
		b = pickle.dumps(obj, 4)
		out.write(struct.pack("<Q", len(b)) + b)
		out.flush()
	rc = 0
	try:
		_SCRATCH = os.path.join(slot_dir(), "w%d-%d" % (slot, os.getpid()))
		os.mkdir(_SCRATCH)
		if unprivileged:
			os.chown(_SCRATCH, 65534, 65534)
			os.setgroups([])
			os.setgid(65534)
			os.setuid(65534)
		os.chdir(_SCRATCH)
		n = len(cases)
		while True:
			start = counter.take(chunk)
			if start >= n:
				break
			for i in range(start, min(n, start + chunk)):
				current.set(slot, i + 1)
				res = guarded(fn, cases[i])
				os.chdir(_SCRATCH)
				_empty(_SCRATCH)
				send((i, res.outcome, res.problems, res.data, res.steps))
				current.set(slot, 0)
		send(None)
	except BaseException:
		send(("harness", traceback.format_exc()))
		rc = 3
	finally:
		out.close()
		os._exit(rc)


class _Counter(object):
	"""shared counter guarded by a lock file"""
	def __init__(self):
		import multiprocessing
		self.v = multiprocessing.get_context("fork").Value("q", 0)

	def take(self, n):
		with self.v.get_lock():
			x = self.v.value
			self.v.value = x + n
			return x


class _Current(object):
	def __init__(self, n):
		self.m = mmap.mmap(-1, 8 * n)

	def set(self, slot, v):
		struct.pack_into("<q", self.m, 8 * slot, v)

	def get(self, slot):
		return struct.unpack_from("<q", self.m, 8 * slot)[0]


_SLOT_DIR = None


def slot_dir():
	return _SLOT_DIR


def pmap(fn, cases, unprivileged=False, chunk=None, workers=None):
	"""yields (index, outcome, problems, data, steps) for every case, unordered.
	A worker that dies yields a problem for the case it ran."""
	if not cases:
		return
	workers = min(workers or WORKERS, len(cases))
	if chunk is None:
		chunk = max(1, min(64, len(cases) // (workers * 8) or 1))
	counter = _Counter()
	current = _Current(workers)
	sel = selectors.DefaultSelector()
	state = {}

	def start(slot):
		r, w = os.pipe()
		sys.stdout.flush()
		sys.stderr.flush()
		pid = os.fork()
		if pid == 0:
			os.close(r)
			_worker(fn, cases, counter, current, slot, w, chunk, unprivileged)
		os.close(w)
		state[r] = [slot, pid, b"", False, (0, time.time())]
		sel.register(r, selectors.EVENT_READ)

	for s in range(workers):
		start(s)
	deaths = 0
	done = set()
	try:
		while state:
			for st in state.values():
				i, now = current.get(st[0]), time.time()
				if st[4][0] != i:
					st[4] = (i, now)
				elif i and now - st[4][1] > 2 * CASE_TIMEOUT + 60:
					os.kill(st[1], signal.SIGKILL)  # the code under test swallows the timeout
					st[4] = (0, now)
			for key, _ in sel.select(10):
				r = key.fd
				st = state[r]
				data = os.read(r, 1 << 20)
				if data:
					st[2] += data
					buf = st[2]
					pos = 0
					while len(buf) - pos >= 8:
						(l,) = struct.unpack_from("<Q", buf, pos)
						if len(buf) - pos - 8 < l:
							break
						obj = pickle.loads(buf[pos + 8:pos + 8 + l])
						pos += 8 + l
						if obj is None:
							st[3] = True
						elif obj[0] == "harness":
							raise HarnessError(obj[1])
						else:
							done.add(obj[0])
							yield obj
					st[2] = buf[pos:]
					continue
				sel.unregister(r)
				os.close(r)
				_, status = os.waitpid(st[1], 0)
				del state[r]
				if not st[3]:
					deaths += 1
					i = current.get(st[0]) - 1
					current.set(st[0], 0)
					if i < 0:
						raise HarnessError("worker died outside a case, status %d" % status)
					if i not in done:
						done.add(i)
						yield (i, "died", [("died", "the process died (wait status %d)" % status)], None, 0)
					if deaths > 200:
						raise HarnessError("too many worker deaths")
					# the rest of its chunk is lost to the counter: redo it
					rest = [j for j in range(i + 1, min(len(cases), (i // chunk + 1) * chunk)) if j not in done]
					for j in rest:
						for o in pmap(fn, [cases[j]], unprivileged, 1, 1):
							done.add(j)
							yield (j,) + tuple(o[1:])
					start(st[0])
	finally:
		for r, st in list(state.items()):
			try:
				os.kill(st[1], signal.SIGKILL)
				os.waitpid(st[1], 0)
			except OSError:
				pass
			os.close(r)
	missing = [i for i in range(len(cases)) if i not in done]
	if missing:
		raise HarnessError("%d cases gave no result" % len(missing))


def known_findings():
	p = os.path.join(VERIF, "known_findings.json")
	if not os.path.exists(p):
		return []
	with open(p) as f:
		return json.load(f)["findings"]


class Ctx(object):
	def __init__(self, mod, tier):
		self.mod = mod
		self.prop = mod.PROPERTY
		self.tier = tier
		self.thorough = tier == "thorough"
		self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
		self.t0 = time.time()
		self.evaluations = 0
		self.steps = 0
		self.outcomes = {}
		self.samples = []
		self.violations = []
		self.cover = {}
		self.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
		self.known = [k for k in known_findings()
			if k.get("property") == self.prop and k.get("status") == "open"]
		self.known_hit = {}
		self.unprivileged = getattr(mod, "UNPRIVILEGED", False)
		self.exhaustive = True
		self.notes = []

	# ------------------------------------------------------------------
	def pick(self, quick, thorough):
		return thorough if self.thorough else quick

	def sample(self, x):
		if len(self.samples) < 6:
			self.samples.append(x)

	def add(self, case, outcome, problems, steps=0):
		self.evaluations += 1
		self.steps += steps
		first = outcome not in self.outcomes
		self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1
		if first:
			self.sample({"case": _shrink(case), "outcome": str(outcome)[:200]})
		for key, msg in problems:
			self.violation(case, key, msg)

	def violation(self, case, key, msg):
		for k in self.known:
			if k["key"] == key:
				self.known_hit.setdefault(key, (k, 0))
				kk, n = self.known_hit[key]
				self.known_hit[key] = (kk, n + 1)
				return
		self.violations.append((case, key, msg))

	def run(self, cases, fn=None, chunk=None):
		"""run all cases in parallel, account for them; returns list of data"""
		cases = cases if isinstance(cases, list) else list(cases)
		fn = fn or self.mod.run_case
		out = [None] * len(cases)
		buf = []
		failing = 0
		known = [k["key"] for k in self.known]
		stuck = 0
		for i, outcome, problems, data, steps in pmap(fn, cases, self.unprivileged, chunk):
			out[i] = data
			buf.append((i, outcome, problems, steps))
			failing += any(key not in known for key, _m in problems)
			stuck += outcome in ("timeout", "died", "memory")
			# violated already: the rest would only take time
			if failing > 2000 or stuck > 8 or failing and time.time() - self.t0 > ENOUGH:
				self.exhaustive = False
				break
		for i, outcome, problems, steps in sorted(buf, key=lambda b: b[0]):
			self.add(cases[i], outcome, problems, steps)
		return out

	# ------------------------------------------------------------------
	def finish(self):
		rc = 0
		for key, (k, n) in sorted(self.known_hit.items()):
			print("KNOWN-FINDING: property=%s %s (%d executions)" % (self.prop, k["what"], n))
		bykey = {}
		for case, key, msg in self.violations:
			bykey.setdefault(key, []).append((case, msg))
		shown = 0
		for key, lst in bykey.items():
			rc = 1
			if shown >= 20:
				continue
			case, msg = min(lst, key=lambda c: len(json.dumps(c[0], default=repr)))
			path = self.write_replay(case, key, msg)
			print("%s: %d executions break the property [%s]: %s" % (self.prop, len(lst), key, msg[:600]))
			print("VIOLATION property=%s replay=%s" % (self.prop, path))
			shown += 1
		wall = time.time() - self.t0
		cov = dict(self.cover)
		level = self.mod.LEVEL
		if level in ("exploration", "fault_enumeration"):
			cov.setdefault("evaluations", self.evaluations)
			cov.setdefault("distinct_nontrivial", len(self.outcomes))
			cov.setdefault("rule", self.mod.RULE)
		else:
			cov.setdefault("rule", self.mod.RULE)
			cov.setdefault("distinct_outcomes", len(self.outcomes))
		cov.setdefault("samples", self.samples or [{"note": "no case"}])
		cov.setdefault("exhaustive", self.exhaustive)
		if self.notes:
			cov["notes"] = self.notes
		ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
			"coverage": cov, "assumptions": self.assumptions,
			"wall_s": round(wall, 2), "violations": len(self.violations)}
		os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
		tmp = os.path.join(VERIF, "evidence", ".%s.json.%d" % (self.prop, os.getpid()))
		with open(tmp, "w") as f:
			json.dump(ev, f, indent=1, default=repr)
			f.write("\n")
		os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
		brief = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
		print("%s %s: %s wall=%.1fs violations=%d" % (self.prop, self.tier,
			" ".join("%s=%s" % kv for kv in sorted(brief.items())), wall, len(self.violations)))
		top = sorted(self.outcomes.items(), key=lambda kv: -kv[1])[:8]
		print("  outcomes: " + "; ".join("%s x%d" % (str(k)[:60], v) for k, v in top))
		return rc

	def write_replay(self, case, key, msg):
		d = os.path.join(VERIF, "replays")
		os.makedirs(d, exist_ok=True)
		blob = json.dumps(case, sort_keys=True, default=repr)
		h = hashlib.sha1((key + blob).encode()).hexdigest()[:12]
		path = os.path.join(d, "%s-%s.json" % (self.prop, h))
		with open(path, "w") as f:
			json.dump({"property": self.prop, "module": self.mod.__name__, "key": key,
				"message": msg, "case": case,
				"how": "cd /verif && ./check %s --replay %s" % (self.prop, path)}, f, indent=1, default=repr)
		return path


def _shrink(case, limit=400):
	s = json.dumps(case, default=repr)
	return case if len(s) <= limit else s[:limit] + "..."


def main(argv):
	global _SLOT_DIR
	prop = argv[0]
	if prop == "--selftest":
		return selftest()
	setup_repo_path()
	sys.path.insert(0, VERIF)
	with open(os.path.join(VERIF, "checks", prop.lower() + ".py")) as f:
		if "\nSHIM = True" in f.read() and "VF_SHIM" not in os.environ:
			from mc import faults
			return faults.reexec(argv)
	mod = importlib.import_module("checks." + prop.lower())
	if len(argv) > 2 and argv[1] == "--replay":
		with open(argv[2]) as f:
			rep = json.load(f)
		fn = getattr(mod, "replay_case", mod.run_case)
		with _slots():
			for _ in range(2):
				for _i, outcome, problems, _d, _s in pmap(fn, [rep["case"]],
						getattr(mod, "UNPRIVILEGED", False), 1, 1):
					print("outcome:", outcome)
					for key, msg in problems:
						print("  [%s] %s" % (key, msg))
		if problems:
			print("VIOLATION property=%s replay=%s" % (prop, argv[2]))
			return 1
		return 0
	tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
	ctx = Ctx(mod, tier)
	with _slots():
		mod.explore(ctx)
	return ctx.finish()


def _selftest_case(case):
	r = Result("n%d" % (case["n"] % 3))
	if case["n"] == 5:
		r.bad("five", "five")
	if case["n"] == 7:
		os._exit(9)
	if case["n"] == 9:
		raise SystemExit(2)
	return r


def selftest():
	"""the pool must report a bad case, a dying worker and an escape"""
	with _slots():
		got = {}
		for i, outcome, problems, _d, _s in pmap(_selftest_case, [{"n": n} for n in range(40)], chunk=3):
			got[i] = [p[0] for p in problems]
	want = {5: ["five"], 7: ["died"], 9: ["escape:SystemExit"]}
	ok = len(got) == 40 and all(got[i] == want.get(i, []) for i in got)
	print("selftest", "ok" if ok else "FAILED %r" % {k: v for k, v in got.items() if v})
	return 0 if ok else 1


@contextlib.contextmanager
def _slots():
	global _SLOT_DIR
	root = scratch_root()
	os.chmod(root, 0o711)
	_SLOT_DIR = root
	try:
		yield
	finally:
		_rmtree(root)
