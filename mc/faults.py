"""Driver for the LD_PRELOAD fault injector."""
import ctypes
import errno
import json
import os
import pickle
import signal
import struct
import subprocess
import sys

from mc import core

OFF, FAIL, DIE_BEFORE, DIE_AFTER, TORN, SHORT, FAIL_FROM, INT_AFTER, INT_BEFORE, FULL = range(10)
NAMES = ["none", "fail", "die-before", "die-after", "torn-write", "short", "fail-from", "sigint-after", "sigint-before", "disk-full"]
_lib = None


def lib():
	global _lib
	if _lib is None:
		_lib = ctypes.CDLL(None)
		try:
			_lib.vf_count.restype = ctypes.c_long
			_lib.vf_kinds.restype = ctypes.c_char_p
			_lib.vf_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
		except AttributeError:
			raise core.HarnessError("the fault shim is not loaded")
	return _lib


def reexec(argv):
	"""build the shim and run the check again under it"""
	d = core.scratch_root()
	try:
		so = os.path.join(d, "vfault.so")
		src = os.path.join(core.VERIF, "mc", "shim", "vfault.c")
		subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, src, "-ldl"])
		os.chmod(d, 0o755)
		env = dict(os.environ, LD_PRELOAD=so, VF_SHIM=so)
		return subprocess.call([sys.executable, "-W", "ignore", "-c",
			"import sys; sys.path.insert(0, %r); from mc import core; sys.exit(core.main(sys.argv[1:]))" % core.VERIF]
			+ argv, env=env, cwd=core.VERIF)
	finally:
		core._rmtree(d)


def run(fn, prefix, mode=OFF, k=-1, err=errno.EIO, reads=False, timeout=30):
	"""fork; arm; call fn; returns dict(died, error, ret, count, kinds)"""
	L = lib()
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		code = 0
		try:
			os.close(r)
			signal.setitimer(signal.ITIMER_REAL, timeout, 1)
			signal.signal(signal.SIGINT, signal.default_int_handler)
			out = {"error": None, "etype": None, "ret": None}
			L.vf_arm(os.fsencode(prefix), mode, k, err, 1 if reads else 0)
			try:
				try:
					out["ret"] = fn()
				finally:
					L.vf_disarm()
			except core.CaseTimeout:
				out["etype"], out["error"] = "timeout", "did not end"
			except BaseException as e:
				out["etype"], out["error"] = type(e).__name__, str(e)[:300]
			out["count"] = L.vf_count()
			out["kinds"] = L.vf_kinds().decode()
			try:
				b = pickle.dumps(out)
			except Exception:
				out["ret"] = repr(out["ret"])
				b = pickle.dumps(out)
			os.write(w, b[:60000])
		except BaseException:
			code = 77
		finally:
			os._exit(code)
	os.close(w)
	b = b""
	while True:
		x = os.read(r, 65536)
		if not x:
			break
		b += x
	os.close(r)
	_, st = os.waitpid(pid, 0)
	if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
		return {"died": True, "etype": None, "error": None, "ret": None}
	if not b:
		raise core.HarnessError("fault child ended with status %r" % st)
	out = pickle.loads(b)
	out["died"] = False
	return out
