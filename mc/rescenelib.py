"""Shared helpers around the public API of the code under test."""
import os
import sys

from mc import core

core.setup_repo_path()
import rescene  # noqa: E402
from rescene import main as rmain  # noqa: E402
from rescene import rar as rrar  # noqa: E402
from rescene import utility as rutil  # noqa: E402

OBS = rmain.Observer()
rmain.subscribe(OBS)


def write(path, data):
	d = os.path.dirname(path)
	if d and not os.path.isdir(d):
		os.makedirs(d)
	with open(path, "wb") as f:
		f.write(data)
	return path


def read(path):
	with open(path, "rb") as f:
		return f.read()


def tree(root):
	"""{relative path: bytes | None for directories}"""
	out = {}
	for dp, dn, fn in os.walk(root):
		for d in dn:
			out[os.path.relpath(os.path.join(dp, d), root) + "/"] = None
		for f in fn:
			p = os.path.join(dp, f)
			out[os.path.relpath(p, root)] = os.fsencode(os.readlink(p)) if os.path.islink(p) else read(p)
	return out


def reset_events():
	del OBS.events[:]


def event_codes():
	return [e.code for e in OBS.events]


def sfv_text(entries):
	return "".join("%s %08x\r\n" % (n, c) for n, c in entries).encode("latin-1")


def allow_overwrite(yes):
	"""the documented hook: callers replace can_overwrite"""
	rmain.can_overwrite = (lambda p: True) if yes else (lambda p: not os.path.isfile(p))
