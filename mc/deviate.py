"""Deviation-bounded exhaustive enumeration: every combination of at most k
departures from the default over named dimensions."""
import itertools


def deviations(dims, k, extra_ok=None):
	"""dims: dict name -> list of values (first is the default).
	Yields dicts holding only the non-default choices, fewest deviations first."""
	names = list(dims)
	for r in range(k + 1):
		for combo in itertools.combinations(names, r):
			for vals in itertools.product(*[range(1, len(dims[n])) for n in combo]):
				d = dict((n, dims[n][v]) for n, v in zip(combo, vals))
				if extra_ok is None or extra_ok(d):
					yield d


def full(dims, d):
	out = dict((n, v[0]) for n, v in dims.items())
	out.update(d)
	return out
