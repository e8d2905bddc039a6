"""Release folders built from components, and what their SRR must hold."""
import struct
import zlib

from mc import rarsyn
from mc.rarsyn import Member, payload
from mc.rescenelib import sfv_text
from mc.samples import base

JPG = b"\xff\xd8\xff\xe0\x00\x10JFIF\x00" + b"\x01" * 30


class Set(object):
	"""volumes listed by one SFV"""
	def __init__(self, prefix, volumes, names=None):
		self.prefix, self.volumes = prefix, volumes
		self.names = names or [v.name for v in volumes]

	def meta(self):
		return b"".join(rarsyn.srr_rarfile(self.prefix + n) + v.srr_meta() for n, v in zip(self.names, self.volumes))


class Tree(object):
	def __init__(self, name):
		self.name = name
		self.files = {}          # relative path -> bytes
		self.stored = {}         # name in the SRR -> ("bytes", b) | ("srs", file, data, checked) | ("txt",) | ("srr", volume name, Volume) | ("subs", ...)
		self.sets = []
		self.fails = False

	def add(self, path, data, stored=False):
		assert path not in self.files, path
		self.files[path] = data
		if stored:
			self.stored[path] = ("bytes", data)

	def srs(self, path, name, checked=False):
		self.stored[name] = ("srs", path.rsplit("/", 1)[-1], self.files[path], checked)

	def rarset(self, folder, stem, members, cuts, naming="old", sfvname=None, lower=False, main=True, **kw):
		vols = rarsyn.build_set(members, cuts, naming=naming, base=stem, **kw)
		for v in vols:
			self.add(folder + v.name, v.bytes())
		listed = [(v.name.lower() if lower else v.name, zlib.crc32(v.bytes())) for v in vols]
		self.add(folder + (sfvname or stem + ".sfv"), sfv_text(listed), True)
		if main:
			self.sets.append(Set(folder, vols))
		return vols


def movie():
	return base("avi", lens=(420, 130), pre=90, tail=60, size=(90, 61))


def main_part(t, kind):
	m = movie()
	n = len(m.main)
	film = [Member("movie.avi", data=m.main)]
	if kind == "set":
		t.rarset("", "grp-the.movie", film, [(0, n // 2)])
	elif kind == "new":
		t.rarset("", "grp-the.movie", film, [(0, n // 3), (0, n // 2)], naming="new")
	elif kind == "num":
		t.rarset("", "grp-the.movie", film, [(0, n // 3), (0, n // 2)], naming="num")
	elif kind == "CAPS":
		t.rarset("", "GRP-THE.MOVIE", [Member("MOVIE.AVI", data=m.main)], [(0, n // 2)], naming="OLD", sfvname="GRP-THE.MOVIE.SFV")
	elif kind == "CAPSNEW":
		t.rarset("CD1/", "GRP-THE.MOVIE", [Member("MOVIE.AVI", data=m.main)], [(0, n // 2)], naming="NEW", sfvname="GRP-THE.MOVIE.SFV")
	elif kind in ("MP3", "FLAC"):
		tracks = ["01-ART-ONE." + kind, "02-ART-TWO." + kind]
		sfv = []
		for i, name in enumerate(tracks):
			t.add(name, base("mp3", lens=(300 + i, 10)).sample if kind == "MP3" else base("flac", seed="tr%d" % i).sample)
			t.srs(name, name.rsplit(".", 1)[0] + ".srs")
			sfv.append((name, zlib.crc32(t.files[name])))
		t.add("00-ART.SFV", sfv_text(sfv), True)
	elif kind == "cds":
		t.rarset("CD1/", "grp-the.movie.cd1", film, [(0, n // 2)])
		t.rarset("CD2/", "grp-the.movie.cd2", [Member("second.avi", data=payload("cd2", 300))], [(0, 100), (0, 200)])
	elif kind == "twosfv":
		t.rarset("", "grp-a", film, [(0, n // 2)])
		t.rarset("", "grp-b", [Member("b.bin", 200)], [(0, 100)])
	elif kind == "twins":   # both hold the movie
		t.rarset("CD1/", "grp-a", film, [(0, n // 2)])
		t.rarset("CD2/", "grp-a", film, [(0, n // 3)])
	elif kind == "upper":
		t.rarset("", "GRP-The.Movie", film, [(0, n // 2)], sfvname="grp-the.movie.sfv", lower=True)
	elif kind == "compressed":
		t.rarset("", "grp-the.movie", [Member("movie.avi", data=m.main, method=0x33)], [(0, n // 2)])
	elif kind == "subsname":
		t.rarset("", "the.substitute", film, [(0, n // 2)])
	elif kind == "single":
		t.rarset("", "grp-the.movie", film, [])
	elif kind in ("mp3", "flac"):
		tracks = ["01-art-one." + kind, "02-art-two." + kind]
		sfv = []
		for i, name in enumerate(tracks):
			t.add(name, base(kind, lens=(300 + i, 10)).sample if kind == "mp3" else base(kind, seed="tr%d" % i).sample)
			t.srs(name, name.rsplit(".", 1)[0] + ".srs")
			sfv.append((name, zlib.crc32(t.files[name])))
		t.add("00-art.sfv", sfv_text(sfv), True)
	elif kind == "badmp3":
		sfv = []
		for i in range(2):
			name = "0%d-art.mp3" % (i + 1)
			t.add(name, base("mp3", lens=(300 + i, 10)).sample)
			if i == 1:
				t.srs(name, name[:-4] + ".srs")
			sfv.append((name, zlib.crc32(t.files[name]) ^ (i == 0)))
		t.add("00-art.sfv", sfv_text(sfv), True)
	elif kind == "listcaps":  # listed with other capitals, and the first track is not what the list says
		sfv = []
		for i in range(2):
			name = "CD1/0%d-Art-Track.mp3" % (i + 1)
			t.add(name, base("mp3", lens=(300 + i, 10)).sample)
			if i == 1:
				t.srs(name, name[:-4] + ".srs")
			sfv.append((name[4:].upper() if i == 0 else name[4:].lower(), zlib.crc32(t.files[name]) ^ (i == 0)))
		t.add("CD1/00-art.sfv", sfv_text(sfv), True)
	elif kind == "discs":
		for d in ("CD1", "CD2"):
			sfv = []
			for i in range(2):
				name = "0%d-art.mp3" % (i + 1)
				t.add(d + "/" + name, base("mp3", lens=(300 + i, 10)).sample if d == "CD1" else base("mp3", lens=(310 + i, 10)).sample)
				t.srs(d + "/" + name, d + "/" + name[:-4] + ".srs")
				sfv.append((name, zlib.crc32(t.files[d + "/" + name])))
			t.add(d + "/00-art-%s.sfv" % d.lower(), sfv_text(sfv), True)
	elif kind == "mixed":  # the same track in two formats
		sfv = []
		for i in range(2):
			for k in ("mp3", "flac"):
				name = "0%d-art.%s" % (i + 1, k)
				t.add(name, base(k, seed="mix%d" % i).sample)
				t.srs(name, name + ".srs")
				sfv.append((name, zlib.crc32(t.files[name])))
		t.add("00-art.sfv", sfv_text(sfv), True)
	elif kind == "mv":
		t.add("grp-clip.mkv", base("mkv").sample)
		t.srs("grp-clip.mkv", "grp-clip.srs")
		t.add("grp-clip.sfv", sfv_text([("grp-clip.mkv", zlib.crc32(base("mkv").sample))]), True)
	elif kind == "mvs":
		sfv = []
		for i in range(3):
			n = "clip%d.mkv" % i
			t.add(n, base("mkv", seed="mv%d" % i).sample)
			t.srs(n, n[:-4] + ".srs")
			sfv.append((n, zlib.crc32(t.files[n])))
		t.add("grp-clips.sfv", sfv_text(sfv), True)
	elif kind == "nfoonly":
		t.name = "Some.Movie.NFOFIX.DVDRip.XviD-GRP"
		t.add("grp-fix.nfo", b"fixed nfo", True)
	elif kind == "fixrar":
		t.name = "Some.Movie.DIRFIX.DVDRip.XviD-GRP"
		v = t.rarset("", "grp-fix", [Member("fix.txt", 30)], [])
		t.stored["grp-fix.rar"] = ("bytes", v[0].bytes())
	elif kind == "fixset":
		t.name = "Some.Movie.DIRFIX.DVDRip.XviD-GRP"
		t.rarset("", "grp-fix", [Member("fix.bin", 200)], [(0, 100)])
	elif kind == "fixtwo":
		t.name = "Some.Movie.DIRFIX.DVDRip.XviD-GRP"
		t.rarset("", "grp-fix", [Member("fix.txt", 30)], [])
		t.rarset("", "grp-fix2", [Member("fix2.txt", 40)], [])
	elif kind == "subpack":
		t.name = "Some.Movie.SUBPACK.DVDRip.XviD-GRP"
		v = t.rarset("", "grp-subs", [Member("subs.idx", data=IDX), Member("subs.sub", 200)], [])
		t.stored["?v grp-subs.srr"] = ("subs", v, [], [("subs.idx", IDX)])
	elif kind == "missing":
		v = t.rarset("", "grp-the.movie", film, [(0, n // 2)])
		del t.files["grp-the.movie.r00"]
		t.fails = True
	elif kind == "garbage":
		t.rarset("", "grp-the.movie", film, [(0, n // 2)])
		t.files["grp-the.movie.r00"] = payload("garbage", 90)
		t.fails = True
	elif kind == "cut":
		v = t.rarset("", "grp-the.movie", film, [(0, n // 2)])
		t.files["grp-the.movie.rar"] = b""
		t.fails = True
	else:
		raise ValueError(kind)


IDX = b"# VobSub index file, v7\r\nid: en, index: 0\r\ntimestamp: 00:00:01:000, filepos: 000000000\r\nid: nl, index: 1\r\n"


def sample_part(t, kind, checked):
	m = movie()
	s = lambda name, data, srs, ck=False: (t.add("Sample/" + name, data), t.srs("Sample/" + name, "Sample/" + srs, ck))
	if kind == "none":
		return
	if kind == "avi":
		s("grp-sample.avi", m.sample, "grp-sample.srs", checked)
	elif kind == "root":
		t.add("grp-sample.avi", m.sample)
		t.srs("grp-sample.avi", "grp-sample.srs", checked)
	elif kind == "two":
		s("grp-sample1.avi", m.sample, "grp-sample1.srs", checked)
		s("grp-sample2.mkv", base("mkv").sample, "grp-sample2.srs")
	elif kind == "same":
		s("grp-sample.avi", m.sample, "grp-sample.avi.srs", checked)
		s("grp-sample.mkv", base("mkv").sample, "grp-sample.mkv.srs")
	elif kind == "between":  # other names between the two of the same name
		s("a.avi", m.sample, "a.avi.srs", checked)
		s("a.b.avi", base("avi", seed="b").sample, "a.b.srs")
		s("a.mkv", base("mkv").sample, "a.mkv.srs")
		s("b.avi", base("avi", seed="c").sample, "b.srs")
	elif kind == "three":
		for k in ("avi", "mkv", "mp4", "wmv"):
			s("a." + k, base(k).sample if k != "avi" else m.sample, "a.%s.srs" % k, checked and k == "avi")
	elif kind == "upper":
		s("GRP-Sample.AVI", m.sample, "GRP-Sample.srs", checked)
	elif kind == "CAPS":
		for k in ("avi", "mkv", "mp4", "wmv"):
			t.add("SAMPLE/GRP-%s.%s" % (k.upper(), k.upper()), base(k).sample if k != "avi" else m.sample)
			t.srs("SAMPLE/GRP-%s.%s" % (k.upper(), k.upper()), "SAMPLE/GRP-%s.srs" % k.upper(), checked and k == "avi")
	elif kind == "vob":
		s("grp-sample.vob", base("vob").sample, "grp-sample.srs")
	elif kind in ("rarvob", "RARVOB"):
		v = rarsyn.build_set([Member("movie.vob", data=payload("vob", 400))], [(0, 200)], base="grp-the.movie")[0]
		name = "grp-sample.vob" if kind == "rarvob" else "GRP-SAMPLE.VOB"
		s(name, v.bytes(), name[:-4] + ".srs")
		t.stored["Sample/" + name[:-4] + ".srr"] = ("srr", name, v)
	elif kind == "broken":
		t.add("Sample/grp-sample.avi", m.sample[:300])
		t.stored["Sample/grp-sample.avi.txt"] = ("txt",)
	elif kind == "unknown":
		t.add("Sample/grp-sample.mkv", payload("nothing", 500))
		t.stored["Sample/grp-sample.mkv.txt"] = ("txt",)
	elif kind == "brokentwo":
		t.add("Sample/a-sample.avi", m.sample[:300])
		t.stored["Sample/a-sample.avi.txt"] = ("txt",)
		s("b-sample.mkv", base("mkv").sample, "b-sample.srs")
	elif kind == "empty":
		t.add("Sample/grp-sample.avi", b"")
	elif kind == "emptyvob":
		t.add("Sample/grp-sample.vob", b"")
	elif kind == "badvob":
		s("grp-sample.vob", payload("nothing", 500), "grp-sample.srs")
	elif kind == "cds":
		for d in ("CD1/Sample/", "CD2/Sample/"):
			t.add(d + "grp-sample.avi", m.sample if d[2] == "1" else base("avi", seed=d).sample)
			t.srs(d + "grp-sample.avi", d + "grp-sample.srs", checked and d[2] == "1")
	else:
		raise ValueError(kind)


def proof_part(t, kind, images):
	rar = lambda: rarsyn.build_set([Member("proof.jpg", data=JPG)], [], base="grp-proof")[0].bytes()
	if kind == "none":
		return
	if kind == "jpg":
		t.add("Proof/grp-proof.jpg", JPG, True)
	elif kind == "many":
		for n in ("Proof/a.jpg", "Proof/b.JPG", "Proof/c.jpeg", "Proof/d.png", "Proof/e.bmp", "Proof/f.gif", "Sample/shot.jpg", "Covers/front.jpg", "CD1/Cover/back.jpg", "Cover/inside.jpg", "Screenshots/1.png", "Compare/2.png"):
			t.add(n, JPG + n.encode(), True)
	elif kind == "root":
		t.add("grp-proof.jpg", JPG, True)
	elif kind == "grab":      # small image added by a site
		t.add("poster.jpg", JPG, images)
	elif kind == "folder":    # player files: never
		for n in ("Folder.jpg", "AlbumArtSmall.jpg", "AlbumArt_{7E518F75}_Large.jpg", "my cover.jpg"):
			t.add(n, JPG)
	elif kind == "numbered":
		t.add("00-art.jpg", JPG, True)
		t.add("01-art.jpg", JPG, True)
	elif kind == "big":       # named like the other files
		t.add("grp-the.movie-cover.jpg", JPG + payload("big", 100100), True)
	elif kind == "bigother":
		t.add("zz_top.jpg", JPG + payload("big", 100100), images)
	elif kind == "poster":    # the size of a site's poster
		png = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR" + struct.pack(">ii", 630, 1200) + payload("png", 100100)
		t.add("grp-the.movie-cover.png", png, images)
	elif kind == "rar":
		t.add("Proof/grp-proof.rar", rar(), True)
	elif kind == "rarsfv":
		r = rar()
		t.add("Proof/grp-proof.rar", r, True)
		t.add("Proof/grp-proof.sfv", sfv_text([("grp-proof.rar", zlib.crc32(r))]), True)
	elif kind == "CAPS":
		for n in ("A.JPG", "B.JPEG", "C.PNG", "D.BMP", "E.GIF"):
			t.add("PROOF/" + n, JPG + n.encode(), True)
	elif kind in ("RARSFV", "RARs"):   # a picture of every kind, in an archive
		for n in ("A.JPG", "B.JPEG", "C.PNG", "D.BMP", "E.GIF", "f.jpg", "g.jpeg", "h.png", "i.bmp", "j.gif"):
			r = rarsyn.build_set([Member(n, data=JPG)], [], base="grp-%s" % n[0])[0].bytes()
			d = "Proof/%s/" % n[0] if kind == "RARs" else "PROOF/"
			rn = "grp-%s.rar" % n[0]
			if kind == "RARSFV":
				rn = rn.upper()
			t.add(d + rn, r, True)
			if kind == "RARSFV":
				t.add(d + rn[:-4] + ".SFV", sfv_text([(rn, zlib.crc32(r))]), True)
	elif kind == "rarmissing":
		t.add("Proof/grp-proof.sfv", sfv_text([("grp-proof.rar", 1)]), True)
	elif kind == "jpgsfv":
		t.add("Proof/grp-proof.jpg", JPG, True)
		t.add("Proof/grp-proof.sfv", sfv_text([("grp-proof.jpg", zlib.crc32(JPG))]), True)
	else:
		raise ValueError(kind)


def texts_part(t, kind):
	if kind == "none":
		return
	if kind == "nfo":
		t.add("grp-the.movie.nfo", b"an nfo", True)
	elif kind == "upper":
		t.add("GRP-The.Movie.NFO", b"an nfo", True)
	elif kind == "more":
		t.add("grp-the.movie.nfo", b"an nfo", True)
		t.add("Sample/grp-sample.nfo", b"sample nfo", True)
		t.add("Extra/deep/er/x.nfo", b"deep nfo", True)
	elif kind == "sites":
		t.add("grp-the.movie.nfo", b"an nfo", True)
		t.add("imdb.nfo", b"http://")
		t.add("tvmaze.nfo", b"http://")
		t.add("no.nfo", b"no.nfo\r\n")
	elif kind == "nonfo":
		t.add("no.nfo", b"the nfo of Dr. No", True)
	elif kind == "tiny":
		t.add("no.nfo", b"hi", True)
		t.add("CD1/NO.nfo", b"no.nfo 9b", True)
		t.add("grp.nfo", b"8 bytes.", True)
	elif kind == "onfo":
		t.add("o.nfo", b"12345678", True)
	elif kind == "twins":
		t.add("grp-the.movie.nfo", b"lower", True)
		t.add("GRP-The.Movie.nfo", b"UPPER CASE", True)
	elif kind == "lists":
		t.add("grp-the.movie.nfo", b"an nfo", True)
		for n in ("00-art.m3u", "00-art.cue", "00-art.log", "CD1/00-art_cd1.M3U", "Sample/x.log"):
			t.add(n, b"list " + n.encode(), True)
		for n in ("rushchk.log", ".upchk.log", "ufxpcrc.log", "readme.txt", "x.diz", "cover.tif"):
			t.add(n, b"not this")
	elif kind == "CAPS":
		for n in ("GRP-THE.MOVIE.NFO", "00-ART.M3U", "00-ART.CUE", "00-ART.LOG", "CD1/00-ART_CD1.M3U"):
			t.add(n, b"LIST " + n.encode(), True)
		for n in ("IMDB.NFO", "TVMAZE.NFO", "RUSHCHK.LOG", "UFXPCRC.LOG", "README.TXT"):
			t.add(n, b"NOT THIS")
		t.add("NO.NFO", b"no.nfo\r\n")
	elif kind == "odd":
		t.add("grp-[rel].nfo", b"an nfo", True)
		t.add("Ex[tra] {1}/r\u00e9l.nfo", b"deep nfo", True)
	elif kind == "empty":
		t.add("grp-the.movie.nfo", b"", True)
	else:
		raise ValueError(kind)


def subs_part(t, kind, vobsub):
	"""vobsub: SRR files for these are wanted"""
	idx = [Member("subs.idx", data=IDX), Member("subs.sub", 300)]
	if kind == "none":
		return

	def sub(folder, stem, members, cuts, srr=None, nested=(), idxs=(("subs.idx", IDX),), **kw):
		v = t.rarset(folder, stem, members, cuts, main=False, **kw)
		if vobsub:
			t.stored[folder + (srr or stem + ".srr")] = ("subs", v, list(nested), list(idxs))
		return v
	if kind == "subs":
		sub("Subs/", "grp-subs", idx, [])
	elif kind == "volumes":
		sub("Subs/", "grp-subs", idx, [(1, 100), (1, 200)])
	elif kind == "nested":
		inner = rarsyn.build_set([Member("subs.idx", data=IDX), Member("subs.sub", 300)], [], base="inner")[0]
		sub("Subs/", "grp-subs", [Member("inner.rar", data=inner.bytes())], [], nested=[("inner.srr", [inner])])
	elif kind == "upper":
		sub("Subs/", "GRP-Subs", idx, [(1, 100)], sfvname="grp-subs.sfv", lower=True, srr="grp-subs.srr")
	elif kind == "CAPS":
		sub("SUBS/", "GRP-SUBS", [Member("SUBS.IDX", data=IDX), Member("SUBS.SUB", 300)], [(1, 100)], naming="OLD", sfvname="GRP-SUBS.SFV", idxs=(("SUBS.IDX", IDX),))
	elif kind == "NESTED":
		inner = rarsyn.build_set([Member("SUBS.IDX", data=IDX), Member("SUBS.SUB", 300)], [], base="INNER", naming="OLD")[0]
		sub("VOBSUBS/", "GRP-SUBS", [Member("INNER.RAR", data=inner.bytes())], [], naming="OLD", sfvname="GRP-SUBS.SFV", nested=[("INNER.srr", [inner])], idxs=(("SUBS.IDX", IDX),))
	elif kind == "srt":
		sub("Subs/", "grp-subs", [Member("en.srt", 50)], [], idxs=())
	elif kind == "rootname":
		sub("", "grp-vobsub", idx, [])
	elif kind == "cdsubs":
		sub("CD1/Subs/", "grp-cd1", idx, [])
		sub("CD2/Subs/", "grp-cd2", idx, [])
	elif kind == "SUBSCD":
		sub("SUBS/CD1/", "post.cd1", idx, [])
		sub("Subs-CD2/", "post.cd2", idx, [])
	elif kind == "samename":   # an SFV file with the name of the main one
		sub("Subs/", "grp-the.movie", idx, [])
	elif kind == "samenames":
		sub("Subs/", "grp-subs", idx, [])
		sub("VobSubs/", "grp-subs", [Member("more.idx", data=IDX)], [], idxs=(("more.idx", IDX),))
	elif kind in ("badlist", "badlist1", "badlist01", "badlist001"):   # the SFV lists no archive
		ext = {"badlist": ".rar", "badlist1": ".part1.rar", "badlist01": ".part01.rar", "badlist001": ".001"}[kind]
		v = rarsyn.build_set(idx, [], base="grp-vs")
		v[0].name = "grp-vs" + ext
		t.add("Subs/" + v[0].name, v[0].bytes())
		t.add("Subs/grp-vs.sfv", b"; no lines\r\n", True)
		if vobsub:
			t.stored["Subs/grp-vs.srr"] = ("subs", v, [], [("subs.idx", IDX)])
	elif kind == "subscd":
		sub("Subs/CD1/", "post.cd1", idx, [])
	elif kind == "twosets":
		a = rarsyn.build_set([Member("a.idx", data=IDX)], [], base="aa-subs")
		b = rarsyn.build_set([Member("b.idx", data=IDX + b"x")], [], base="bb-subs")
		for v in a + b:
			t.add("Subs/" + v.name, v.bytes())
		t.add("Subs/grp.sfv", sfv_text([(v.name, zlib.crc32(v.bytes())) for v in a + b]), True)
		if vobsub:
			t.stored["Subs/aa-subs.srr"] = ("subs", a, [], [("a.idx", IDX), ("b.idx", IDX + b"x")])
			t.stored["Subs/bb-subs.srr"] = ("subs", b, [], [])
	elif kind == "codec":
		t.rarset("Codec/", "codec", [Member("codec.exe", 60)], [], main=False)
		if vobsub:
			t.stored["Codec/codec.srr"] = ("subs", None, None, None)
	elif kind == "dirfix":
		t.rarset("Some.Movie.DIRFIX-GRP/", "grp-dirfix", [Member("x.txt", 60)], [], main=False)
	else:
		raise ValueError(kind)
