"""Hand-written notes per property for DESIGN.md (assembled by design.py).

Each value is (why exploration settles what tests can't + how it is bound to the code,
oracle, what is left out and why)."""
N = {}

N["B01"] = ("""Small tools, each a loop over files with a test per file; what goes wrong depends on what lies
beside what (a state kept from the file before, the order of stored files, an existing result). All trees and lists up to
a bound run through the real scripts.""",
"A model of the folder tree and of the lines listed.",
"""Two samples that give one SRS name; what srr_sort -l and -d print (by release name); names inside one SRR that only differ by folder for srs_bad.""")

N["P03"] = ("""What can go wrong depends on which installers and other files lie together, their order, and on what
is already in the output folder; each installer is made up (a stub with a RAR set, or a .tar.gz), so that no RAR is needed.
All folders of a few of them run through the real script.""",
"The folder that must be there: one executable per wanted installer under its date and version, with the bytes of its installer.",
"""Two installers of one version and date (x86 and x64): either may be left (on Windows the first, elsewhere the last). A missing unrar. File names in capitals.""")

N["P02"] = ("""The rebuild starts foreign programs and looks for the one, and the thread count, that made the set; which one
that is depends on files, names, dates and earlier results, and none of it is in the tests because it needs the old RAR
versions. `mc/fakerar.py` stands for them: eight versions (2.05 to 5.31) with RAR's command line (unknown switches are
refused as the real ones do; -mt ranges; -vn, -ma4), RAR's volume layout and checksums, and a pseudo-compressor whose
output depends on version, level, dictionary, threads, the solid data before and optionally on the neighbouring files.
They run inside the checking process (`subprocess.Popen` is answered for their paths only), and
one slice of the cases runs them as real programs, which ties the short cut to the real way.""",
"The original volumes, written by an independent RAR writer from what the version in question packs.",
"""RAR's own compressor isn't run: nothing is claimed about which real version makes which data. Not claimed: data that
depends on the files after it in volumes (the rebuild refuses it), single volumes of solid sets (a later one fails with a
KeyError), members of one name in two folders of a solid set, versions that give the same packed size for a file in one
volume (the program can't tell them apart: the checksum there is of the unpacked data).""")
N["X01"] = ("""What a folder holds after foreign archives were unpacked in it is arbitrary; all small trees with every kind of
entry are emptied by the real functions, as an unprivileged user, with all links pointing into the scratch folder.""",
"The tree outside the folder (unchanged), and nothing left inside.",
"""Trees the user has no permission for; special files (FIFO, devices).""")

N["C01"] = ("""The three real functions (`MessageThread.run`, `Observer.update`, the event
functions of `rescene.main`) run as two threads under `mc/sched.py`, a scheduler
that hands out one token and decides after every bytecode instruction that touches
shared state who goes on. Schedules are enumerated depth first with a preemption
bound (2 quick, 3 thorough); blocking operations (sleep, wait, join) are switch
points that cost nothing. No sampling: the tree of decisions is exhausted.""",
"The list of posted messages: the printed list must be equal to it when the join returned.",
"""The `join(0.5)` in the command line is given as much virtual time as the thread needs
unless the program itself is what never ends; a print that raises kills the printing
thread (a broken stdout is not the tool's promise).""")

N["K01"] = ("""The maker's output depends on the data size modulo the volume space, on roll-overs of
names and on header options that change sizes; every one of those relations is walked
completely instead of being sampled. A selection of sets is also tested with the real
`unrar` (7.00) so that the model itself is validated by the program that users have.""",
"""An independent writer of the volumes (mc/rarsyn.py) with CRCs from zlib, the announced
sizes of the dry run, an SRR round trip through rescene, and `unrar t`.""",
"""Sets over 2 GiB are only planned (dry run). A single last volume doesn't say which
volume size was asked for, so reading settings back from it is not claimed. Names with a
Windows folder part, not representable in the archive's character set, or with a base that
itself ends in `.part1` are only checked for their bytes.""")

N["K02"] = ("""A release folder is a product of component choices (main files, nfo, samples, proofs,
subtitles, order in which the file system lists them, options, earlier runs). All pairs
(triples) of departures are run through the real tool, which is where the cross effects
live (a proof RAR beside a subtitle RAR, a rerun, a batch after a failure).""",
"A model in mc/relsyn.py that says which files the SRR must store, in which form, and which volumes it must describe.",
"""unrar is a stand-in that reads store-mode archives (mc/shim/bin/unrar), fpcalc answers
always the same. Documented guesses (main volumes named like subtitles, fix releases) are out.""")

N["P01"] = ("""Which volumes are wanted is one more dimension of the layouts of R01; the code carries
source offsets from volume to volume, so each subset of each layout is a different history.""",
"The bytes of the original volumes.", "Store mode.")

N["R01"] = ("""The walk over RAR blocks and its inverse have one branch per header flag and block kind,
and they interact through offsets. All combinations of up to 3 (4) departures, plus complete
sweeps of cut positions, recovery sector alignments and volume counts, are written by an
independent RAR writer and go through the real creation and reconstruction.""",
"The bytes of the volumes; also the bytes of the SRR (independent SRR writer), so that packed data never leaks into it.",
"""Compressed archives need WinRAR executables for every version and are out, as is RAR 5.
The independent recovery record writer is itself compared with the ones of WinRAR in the
repository's test files.""")

N["R02"] = ("""The promise is about each position and each member: every byte flipped, every length
around the right one, wrong files found by name, by hint or by search, existing outputs.""",
"Either the output is equal to the original, or the caller was told (exception or event).",
"skip_rar_crc and empty are options that ask for less; only the size test is checked there.")

N["R03"] = ("""Breadth-first search: a state is the exact bytes of the SRR file, a transition is one public
operation of the real code. States are merged only when all bytes are equal, hence have equal
futures. Every transition is compared with an ordered list of (name, bytes) pairs.""",
"The ordered list, and an independent writer for the complete file.",
"""Renaming onto an existing name and editing duplicate names have no defined meaning and are
not used as transitions; names differing in case are.""")

N["R04"] = ("""The operation is first run to count its calls at the libc boundary; then it is run again once
for each call and each thing that can happen there (dying before, dying after, torn write,
EIO/ENOSPC/EACCES, everything failing from there on, SIGINT). The shim (mc/shim/vfault.c) is loaded with
LD_PRELOAD: it does not matter which Python function makes the call.""",
"The bytes before and the bytes of the undisturbed edit.",
"A process crash, not a power failure: the code never calls fsync and does not claim that.")

N["R05"] = ("""Every truncation length and every changed header byte of every volume, every missing or
unusable input, every failing file operation, times the state of the target and the permission to overwrite.""",
"Folder snapshot before and after; a created SRR must be the one of the (undamaged reading of the) input.",
"Sets of up to 3 small volumes.")

N["R06"] = ("""The names come from strangers. All sequences of up to 3 (4) path elements with both separators,
in each of the two places where an SRR holds a name, through every entry point that writes.""",
"A snapshot of everything around the output folder; harmless names must give the file at that path.",
"""POSIX only. Runs inside a scratch folder nested deep enough that every explored name stays inside it.""")

N["R07"] = ("All operation sequences up to depth 3 (4) on the real stream in lockstep with `io.BytesIO`, on all placements of up to 3 boundaries.",
"A model file with the same bytes.", "Archives that mix compressed and stored members are refused by the tool and out.")

N["R08"] = ("All token sequences up to a length, all permutations of selections of volume names around the roll-overs.",
"An independent SFV grammar; the order of the naming scheme's generator.", "Nothing about non-text files.")

N["R09"] = ("The report has one dictionary per kind of thing; what goes wrong is that two things share a key or that a size is attributed to the wrong volume, which needs combinations.",
"The list of what the independent writer put in.", "SFV checksums for volumes and one path that occurs twice.")

N["R10"] = ("Every truncation and every byte change of base archives is read to the end by the real reader in a bounded worker.",
"An independent walker that says where blocks must begin and end, and a ceiling on exceptions: only the documented ones.",
"Three or more coordinated changes; RAR 5.")

N["R11"] = ("All sizes around the 64 KiB windows and all splits at window borders; the hash of a packed file needs both windows across volumes.",
"An independent implementation of the published algorithm.", "The same path twice in one SRR.")

N["R12"] = ("Combining is linear over GF(2), so the basis times the lengths settles all values; linearity itself is checked on all pairs.",
"A polynomial model, which is checked against zlib.", "")

N["R13"] = ("Whole walks from the first to the last legal volume, unions and orders of sets.",
"An independent generator of names.", "")

N["R15"] = ("""All combinations of up to k departures from a plain request (volume set, inputs, the way paths are
written, base folder, kept paths, files to store, hashes, entry point) through the functions and the command line.""",
"A model of the whole SRR file: the bytes have to be equal; also the folders of the user and the caller's lists.",
"Store names that begin with '..' (documented to be relative to the current folder); two different files with the same name when no paths are kept.")
N["R14"] = ("Small sizes, but all of them: file length x window x range x damaged bit.",
"The undamaged bytes.", "")

RS = ("""All combinations of up to k departures from a plain sample and movie, plus every cut position,
through the real command line: create the SRS from the sample, check it against the movie, rebuild.""",
"The bytes of the sample, and the exit code.")
N["S01"] = RS + ("Recompressed movies.",)
N["S02"] = RS + ("Clusters of unknown size.",)
N["S03"] = RS + ("Fragmented files and unreferenced bytes in data atoms are refused by design.",)
N["S04"] = RS + ("Packets that no Windows Media writer makes are refused.",)
N["S05"] = RS + ("",)
N["S06"] = RS + ("Audio of which the end looks like a tag that the main file lost.",)
N["S07"] = RS + ("The M2TS track mode: its reconstruction is not implemented, and the tool stores M2TS as a stream.",)
N["R16"] = ("""Where a result goes is decided by the options, the working folder, the form of the paths and
the files that are there together; all combinations of up to k departures run through
the real command line, with the whole folder tree compared before and after.""",
"A model of the folder tree after the command: the one file, or the set of files, that may differ.",
"""Exit codes after a declined overwrite; a regular expression that fits only further on in a name
(the tool anchors it at the start); what an SRR holds is the matter of R15, what is rebuilt that of R01.""")
N["S12"] = ("""As for R16, for the sample tool: the combinations of options, paths and existing files run through the real command line.""",
"A model of the one file that may differ, and the SRS made by the plainest command line.",
"""The name that --ddd gives (the help and the code differ), and --ddd together with a folder given by -o.""")
N["S08"] = ("Every truncation and byte change of the main file and of the SRS, all answers and options, and one fault at each file operation, on the real command.",
"The bytes and checksum of the sample: success only with the exact sample in place, existing files only replaced when allowed.", "")
N["S09"] = ("All values below a bound and around every width boundary, each field of each container.",
"Read equals written, and an independent encoder for the integers.", "")
N["S10"] = ("Every truncation, byte change, removal, insertion of a sample of each kind through creation, then, if accepted, through rebuilding.",
"The bytes of the damaged sample: accepted means rebuilt exactly.",
"MP4: sizes of a track that the sample tables leave undefined after one changed byte are accepted if the rebuilt file is refused by its checksum.")
N["S11"] = ("Every place where a volume can end, every small volume size, archive layouts; each is compared with the same operation on the unpacked movie.",
"The SRS and sample of the unpacked run.",
"The tool looks at the first movie or music file that is listed in the first volume; movies that begin in a later volume are refused (not claimed). Store mode.")
N["T01"] = ("""All combinations of up to k departures from a plain music release and a plain run, through the
command line of the tool; the SRS files come from the real sample tool.""",
"A model of the whole output folder, and the exit code.",
"What happens to SRS files that lie in the output folder already when everything may be replaced.")
N["U01"] = ("""Articles are cut at every size; at every request of the run the server misbehaves in each of 18 ways
(once, for good, on all servers). The simulated servers sit behind the real `nntplib`, so the program's own
protocol handling, retrying and server selection run unchanged.""",
"The SRR that the independent writer makes of the undamaged volumes.",
"""A changed byte inside a RAR header is not claimed: for RAR volumes the program only downloads the beginning of
each article and can't check its checksum. (Damage is still found when the header's own checksum fails, since then
the volume is read again from complete articles.) Only stored files that no server has may be left out.""")
N["U02"] = ("All short byte strings over the bytes that matter, all widths, escapes, header forms, single damages.",
"An independent encoder.", "A name change and other header fields outside the checksum.")
N["U03"] = ("""Three parsers must agree with an independent writer on all spellings up to a bound; the tools are run on all
small sets of files, and every one of their file operations fails, tears or is the last one.""",
"An independent NZB reader over the tool's output: no file or segment may be lost or doubled.",
"""Tabs and newlines in attributes (XML normalizes them) and CDATA; segments without id; splitting again into
an existing output appends by design.""")
N["U04"] = ("All operation sequences seek/read/seek/read over offsets around every part boundary, and every failure at every request.",
"A byte string with a position.",
"""Posts with uneven parts that aren't RAR volumes must fail clearly instead; damage to RAR volumes is the subject of U01.
An article that isn't yEnc, or that belongs to another post, as first part can't be recognized.""")
N["V01"] = ("Every pair of file faults on every layout, on the function and the command.",
"The definition: all files present with size and checksum.", "A forged checksum of the right size counts as matching.")
