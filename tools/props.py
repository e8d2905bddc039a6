#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os, sys

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

M = "rescene/main.py"
prop("R01", "A store-mode RAR set is rebuilt byte for byte from its SRR",
 "For every set of RAR volumes whose members are stored without compression, creating an SRR from the set and reconstructing from that SRR plus the extracted files yields volumes with the same names and exactly the same bytes, including recovery records, comments, padding after the end of the archive, directories and empty files. The SRR holds the volumes' headers only: none of the packed file data.",
 ["inputs", "configurations"],
 "every combination, up to the bound, of volume count, naming scheme, member kinds and split points, header flags (large file, extended time, salt, unicode name, comment, missing length field), recovery records, end block shape and trailing padding",
 "The tests rebuild a few fixed sample sets; header flags, split points, padding sizes and block kinds interact, and one wrong combination corrupts a release silently.",
 [M, "rescene/rar.py"],
 [("SRR creation walk over RAR blocks", M+":create_srr, _handle_rar"), ("reconstruction", M+":reconstruct, _repack, _write_recovery_record"), ("block reader", "rescene/rar.py:RarReader")])
prop("R02", "Reconstruction never passes off wrong source data as the original",
 "When the file supplied for rebuilding differs from the packed original in length, reconstruction fails or reports the length problem; when it differs in content, reconstruction fails or reports a checksum mismatch to the caller. Reconstruction never replaces an existing output volume without permission, and a file located by name or by a rename hint is used only when it has the recorded size.",
 ["inputs", "configurations"],
 "every single-fault source (shorter, longer, one byte flipped at each position class, missing, renamed, found elsewhere) for every member of every layout up to the bound",
 "Tests sample one or two wrong sources; the guarantee is about every position and every member, in single and split volumes.",
 [M], [("source lookup", M+":_locate_file, reconstruct"), ("CRC and size events", M+":_repack, MsgCode")])
prop("R03", "Editing stored files in an SRR acts on an ordered list and nothing else",
 "Adding, renaming, removing, extracting and merging the files stored in an SRR behave, over every sequence of operations, as the same operations on an ordered list of (path, bytes) pairs. The application name, the RAR metadata and the order and contents of all other stored files are preserved byte for byte, and a refused operation leaves the file unchanged. An addition that would store a name that is there already is refused.",
 ["histories"],
 "every sequence of operations up to the bound over a small alphabet of names (subfolders, case variants, unicode, duplicates) and contents (empty, binary, block look-alikes), from several initial SRRs",
 "Tests check single operations on one sample; order, duplicates and block offsets go wrong only after particular sequences.",
 [M, "rescene/rar.py"],
 [("add/remove/rename/merge/extract", M+":add_stored_files, remove_stored_files, rename_stored_file, merge_srrs, extract_files"), ("stored block", "rescene/rar.py:SrrStoredFileBlock")],
 [("stored list", "ordered (name, bytes) pairs between SRR header and RAR metadata")])
prop("R04", "An interrupted or failing SRR edit leaves the old or the new SRR",
 "If adding, removing or renaming a stored file, or merging SRR files into one of them, is interrupted at any file-system operation, or any such operation fails, the SRR path afterwards holds either exactly the bytes from before the edit or exactly the bytes of the completed edit. When the edit reports an error in a running process, the temporary file it made is gone.",
 ["crash_points", "fault_sequences"],
 "every mutating file-system call of every edit: the process dying before and after it, a torn write, and the call failing with an error code",
 "No test injects a fault or a crash; the guarantee is about each point between the calls.",
 [M, "rescene/rar.py", "rescene/utility.py"],
 [("temporary file then replace", M+":add_stored_files, remove_stored_files; rescene/rar.py:SrrStoredFileBlock.renameto")])
prop("R05", "Creating an SRR is all or nothing and respects existing files",
 "Creating an SRR never touches a file that already exists at the target unless overwriting was allowed. If creation fails because an input is unusable (bad or truncated archive, compressed member when not allowed, missing volume, missing input), no partial SRR stays behind.",
 ["inputs", "fault_sequences", "configurations"],
 "every unusable input kind at every volume and block position up to the bound, with and without an existing target and permission, plus I/O errors on each write",
 "Tests try one failing input; the guarantee spans every failure position and target state.",
 [M, "rescene/srr.py"], [("creation and clean-up", M+":create_srr, create_srr_single_volume; rescene/srr.py:create_srr")])
prop("R06", "Extraction and reconstruction write only inside the output folder",
 "Whatever names an SRR file contains, extracting its stored files or reconstructing its volumes creates or changes files only below the chosen output folder. Names without any traversal keep working and end up at the path the SRR records.",
 ["inputs"],
 "every stored or volume name built from a small alphabet of path components (dot-dot, dot, empty, drive prefix, separators of both kinds, leading and doubled separators, unicode) up to a bounded length",
 "Tests use harmless names; an adversarial SRR comes from the internet.",
 [M, "rescene/utility.py"], [("path sanitising", M+":extract_files, reconstruct; rescene/utility.py:joinpath")])
prop("R07", "The RAR stream reads exactly like the packed file itself",
 "Opening a stored member of a RAR set as a stream gives a read-only file whose length, tell, seek and read results equal those of the original member, for every sequence of seeks (all origins) and reads (any size, across volume boundaries). Compressed members, unknown members and a missing first volume are refused with the documented errors.",
 ["histories", "inputs"],
 "every operation sequence up to the bound over every split of a short member into volumes, entered from every volume, old and new naming",
 "Tests read one sample front to back with a few seeks; offset logic depends on the position relative to every split point.",
 ["rescene/rarstream.py"], [("chunk list and offset", "rescene/rarstream.py:RarStream, FakeFile")])
prop("R08", "SFV data is read completely, and its order and volume test are consistent",
 "Parsing SFV text yields, for every line that is not a comment, blank or malformed, one entry with the right file name and checksum, and collects all other lines as comments or errors. Sorting entries puts the RAR volumes of a set in archive order for every permutation, and the RAR name test agrees with that naming. Two SFV files count as the same exactly when their entries are, in whatever order, case and between whatever comments.",
 ["inputs"],
 "every SFV built from an alphabet of lines up to the bound (spaces and tabs, blanks in names, quotes, CR/LF, comments, short or bad checksums) and every permutation of volume names from old and new style sets",
 "Tests give a handful of SFV texts; ordering must be a total order over every mixture of names.",
 ["rescene/utility.py"], [("parser and comparison", "rescene/utility.py:parse_sfv_data, SfvEntry, is_rar, same_sfv")])
prop("R09", "SRR inspection reports exactly what is in the SRR",
 "The report on an SRR lists every stored file, every RAR volume with its size and checksum, every packed file with its size and checksum, SFV entries and the compression flag, for every layout. The content fingerprint depends on the RAR metadata of the volumes only: it does not change with stored files, application name, folders, video hashes or the order of the volumes, and it does change with any volume's metadata or a missing volume.",
 ["inputs", "configurations"],
 "every layout up to the bound: several sets, several members, split members, stored SFV with or without matching names, comments",
 "Tests look at two or three samples; aggregation across volumes and sets has many shapes.",
 [M], [("aggregation", M+":info, content_hash")])
prop("R10", "The block reader terminates, stays in bounds and reports damage as such",
 "Reading any RAR or SRR byte string finishes and either yields blocks that tile a prefix of the file, each block's raw header bytes equal to the bytes at its position, or raises the documented archive or I/O errors, never any other error; damage to the structure is never passed over silently. Packed names in every legal encoding read as the original name. Every field of a member's header reads as it was written, also with all optional fields. Printing the details of any valid SRR or RAR works.",
 ["inputs"],
 "every truncation, every single-byte change (from a value alphabet) and every pair of header changes of every base archive up to the bound; every encoding of every short name",
 "Tests have a few broken files; damage can be at any byte.",
 ["rescene/rar.py", M], [("block parsing", "rescene/rar.py:RarReader, RarBlock and subclasses"), ("details", M+":print_details")])
prop("R11", "The OpenSubtitles hash and its checks match the published algorithm",
 "For every file of at least the minimal size (64 KiB) packed without compression in a RAR set, the computed hash equals the published OpenSubtitles hash of the file itself, with the right name and size, however the file is split over volumes. Hashes stored on SRR creation are those values and read back unchanged.",
 ["inputs", "configurations"],
 "every split of a file over up to three volumes around the 64 KiB windows and every size class around the minimum",
 "Tests use one file; windows that straddle volumes are the hard part.",
 ["rescene/osohash.py", M], [("hash", "rescene/osohash.py"), ("stored block", "rescene/rar.py:SrrOsoHashBlock; rescene/main.py:create_srr")])
prop("R12", "Combining two CRC32 values equals the CRC32 of the joined data",
 "For all checksums of two byte strings and the length of the second, the combined checksum equals the checksum of the concatenation, as an unsigned 32-bit value, including zero length and lengths beyond 32 bits. Combining is associative.",
 ["inputs"],
 "every pair of contents up to the bound and every power-of-two length up to 2^40",
 "Tests compare a few values; carries and lengths beyond 4 GiB need the algebra.",
 ["rescene/crc32combine.py"], [("GF(2) matrices", "rescene/crc32combine.py")])
prop("R13", "Volume naming steps through every set in order",
 "Starting at the first volume and repeatedly asking for the next name visits exactly the volumes of the set in order, for old style, new style (zero padded when there are more than nine volumes) and numbered sets of any length, whatever the case of the extension. Picking the first volumes out of any listing yields exactly the first volume of each set.",
 ["inputs", "configurations"],
 "every length up to the bound across the rollover points of every naming scheme, and every subset of names of mixed sets",
 "Tests check some steps; rollovers and mixtures are combinatorial.",
 ["rescene/utility.py"], [("naming", "rescene/utility.py:next_archive, first_rars")])

prop("R14", "The bit-flip search repairs one-place damage and never invents a fix",
 "Given a file that differs from the original in one bit (or one byte, or one switched pair of neighbouring bits, by mode) inside the searched range and the original's checksum, the bit-flip script writes exactly the original as the fixed file. When the damage is elsewhere or of another kind, it writes no file, and it never changes its input.",
 ["inputs", "configurations"],
 "every damage position and value, search range and window size of every file up to the bound",
 "No test runs the script; window borders and ranges decide whether a position is searched.",
 ["scripts/bitflip.py", "rescene/crc32combine.py"], [("search", "scripts/bitflip.py:main"), ("combination", "rescene/crc32combine.py:crc32_combine")])
prop("R15", "A new SRR holds exactly what was asked for",
 "Creating an SRR from SFV files and first RAR volumes gives a file that holds, in order and nothing else: the header, every file to store that exists (each once, wildcards filled in, the SFV files used after them), every volume the inputs stand for (each once, with its exact headers and without its packed data) and the hashes of the videos inside. Names are relative to the base folder when paths are kept and bare file names otherwise, and never point outside. The result does not depend on how a path is written, what folder is current, how often it is asked or which entry point is used; the input files, the folder and the arguments of the caller stay as they were; starting from a volume that isn't the first one is refused.",
 ["inputs", "configurations", "histories"],
 "every combination of a bounded number of departures from a plain request: volume set, way to hand over the inputs, way to write their paths, base folder, list of files to store, options, entry point",
 "Tests create SRR files of a few fixed sets from one folder and look at a few stored names.",
 [M, "rescene/srr.py"], [("creation", M+":create_srr, _store, _stored_name, _search, _handle_sfv, _handle_rar; rescene/srr.py:create_srr")])
S = "resample/main.py"
def srs(id, kind, modf, extra):
    prop(id, "%s samples are rebuilt byte for byte from their SRS" % kind,
     "For every well-formed %s sample, an SRS made from it plus the main file the sample was cut from rebuilds a file identical to the sample, with the main file's streams placed at any offset and framed differently. The SRS itself contains the sample's structure and metadata but not its stream data%s." % (kind, extra[0]),
     ["inputs", "configurations"], extra[1],
     "Tests rebuild none or a few real samples; the byte layouts a container allows are combinatorial.",
     [S, modf], [("profile, create, find, extract, rebuild", S), ("container reader", modf)])
srs("S01", "AVI", "resample/riff.py", ("", "every chunk layout up to the bound: stream count, chunk order and sizes (zero, odd with padding, small), index, nested lists, OpenDML RIFF, trailing data, and every cut position in the main file"))
srs("S02", "Matroska", "resample/ebml.py", ("", "every cluster layout up to the bound: block kinds, lacing kinds, header-stripping compression, attachments, size-field widths, unknown elements, and every cut position in the main file"))
srs("S03", "MP4", "resample/mov.py", ("", "every atom layout up to the bound: track count, chunk interleaving, 32 or 64 bit offsets, sample-to-chunk runs, fixed or per-sample sizes, position of the metadata, and every cut position in the main file"))
srs("S04", "WMV", "resample/asf.py", ("", "every packet layout up to the bound: payload kinds (single, multiple, fragmented, compressed), length-field widths, padding, stream count, and every cut position in the main file"))
srs("S05", "FLAC", "resample/flac.py", ("", "every combination of metadata blocks, leading ID3v2 and trailing ID3v1 tags and audio data up to the bound"))
srs("S06", "MP3", "resample/mp3.py", ("", "every combination of leading ID3v2, trailing ID3v1, Lyrics3 and APE tags, padding and audio data up to the bound"))
srs("S07", "Raw stream (VOB, M2TS, MPEG)", "resample/stream.py", ("", "every size and cut position of the sample in the main file up to the bound, including signature look-alikes before the real match and matches across buffer boundaries"))
prop("R16", "The srr command works on the files it was given, and on nothing else",
 "Whatever the working folder and the way paths are written, the srr command puts its result where its options say: a new SRR at the file given with -o, or in that folder (or the current one) under the name of the first input or, with -d, of the base folder; extracted stored files, all or those that fit a pattern, below the output folder (plus the SRR's name with -d), with their paths only when asked; rebuilt volumes with the stored files in the output folder; files to add inside the SRR. An SRR is recognized whatever the case of its extension. Nothing else on disk changes: not when listing, verifying or being refused, and no existing file when the answer is no. A missing or unusable input, a missing folder for the new SRR, and conflicting or malformed options give a failing exit code; success gives 0.",
 ["inputs", "configurations"],
 "every combination of a bounded number of departures from a plain command line: options, way to write paths, working folder, existing files and answers, for creation, extraction, rebuilding, adding, listing and refusal",
 "Tests call the library; no test runs these command lines.",
 ["rescene/srr.py"], [("command line", "rescene/srr.py:main, manage_srr, create_srr"), ("extraction", M+":extract_files")])
prop("S12", "The srs command puts its results where asked, and nowhere else",
 "Whatever the working folder and the way paths are written, the srs command puts the new SRS at the file given with -o, or in that folder (or the current one, or with --ddd the one above the sample's) under the sample's name or, with --d or --dd, that of the sample's folder or the one above; the SRS is the same wherever it goes. A rebuilt sample goes under its recorded name to the -o folder, which is made when needed, or to the current one. -l lists the recorded name, size, checksum and tracks. Nothing else on disk changes: not when listing, when only informing or when refused, and no existing file when the answer is no. Missing or unusable files, a missing folder for the new SRS and conflicting options give a failing exit code; success gives 0.",
 ["inputs", "configurations"],
 "every combination of a bounded number of departures from a plain command line: kind and name of sample, options, way to write paths, working folder, existing files and answers, for creation, rebuilding, listing and refusal",
 "Tests call the library; no test runs these command lines.",
 ["resample/srs.py"], [("command line", "resample/srs.py:main, can_overwrite")])
prop("S08", "Rebuilding a sample reports success only for the exact sample",
 "The sample tool ends with success only if the file it wrote has the size and checksum recorded in the SRS, for every wrong or damaged main file or SRS. It never overwrites an existing sample or SRS without permission, writes nowhere besides the result file in the output folder, and a failed creation or rebuild leaves existing files as they were, nothing new behind (unless failures are to be kept), and the main file untouched even when it lies where the result goes.",
 ["inputs", "configurations", "fault_sequences"],
 "every container kind times every damage of the main file and the SRS (truncation, changed byte, foreign stream, missing) times every answer and option about existing files, and one failing, torn or interrupted file operation at every position",
 "Tests never drive the tool end to end; its verdict is what users act on.",
 ["resample/srs.py", S], [("verdict and overwrite handling", "resample/srs.py:main")])
prop("S09", "SRS records survive writing and reading for every value",
 "The file and track records of an SRS, in every container, read back exactly as written for every value of sizes, offsets, track numbers, names and signature bytes, including values beyond 4 GiB and empty fields. Variable-width integers used in the container formats decode to the value that was encoded.",
 ["inputs"],
 "every boundary value of every field times every container encoding",
 "Tests cover one value each; width switches happen at boundaries.",
 [S, "resample/ebml.py", "resample/mp3.py"], [("serialisation", S+":FileData, TrackData, *_load_srs"), ("integers", "resample/ebml.py:MakeEbmlUInt, GetEbmlUInt; resample/mp3.py")])
prop("S10", "A damaged sample is refused or still handled exactly",
 "For every truncation or change of a sample, making an SRS from it either is refused with the documented error, leaving no usable SRS, or gives an SRS whose rebuild from the matching main file is byte for byte the damaged sample; nothing else happens and it always ends. (Only an MP4 sample whose chunk table is damaged so that it points to other places inside the file may be accepted and then be refused when it is rebuilt; success is never reported for anything but the exact damaged sample.)",
 ["inputs"],
 "every truncation point and every single-byte change from a value alphabet of each container's base sample",
 "Tests have no damaged samples for most containers.",
 [S, "resample/srs.py"], [("profiling", S+":profile functions"), ("size comparison", S+":create functions")])
prop("S11", "A main movie can be used straight from its RAR volumes",
 "Searching and rebuilding a sample with the stored RAR volumes of the main movie (the first movie or music file that the first volume lists) gives the same result as with the unpacked main movie, wherever volume boundaries fall in the movie's structure.",
 ["inputs", "configurations"],
 "every volume split position of each container's base movie up to the bound, one and two splits",
 "Tests never read a movie through volumes at all split points.",
 [S, "rescene/rarstream.py"], [("opening the main file", S+":open_main; rescene/rarstream.py")])
prop("T01", "Retagging a music release gives its tracks and files back",
 "Given the SRR of a music release and a folder with its tracks, of which only the tags changed, the retag tool puts every stored file and every original track, byte for byte, at its own place in the output folder, whatever the case of the names in the input folder and also when tracks lie in one folder instead of the disc folders; when the output folder is the input folder too. A track that is missing, damaged or not replaceable doesn't stop the others. Existing files are replaced only with permission; no SRS or temporary file stays behind; SRS files that aren't of music are skipped; files outside the output folder never change. It ends with success only when all the music tracks that the SRR holds were restored.",
 ["inputs", "configurations", "histories"],
 "every combination of a bounded number of departures from a plain run: track layouts, states and places of the tracks, other stored files and SRS files, existing results, permissions, output folders, reruns",
 "No test runs the tool.",
 ["bin/retag.py", "resample/srs.py"], [("restoring", "bin/retag.py:main, fix_tracks, fix_tagging, join_fix_case; rescene/main.py:extract_files; resample/srs.py:main")])
prop("V01", "Verification passes exactly when all files match",
 "Verifying extracted files against an SRR succeeds exactly when every packed, non-empty file it records exists below the folder with the recorded size and checksum; otherwise it reports failure. Verification changes nothing on disk.",
 ["inputs", "configurations"],
 "every layout times every single and double file fault (missing, short, long, flipped)",
 "Tests verify no failing combination systematically.",
 ["rescene/srr.py"], [("verdict", "rescene/srr.py:verify_extracted_files, main")])
prop("U01", "Partially downloaded volumes lead to a complete SRR or a clear refusal",
 "Making an SRR from posted volumes (an NZB file and the news servers) gives the SRR the volumes themselves would give, wherever the articles cut the headers and however little of each article is downloaded. When articles are missing, cut short, damaged, swapped or connections fail, the result is still that SRR, or creation is refused: then no SRR file is left and an existing one is untouched. A stored file other than the SFV may be left out when no server has it undamaged; a set whose SFV can't be used goes to the folder for SRRs without SFV. An article that the next server has complete is taken from there, and creation always ends.",
 ["fault_sequences", "inputs"],
 "every article size up to the size of a volume for each form of a set, and every kind of failure or damage at every request, on one server or all, up to two per run",
 "Tests mock no failing reads and no news server.",
 [M, "usenet/srr_usenet.py"], [("retrying reader", M+":_rarreader_usenet, create_srr_fh, _handle_rar, _store_fh"), ("download and server choice", "usenet/srr_usenet.py:create_srr, NNTPFile")])
prop("U02", "yEnc decoding recovers the posted bytes",
 "For every byte string, every line length and every legal choice of optionally escaped characters, decoding the article's lines (as nntplib returns them: dots unstuffed) gives the original bytes with matching size and checksum, single and multipart; a damaged or truncated article is reported as such (YencException or CrcError): no other bytes, part number or offsets are returned.",
 ["inputs"],
 "every byte value in every line position, line lengths, escapes and dot-stuffing up to the bound, and every single-byte damage",
 "Tests decode a few articles.",
 ["usenet/yenc.py"], [("decoder", "usenet/yenc.py:decode")])
prop("U03", "NZB files survive reading, merging and splitting",
 "Reading an NZB yields every file with its poster, date, subject, groups and segments in order (or fails: a cut off file is never read as if complete), also when it has one of the known XML errors; writing it again gives the same entries. Merging NZB files yields all files of all inputs; splitting one puts every file in exactly one output or reports it as failed; sample extraction copies the entries asked for. No entry is ever lost: a failed or interrupted merge, split or sample extraction leaves the inputs (or the complete merged file) and earlier outputs intact, and renaming or moving never replaces another NZB file.",
 ["inputs", "fault_sequences"],
 "every set of NZB files up to the bound (counts, spellings, subject shapes, special characters) and every crash point and failing file operation of the tools",
 "Tests only check two regular expressions and parse one file.",
 ["usenet/nzb_utils.py", "usenet/nzb_merge.py", "usenet/nzb_split.py", "usenet/nzb_sample_extract.py", "usenet/nzb_rename.py", "usenet/nzb_age.py", "usenet/pynzb/"], [("reader", "usenet/nzb_utils.py, usenet/pynzb"), ("tools", "usenet/nzb_merge.py, usenet/nzb_split.py, usenet/nzb_sample_extract.py, usenet/nzb_rename.py")])
prop("U04", "A file read over NNTP segments equals the posted file",
 "Seeking and reading a posted file (parts of one size, except the last) through its segments returns the posted bytes, position and size for every sequence of operations when the server delivers, however little of an article is downloaded at first and whatever the article's Lines header says. For files that are no RAR volumes a damaged, truncated, missing or foreign segment never gives wrong bytes: the read fails, or the segment is taken from the next server that has it undamaged.",
 ["histories", "fault_sequences"],
 "every sequence of seeks and reads up to the bound for every shape of a post, and every kind of failure or damage at every request, on one server or all, up to two per run",
 "Tests mock whole segments only.",
 ["usenet/srr_usenet.py", "usenet/yenc.py"], [("segment cache and segment download", "usenet/srr_usenet.py:NNTPFile.read, seek, file_size, grab_segment")],
 [("position", "offset of the next read"), ("cached segments", "decoded data per segment number, partial or whole")])
prop("C01", "Messages posted by the worker reach the console output, in order",
 "Every message handed to the observer thread before it is told to stop is delivered exactly once and in order, in every interleaving of the posting and printing threads; stopping always ends the thread.",
 ["schedules"],
 "all interleavings of the posting thread and the printing thread up to the message and preemption bound",
 "Tests run one schedule.",
 ["rescene/srr.py", M], [("observer", "rescene/srr.py:MessageThread; rescene/main.py:Observer, Subject")])
prop("P01", "A partial rebuild from volume parts equals the full data",
 "Volumes rebuilt one at a time or by selecting a single archive equal those of a full rebuild; asking for a set or folder rebuilds exactly that set. A selection is the exact end of a stored volume name or, with a closing *, its exact beginning; anything else selects nothing.",
 ["configurations"],
 "every selection over every layout up to the bound",
 "Tests always rebuild the whole SRR.",
 [M], [("selection", M+":reconstruct")])
prop("P02", "Compressed volumes are rebuilt with the RAR version that made them",
 "With a folder of RAR executables that has the version a compressed set was made with, a rebuild gives its volumes byte for byte: whichever other versions lie beside it, whatever thread count (within the range asked for), level and dictionary the set was made with, solid or not, in one archive or volumes, with stored and empty files and folders between the packed ones, renamed files found by hint or size, several sets in one SRR, single volumes of sets that aren't solid, and any number of rebuilds in one process. When no version there makes the data, or the data isn't the original, the rebuild ends with an error or a checksum report and never as if it were well. The source files are not changed and the temporary files are gone afterwards. Claimed where the packed data of a file doesn't depend on the files after it, and the size of the packed data tells versions apart for a file in one volume.",
 ["inputs", "configurations"],
 "every combination of set layout, volume size, version, thread count, level, dictionary, disk layout and call, up to a bound of departures from a plain set",
 "No test rebuilds a compressed set.",
 [M], [("search for the version", "rescene/main.py:CompressedRarFile, RarRepository, RarExecutable, RarArguments"), ("packed data in a rebuild", "rescene/main.py:compressed_rar_file_factory, CompressedRarFileAll, reconstruct")],
 [("archived_files", "the objects that hold the version found for each file")])
prop("K01", "Volumes made by the bundled RAR maker are valid and round-trip",
 "For every file size, volume size and combination of options, the bundled RAR maker writes valid RAR volumes of at most the asked size whose members concatenate to the input with the right checksums and recovery records, with the volume count, names, sizes and SFV file it announces (also in a dry run), and that rebuild byte for byte through an SRR. The settings read from a volume make the same volumes again. Settings that cannot work are refused, and its input files are never overwritten.",
 ["inputs", "configurations"],
 "every input size and volume size up to the bound, both naming schemes",
 "Tests compare one output.",
 ["rerar/rerar.py"], [("writer", "rerar/rerar.py")])
prop("K02", "A release folder gives one complete SRR",
 "Scanning a release folder creates one SRR that holds every volume the release's SFV files name and all its small files (info files, SFV files, sample SRS files, proofs) under their release-relative names, independent of directory listing order; a second run skips or overwrites as asked, a stopped run leaves no partial SRR behind, and the release folder is never written to.",
 ["inputs", "configurations", "schedules"],
 "every release tree from a component alphabet up to the bound times every listing order",
 "Tests cover helper functions only.",
 ["bin/pyrescene.py"], [("release scan", "bin/pyrescene.py:generate_srr")])

prop("X01", "Emptying a temporary folder removes all that is in it and nothing else",
 "Emptying a folder, as the tools do with their temporary folders between releases, leaves it there without contents; removing a folder removes it as well. Whatever lies in the folder (files, read-only files, folders at any depth, links to files or folders, dangling links, odd names), nothing outside of it is removed or changed: a link is removed itself and never followed. This holds in the normal way and when the standard removal of a folder fails.",
 ["inputs", "fault_sequences"],
 "every set of entries of every kind at every place up to a bound, both functions, both ways of removal, every odd name and form of the path",
 "No test has a link, or a removal that fails.",
 ["rescene/utility.py"], [("cleaning up", "rescene/utility.py:empty_folder, remove_folder")])
prop("B01", "The batch tools act on every file they are pointed at, and on nothing else",
 "The tools in bin that work on many files or list them do so for each file in question: srs_batch makes in the output folder the SRS of every video of a release folder in its place there and leaves a .txt for each that is no good, keeping existing SRS files with -n; srr_sort lists (or moves with -o, never over another file) exactly the SRR files with the property asked for: compressed, no RAR data, two NFOs, the same file twice, images (without proof), no stored files, several packed files, no SFV, no NFO, TXT files, repacks, upper case volumes, sizes; srr_extract_srs puts exactly the stored SRS files in the folder given; srr_merge joins its inputs in order in the file named; srs_size and srs_bad list exactly the SRS files above the size, and the SRR files with unchecked samples or failure texts. For srs_batch and srr_sort a file that is no good stops none of the others. Nothing else on disk changes.",
 ["inputs", "configurations"],
 "every folder tree, list of stored files and kind of volume set up to a bound, times every option",
 "No test runs these tools.",
 ["bin/srs_batch.py", "bin/srr_sort.py", "bin/srr_extract_srs.py", "bin/srr_merge.py", "bin/srs_size.py", "bin/srs_bad.py"],
 [("SRS files of a folder", "bin/srs_batch.py:main, create_srs"), ("listing and moving", "bin/srr_sort.py:check, main"), ("others", "bin/srr_extract_srs.py, bin/srr_merge.py, bin/srs_size.py, bin/srs_bad.py")])

prop("P03", "RAR executables are taken out of their installers under date and version",
 "bin/preprardir.py makes the folder of RAR versions that the rebuilding of compressed volumes works with: for every installer in the input folder (self extracting .exe and .sfx files and .tar.gz files of RAR 2.00 and up; beta versions only with -b) the output folder gets its RAR executable, byte for byte, as YYYY-MM-DD_rarVERSION with .exe for a Windows one, an executable file for a .tar.gz one, whatever the order in which the folder is listed. A file that isn't such an installer, has no RAR in it or is damaged gives nothing and does not stop the others. The registration key of the user is copied along when there is one. Nothing else in the output folder, and nothing outside it, changes, and running it again gives the same folder.",
 ["inputs", "configurations"],
 "every folder of a few out of thirty installers and other files, in both listing orders, with every option",
 "No test runs this tool.",
 ["bin/preprardir.py", "rescene/unrar.py", "rescene/rar.py"],
 [("versions", "bin/preprardir.py:versiontag, extract_rarbin"), ("date and name in the installer", "bin/preprardir.py:get_rar_date_name"), ("key", "bin/preprardir.py:copy_license_file")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
