"""Writes known_findings.json: one entry per genuine defect found (open or fixed)."""
import json
import os
import subprocess
here = os.path.dirname(os.path.abspath(__file__))

FIXED = [
	# property, commit subject start, what failed
	("R01", "fix: reopen the stored file", "two RAR sets with a member of the same name: the second set was rebuilt with data from the first one's open file"),
	("R11", "fix: calculate ISDb hashes", "SFV names differing in case from the files: no OpenSubtitles hash was stored"),
	("R03", "fix: keep the recovery data", "editing an SRR made by an old version dropped or misplaced its recovery record data"),
	("R10", "fix: recovery block before", "a recovery block before any SRR RAR file block raised AttributeError"),
	("R04", "fix: edits of an SRR replace", "a crash between unlink and rename lost the SRR, and failing edits left the temporary file"),
	("R05", "fix: failing SRR creation", "failing creation left a partial SRR; the srr tool deleted the user's existing SRR after a failed creation; parse errors were masked by AttributeError"),
	("R05", "fix: refuse RAR blocks", "a volume truncated inside comment or other extra block data was accepted and gave an unreadable SRR"),
	("R05", "fix: never delete the file", "replacing a file removed it first: a failing rename lost both files"),
	("R07", "fix: RarStream without a file name", "without a file name the stream was a mix of the first files of every volume"),
	("R07", "fix: RarStream stopped reading", "a first volume part without data ended every read with no data"),
	("R08", "fix: sort SFV entries", "SFV entries with mixed casing, or with other files between .r00 and .rar, sorted out of archive order and kept duplicates"),
	("R13", "fix: next volume after X.RAR", "sets with upper case extensions lost all volumes after the first on case sensitive file systems"),
	("R13", "fix: first_rars skipped .000", "listings with several .000 sets gave wrong first volumes depending on the order"),
	("R09", "fix: info() mixed up", "volumes with the same name in different folders, and packed files with the same name in two sets, overwrote each other in the report and the fingerprint"),
	("R10", "fix: RAR file names flagged", "UTF-8 names (unicode flag without a zero byte) were decoded to garbage or raised IndexError"),
	("R10", "fix: details of RAR files", "printing the details of archives with padding or a salt failed"),
	("R10", "fix: damaged RAR and SRR", "damaged blocks raised struct.error, IndexError or MemoryError; cut off recovery data went unnoticed"),
	("R12", "fix: crc32_combine through zlib", "combining through zlib gave negative values and wrong checksums for lengths of 2 GiB and more"),
	("P01", "fix: rebuilding single volumes", "rebuilding single volumes or a subset used stale or wrong offsets: wrong data, AssertionError, or false checksum alarms"),
	("V01", "fix: verification passed wrong", "files with a CRC32 of 0 were skipped, size differences not seen, folders and dangling links raised errors, extensions used as patterns"),
	("S01", "fix: AVI samples with a stream", "rebuilding stopped with an error when the sample lists a stream without any data or the movie has more streams"),
	("S01", "fix: sample signatures that overlap", "the search restarted at the current chunk only: a unique match that begins inside a broken-off partial match was missed"),
	("S01", "fix: AVI stream data was taken", "stream data before the match that reads as a FourCC was parsed as a chunk: error 99"),
	("S03", "fix: SRS records of large track numbers", "track numbers of 65536 and up were written in four bytes without the flag that says so"),
	("S02", "fix: Matroska unsigned integer elements", "track numbers from 128 on and other unsigned integers lost their highest bits: header stripping and codec went to the wrong track"),
	("S02", "fix: frame sizes of Matroska laces", "laces with a single frame were read with a wrong frame size"),
	("S02", "fix: Matroska blocks of tracks", "KeyError for blocks of which the track isn't in the track list"),
	("S02", "fix: Matroska sample tracks weren't found", "samples with frames shorter than the stripped header, with other stripping than the movie, or with a signature overlapping a match that breaks off were not found"),
	("S08", "fix: reporting a corruption", "TypeError instead of the error message and exit code"),
	("S02", "fix: Matroska samples with two attachments", "the second attachment with the same name was replaced by nothing"),
	("S02", "fix: Matroska frames of which", "empty stripped frames at the start of the sample were not extracted"),
	("S02", "fix: Matroska attachments after", "attachments after the clusters of the movie were not found: KeyError"),
	("S02", "fix: Matroska samples with a track of only", "KeyError when a track of the sample has no data and the sample was checked with -c"),
	("S02", "fix: the first attempt of a sample", "a temporary file stayed behind when other match offsets are tried"),
	("S03", "fix: MP4 tracks with a version 1", "the track number was read from the modification time: creation refused or wrong tracks"),
	("S03", "fix: compact MP4 sample size", "stz2 boxes were taken for a fixed sample size: samples refused and movies not matched"),
	("S03", "fix: MP4 samples with more mdat", "all stream data was written in each mdat atom; chunks that are not in file order were mixed up"),
	("S03", "fix: MP4 samples with a track without", "IndexError or KeyError when a track has no data"),
	("S04", "fix: WMV streams with a number above 15", "a WMV sample with stream numbers above 15 that agree in the low four bits was refused as corrupt"),
	("S04", "fix: WMV sample tracks weren't found", "a WMV sample was not found when part of its signature came earlier in the stream, or the main movie had a stream the sample lacks"),
	("S04", "fix: WMV samples with a stream without data", "a WMV sample with a stream of only empty payloads could not be rebuilt"),
	("S04", "fix: the rest of a WMV sample was read from the wrong place", "a WMV sample of which the packet headers happened to end one packet length after another packet could not be rebuilt"),
	("S05", "fix: only the audio that was in the FLAC sample", "a FLAC file could not be rebuilt from a copy with an APE or Lyrics3 tag at its end"),
	("S05", "fix: FLAC files with ID3 tags could not be rebuilt", "a FLAC file with ID3v2 or ID3v1 tag, or a fourth metadata block of a reserved type, could not be rebuilt"),
	("S05", "fix: small FLAC files could not be read", "a FLAC file smaller than 128 bytes was refused"),
	("S06", "fix: small MP3 files could not be read", "an MP3 file smaller than 128 bytes was refused"),
	("S06", "fix: MP3 files with a Lyrics3 v1 tag", "an MP3 file with a Lyrics3 v1 tag could not be rebuilt because its SRS is smaller than 5100 bytes"),
	("S06", "fix: the Lyrics3 v1 tag of an MP3 file starts at the last begin mark", "music data was taken for lyrics when it holds the text LYRICSBEGIN"),
	("S06", "fix: an APEv2 tag without header", "an MP3 file could not be rebuilt from a copy with an APEv2 tag without header"),
	("S06", "fix: MP3 SRS data that looks like a tag", "an MP3 SRS of which the signature or fingerprint holds a tag mark at the right place was unusable"),
	("S06", "fix: text after the music data was seen as an ID3v2 tag", "a small MP3 file with ID3 in a trailing tag and data between its ID3v2 tags was misread"),
	("S06", "fix: MP3 data after padding in the main file", "an MP3 file could not be rebuilt from a copy with padding before the music data"),
	("S06", "fix: RIFF MP3 files with an upper case extension", "a RIFF MP3 file named .MP3 could not be rebuilt"),
	("S08", "fix: WMV files with an object without size", "an SRS of a WMV sample with a changed object size was read forever"),
	("S08", "fix: damaged MP4 sample tables", "a changed byte in an SRS of an MP4 sample took all memory"),
	("S08", "fix: a rebuilt sample of another size", "success was reported for a file of another size than the SRS records"),
	("S08", "fix: a failed sample rebuild deleted", "a failed rebuild deleted the existing sample"),
	("S08", "fix: the name in an SRS file", "a file name with folders in an SRS led outside the output folder"),
	("S08", "fix: the sample tool left temporary", "temporary files were left after refused or failed runs"),
	("S09", "fix: EBML sizes of 2^49", "An EBML size of 2^49 or more was refused by the size writer although the reader decodes it"),
	("S10", "fix: attachments without a name of their own in Matroska samples", "mkv: an attachment whose name element is damaged crashed profiling (list index) or lost the attachment"),
	("S10", "fix: SRS files without any SRS record were made for damaged samples", "avi/wmv/mp4/mkv: exit 0 with an SRS that holds no SRS record at all when the structure to put them in is damaged"),
	("S10", "fix: Matroska samples with damaged lacing or sizes gave unusable SRS files", "mkv: block sizes or lacing that don't fit gave an SRS that can't be rebuilt"),
	("S10", "fix: damaged MP4 samples gave SRS files that can't be rebuilt", "mp4: tables with too few chunks, chunks outside the file, or atoms that don't fit gave exit 0"),
	("S10", "fix: FLAC files with bad last block flags gave SRS files that can't be rebuilt", "flac: a changed last-block flag gave exit 0 and an SRS that can't be rebuilt"),
	("S10", "fix: damaged samples ended in unexpected errors instead of a refusal", "all kinds: struct.error, IndexError, MemoryError (exit 99) for damaged samples"),
	("S11", "fix: MP4 main movies in RAR volumes could not be searched", "mp4: checking against or rebuilding from RAR volumes never finds the tracks, and reads the wrong member when another one comes first"),
	("S11", "fix: music files in RAR volumes were not recognized", "tagged FLAC/MP3 and RIFF MP3 files in RAR volumes (exit 99/6), and upper case extensions in archives with other members"),
	("C01", "fix: messages posted while others are printed could get lost", "a message posted between the end of the printing loop and its clearing was lost"),
	("K02", "fix: samples with the same name got one SRS file, depending on the order of the directory listing", "samples with the same name got one SRS file, depending on the order of the directory listing"),
	("K02", "fix: music tracks with the same name on each disc lost their SRS files", "music tracks with the same name on each disc lost their SRS files"),
	("K02", "fix: 8 byte info files were skipped when their name is a part of no.nfo", "8 byte info files were skipped when their name is a part of no.nfo"),
	("K02", "fix: a file could be mistaken for another that only differs in capitals", "a file could be mistaken for another that only differs in capitals"),
	("K02", "fix: a .vob sample without SRS file aborted the creation of the SRR", "a .vob sample without SRS file aborted the creation of the SRR"),
	("K02", "fix: no SRR file was made of a RAR volume with .VOB in capitals", "no SRR file was made of a RAR volume with .VOB in capitals"),
	("K02", "fix: a file that is skipped for two reasons aborted the creation of the SRR", "a file that is skipped for two reasons aborted the creation of the SRR"),
	("K02", "fix: --skip was ignored when --skip-list is used too", "--skip was ignored when --skip-list is used too"),
	("K02", "fix: releases were skipped in a folder that starts with the name of an other release", "releases were skipped in a folder that starts with the name of an other release"),
	("K02", "fix: vobsub SRR creation was not skipped but aborted without unrar", "vobsub SRR creation was not skipped but aborted without unrar"),
	("K02", "fix: samples could not be verified when the SFV has other capitals than the files", "samples could not be verified when the SFV has other capitals than the files"),
	("K02", "fix: no SRR was made for vobsubs when the SFV has other capitals than the files", "no SRR was made for vobsubs when the SFV has other capitals than the files"),
	("K02", "fix: the location of the release folder decided which images and videos are stored", "the location of the release folder decided which images and videos are stored"),
	("K02", "fix: stopping the release tool left a partial SRR file in the output folder", "stopping the release tool left a partial SRR file in the output folder"),
	("K02", "fix: Ctrl+C was ignored while an SRR file was made of a .vob sample", "Ctrl+C was ignored while an SRR file was made of a .vob sample"),
	("K01", "fix: the RAR maker failed on files that fit in one volume and numbered 10, 100,... volumes with too few digits", "the RAR maker failed on files that fit in one volume and numbered 10, 100,... volumes with too few digits"),
	("K01", "fix: the RAR maker wrote without end when the volumes are too small for any data", "the RAR maker wrote without end when the volumes are too small for any data"),
	("K01", "fix: the RAR maker made no volume for an empty file", "the RAR maker made no volume for an empty file"),
	("K01", "fix: the RAR maker named the volume after .s99 .s100", "the RAR maker named the volume after .s99 .s100"),
	("K01", "fix: no recovery records could be made with current versions of numpy", "no recovery records could be made with current versions of numpy"),
	("K01", "fix: no reference file of the RAR maker had the expected blocks", "no reference file of the RAR maker had the expected blocks"),
	("K01", "fix: the RAR maker named volumes after a reference file .part1.part1.rar and ignored the given base name", "the RAR maker named volumes after a reference file .part1.part1.rar and ignored the given base name"),
	("K01", "fix: the RAR maker announced a release size without the SFV header", "the RAR maker announced a release size without the SFV header"),
	("K01", "fix: the RAR maker stored some times 100 nanoseconds too early", "the RAR maker stored some times 100 nanoseconds too early"),
	("K01", "fix: the RAR maker overwrote its data or reference file when a volume has the same name", "the RAR maker overwrote its data or reference file when a volume has the same name"),
	("U02", "fix: yEnc lines that start with two dots lost one of them", "yEnc lines that start with two dots lost one of them"),
	("U02", "fix: only eight escaped characters of yEnc data were decoded", "only eight escaped characters of yEnc data were decoded"),
	("U02", "fix: yEnc files with part= or total= in their name could not be decoded", "yEnc files with part= or total= in their name could not be decoded"),
	("U02", "fix: short articles without yEnc data failed on an IndexError", "short articles without yEnc data failed on an IndexError"),
	("U02", "fix: articles with a damaged yEnc header were returned undecoded or failed on a KeyError", "articles with a damaged yEnc header were returned undecoded or failed on a KeyError"),
	("U02", "fix: damaged part numbers and offsets of yEnc articles were not noticed", "damaged part numbers and offsets of yEnc articles were not noticed"),
	("U03", "fix: read_nzb failed on &ouml; in UTF-8 NZB files", "read_nzb failed on &ouml; in UTF-8 NZB files"),
	("U03", "fix: read_nzb failed on empty NZB files", "read_nzb failed on empty NZB files"),
	("U03", "fix: read_nzb failed on a double closing tag without newline at the end", "read_nzb failed on a double closing tag without newline at the end"),
	("U03", "fix: NZB dates could shift by an hour when the clock was set back", "NZB dates could shift by an hour when the clock was set back"),
	("U03", "fix: merging NZB files lost the first one: it was emptied and not written", "merging NZB files lost the first one: it was emptied and not written"),
	("U03", "fix: nzb_merge only worked from within the directory to process", "nzb_merge only worked from within the directory to process"),
	("U03", "fix: nzb_split failed on Python 3 and lost files of releases that aren't together", "nzb_split failed on Python 3 and lost files of releases that aren't together"),
	("U03", "fix: nzb_sample_extract wrote empty NZB files on Python 3", "nzb_sample_extract wrote empty NZB files on Python 3"),
	("U03", "fix: nzb_sample_extract replaced its input when that is in the output directory", "nzb_sample_extract replaced its input when that is in the output directory"),
	("U03", "fix: nzb_rename replaced NZB files that got the same name", "nzb_rename replaced NZB files that got the same name"),
	("U03", "fix: nzb_rename did not create its folders when the first one existed", "nzb_rename did not create its folders when the first one existed"),
	("U03", "fix: nzb_age replaced NZB files with the same name", "nzb_age replaced NZB files with the same name"),
	("U03", "fix: read_nzb changed upper case hexadecimal character references in files it repairs", "read_nzb changed upper case hexadecimal character references in files it repairs"),
	("U03", "fix: the expat NZB parser returned incomplete message ids and groups", "the expat NZB parser returned incomplete message ids and groups"),
	("U03", "fix: the expat NZB parser accepted truncated NZB files", "the expat NZB parser accepted truncated NZB files"),
	("U03", "fix: read_nzb lost &ouml; when lxml isn't installed", "read_nzb lost &ouml; when lxml isn't installed"),
	("U04", "fix: posts with parts of different sizes were read wrongly", "posts with parts of different sizes were read wrongly"),
	("U04", "fix: a damaged start of an article was not retried on the other servers", "a damaged start of an article was not retried on the other servers"),
	("U04", "fix: reading over more than one segment of a posted RAR lost data", "reading over more than one segment of a posted RAR lost data"),
	("U04", "fix: reading a posted RAR failed when the article has no Lines header", "reading a posted RAR failed when the article has no Lines header"),
	("U04", "fix: segments of other files were accepted as the data of a posted file", "segments of other files were accepted as the data of a posted file"),
	("U04", "fix: data of posted files that are no RARs wasn't always checked for damage", "data of posted files that are no RARs wasn't always checked for damage"),
	("U04", "fix: a posted file missed data when a segment was only partly downloaded by an earlier read", "a posted file missed data when a segment was only partly downloaded by an earlier read"),
	("U04", "fix: reading a posted file past its end failed instead of returning what there is", "reading a posted file past its end failed instead of returning what there is"),
	("U01", "fix: a connection lost after creating the SRR was reported as a failure", "a connection lost after creating the SRR was reported as a failure"),
	("U01", "fix: a failed SRR creation from Usenet destroyed an existing SRR", "a failed SRR creation from Usenet destroyed an existing SRR"),
	("U01", "fix: the other servers weren't asked for the last article", "the other servers weren't asked for the last article"),
	("U01", "fix: endless loop when data is missing at the end of a posted RAR", "endless loop when data is missing at the end of a posted RAR"),
	("U01", "fix: articles weren't taken from the other servers when the connection to the first one broke", "articles weren't taken from the other servers when the connection to the first one broke"),
	("U01", "fix: damaged RAR headers were accepted from Usenet", "damaged RAR headers were accepted from Usenet"),
	("R03", "fix: an edited SRR file lost its", "the rewritten SRR file had the permissions of a temporary file (0600) instead of its own"),
	("R04", "fix: merging SRR files into one of them", "merge_srrs with an input file as the output opened it for writing before reading it"),
	("R03", "fix: files outside the input folder", "add_stored_files stored '../x' or the absolute path for a file outside the input folder"),
	("R03", "fix: the same name was stored twice", "add_stored_files compared the paths given, not the names stored"),
	("K02", "fix: an SRR was made for a proof archive", "PROOF/GRP-PROOF.RAR, stored itself, got a vobsub SRR too (the lower case one did not)"),
	("R15", "fix: creating an SRR changed the list of the caller", "create_srr with an SFV file appended to the caller's store_files list (a second call stored files twice); an SFV file given relative to the current folder while the base folder is another one was silently not stored"),
	("R15", "fix: a volume of two input files was put in the SRR twice", "an SFV file given twice, or with its first volume, put every volume in the SRR twice"),
	("R15", "fix: volumes outside the base folder", "volumes outside the base folder with kept paths got names with '..'"),
	("R15", "fix: starting from a later .partNN.rar", "creating an SRR from grp.part2.rar silently left out the first volume instead of the documented refusal"),
	("R15", "fix: the wildcards for files to store", "srr -s '*.nfo' (documented) stored nothing when creating or adding"),
	("R15", "fix: srr -d made a file without a name", "srr -d -i folder/ made '.srr' and -i . made '..srr'"),
	("T01", "fix: retag stopped at the first SRS", "retag of an SRR with the SRS of a video sample ended with FileNotFoundError before the other tracks"),
	("T01", "fix: retag always ended with an error code", "retag ended with exit code 1 whatever happened"),
	("T01", "fix: retag left tracks out when", "tracks of which the SRS is named .SRS were skipped and the SRS files left behind; X.SRR was refused"),
	("T01", "fix: retag mixed up tracks", "01-a.srs and CD1/01-a.srs: the wrong track or none was restored, SRS files stayed behind"),
	("T01", "fix: retag -n still asked", "with --always-no an existing track led to a question"),
	("P01", "fix: rebuild one volume: no checksum warning", "a single volume holding only the empty rest of a packed file gave a false checksum mismatch"),
	("S12", "fix: srs -o with a bare file name", "srs -o with a file name without a folder was refused"),
	("R16", "fix: srr took an SRR file with an upper case", "an SRR file with an upper case extension was not recognized"),
	("B01", "fix: srs_batch -n", "srs_batch -n never made any SRS file"),
	("B01", "fix: srr_sort -t", "srr_sort -t never found SRR files with two NFO files"),
	("B01", "fix: srr_sort missed images", "srr_sort missed .jpeg, upper case images and images stored after a proof"),
	("B01", "fix: srr_sort -o overwrote", "srr_sort -o moved an SRR file over another with the same name"),
	("B01", "fix: srr_sort found nothing in folders", "srr_sort found nothing in folders with brackets or files with upper case extensions"),
	("B01", "fix: srr_sort -m failed", "srr_sort -m stopped on numbered volumes"),
	("B01", "fix: srr_extract_srs left out", "srr_extract_srs left out SRS files with an upper case extension"),
	("X01", "fix: emptying a folder with a link", "emptying a folder with a link to a folder emptied the folder linked to"),
	("P02", "fix: files of solid compressed sets", "the packed data of a solid set's further files was compared with the size of its first part and taken by the name of the next file"),
	("P02", "fix: sets made by RAR 2.0", "UnboundLocalError when rebuilding a set made by RAR 2.0"),
	("P02", "fix: the packed data of a renamed file", "a renamed file with other files before it in the temporary archive got the wrong data"),
	("P02", "fix: rebuilding a solid compressed set left", "an empty temporary folder stayed behind for each file of a solid set"),
	("P02", "fix: volumes made by RAR 2.0", "every volume of a RAR 2.0 set was reported as damaged"),
	("P02", "fix: volumes that begin inside a compressed", "asking for a volume that begins inside a compressed file ended in RarNotFound"),
	("P02", "fix: a compressed file with the name of one", "a compressed file with the name of one in another set got that file's (closed) data"),
	("P02", "fix: a second rebuild of compressed files", "a second rebuild in one process used closed objects and removed folders of the first"),
	("P02", "fix: with all files packed at once", "after packing all files of one set at once, the files of the next set were looked up in that archive"),
	("P02", "fix: packing all files at once failed", "AttributeError for renamed files when all files are packed at once"),
	("P02", "fix: a failed rebuild of a solid set", "a failed rebuild of a solid set left its temporary folder behind"),
	("B01", "fix: only the first of the SRS files with the same name was looked at", "of several SRS files with one name srs_bad judged the first only"),
	("B01", "fix: SRS and error files with capitals in their extension were not looked at", "srs_bad did not look at .SRS and .AVI.txt files"),
	("P03", "fix: one file that is no good RAR installer stopped the preparation of the others", "a damaged or RAR5 installer ended the preparation with a traceback"),
	("P03", "fix: preparing RAR versions replaced or moved the files of a rar folder in the output folder", "the files of a folder rar in the output folder were replaced, or the folder renamed"),
]
OPEN = [
]


def main():
	log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
	out = []
	for prop, subj, what in FIXED:
		hit = [l.split(" ", 1) for l in log if l.split(" ", 1)[1].startswith(subj)]
		assert hit, subj
		out.append({"property": prop, "status": "fixed", "commit": hit[0][0], "what": what,
			"line": "fixed: property=%s %s %s" % (prop, hit[0][0], what)})
	for prop, key, what in OPEN:
		out.append({"property": prop, "status": "open", "key": key, "what": what})
	with open(os.path.join(here, "..", "known_findings.json"), "w") as f:
		json.dump({"findings": out}, f, indent=1)
		f.write("\n")


if __name__ == "__main__":
	main()
