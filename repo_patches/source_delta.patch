From 678a5bb68ffcad6d8f07d6856c1713d422ed1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 001/172] fix: reopen the stored file when an other RAR set has
 a member with the same name

---
 rescene/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..13fb5cf 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1315,7 +1315,10 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
+			# (an other set can have a stored file with the same name)
 			if (source_name != block.file_name
+				or (block.compression_method == COMPR_STORING and
+				    not block.flags & block.SPLIT_BEFORE)
 				or (partial_reconstruction and not partial_set)
 				or (partial_set and source_name != block.file_name)):
 				try: srcfs.close()
-- 
2.43.0


From bb2aa89df74f212e1f33d17ebbb8fb6c1986bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 002/172] fix: calculate ISDb hashes when the SFV casing
 differs from the files on disk

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 13fb5cf..7c0ef56 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -554,7 +554,7 @@ def create_srr(srr_name, infiles, in_folder="",
 							           "compression method: %s" % rarfile)
 					else:
 						# store first RAR where we encounter the stored file
-						oso_dict.setdefault(block.os_file_name(), rarfile)
+						oso_dict.setdefault(block.os_file_name(), rfexact)
 				elif _is_recovery(block):
 					_fire(MsgCode.RBLOCK, message="RAR Recovery Block",
 						  packed_size=block.packed_size,
-- 
2.43.0


From 0b7b20486265da0154e518e9383a4d95ebd501eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 003/172] fix: keep the recovery data of old SRR files when
 they are edited or rebuilt

---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..4209da7 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1574,7 +1574,7 @@ class RarReader(object):
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				block_buffer += self._rarstream.read(add_size)
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
-- 
2.43.0


From e94fc2b2ff36ab54726754abfcaf34f3c84c0cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 004/172] fix: recovery block before any SRR RAR file block
 raised AttributeError

---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 4209da7..c9a0f12 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1428,7 +1428,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
-- 
2.43.0


From 0421defdce8f50d9dab2db0bffcb77f9e62ab283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 005/172] fix: edits of an SRR replace it in one step and clean
 up after a failure

---
 rescene/main.py    | 29 +++++++++++++++++------------
 rescene/rar.py     | 24 +++++++++++++-----------
 rescene/utility.py | 10 ++++++++++
 3 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7c0ef56..704d55e 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,7 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn
+from rescene.utility import capitalized_fn, replace_file
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -237,6 +237,15 @@ def _extract(block, out_file):
 		      "Stored file %s already exists." % out_file)
 		return False
 
+def _discard(tmpfile, tmpname):
+	"""Closes and removes the temporary file of an edit that failed."""
+	try:
+		tmpfile.close()
+	except EnvironmentError: # disk full: the buffer can't be flushed
+		pass
+	if os.path.isfile(tmpname):
+		os.unlink(tmpname)
+
 def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 	                 usenet=False):
 	"""Add one or more files to a SRR reconstruction file.
@@ -325,20 +334,17 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
-		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
 #			os.remove(tmpname)
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
+		tmpfile.close()
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
+	except:
+		_discard(tmpfile, tmpname)
+		raise
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,11 +374,10 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
-		os.unlink(tmpname)
+		_discard(tmpfile, tmpname)
 		raise
 
 def rename_stored_file(srr_file, stored_name, new_name):
diff --git a/rescene/rar.py b/rescene/rar.py
index c9a0f12..0f76c4e 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -667,17 +667,19 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		# create a temporarily file
 		tmpfd, tmpname = tempfile.mkstemp(prefix="file_rename-", suffix=".srr", 
 		                                  dir=os.path.dirname(self.fname))
-		tmpfile = os.fdopen(tmpfd, "wb")
-		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
-			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+		try:
+			with os.fdopen(tmpfd, "wb") as tmpfile:
+				with open(self.fname, "rb") as f:
+					# previous block data
+					tmpfile.write(f.read(self.block_position))
+					tmpfile.write(self.block_bytes()) # new block header
+					f.seek(old_file_offset) # go to beginning stored file
+					tmpfile.write(f.read()) # read all data until EOF
+			utility.replace_file(tmpname, self.fname)
+		except:
+			if os.path.isfile(tmpname):
+				os.unlink(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..7da4e08 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -465,6 +465,16 @@ def create_temp_file_name(output_file):
 
 	return tmpfile
 
+def replace_file(src, dest):
+	"""Replaces the destination file with the source file in one step:
+	there is no moment without a destination file."""
+	try:
+		os.replace(src, dest)
+	except AttributeError:  # Python < 3.3
+		if os.name == "nt" and os.path.isfile(dest):
+			os.remove(dest)
+		os.rename(src, dest)
+
 def replace_result(src, dest):
 	"""Replaces the destination file with the source file.
 	Will not do anything when the source file doesn't exist.
-- 
2.43.0


From 3f92a77ce6f27ae59721b011eee23aab6acb0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 006/172] fix: failing SRR creation left a partial SRR or
 removed an existing one

create_srr and create_srr_single_volume remove their unfinished output on
every error. The srr tool removed the user's SRR file instead of its
temporary file. Parse errors of RAR files on disk are no longer hidden by
an AttributeError from the Usenet retry code.
---
 bin/pyrescene.py |  4 +---
 rescene/main.py  | 25 +++++++++++++------------
 rescene/srr.py   |  5 +++--
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..50a4851 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -903,9 +903,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 				pass
 			return False
 		except KeyboardInterrupt as e:
-			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
-				os.unlink(tmp_srr_name)
+			# rescene doesn't leave a partially finished file
 			raise
 		except FileNotFound as e:
 			# rescene doesn't leave a partially finished file
diff --git a/rescene/main.py b/rescene/main.py
index 704d55e..a1638e5 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -528,8 +528,6 @@ def create_srr(srr_name, infiles, in_folder="",
 				# all lower in sfv and casings in RAR file names
 				msg = "Referenced file not found: %s" % rfexact
 				_fire(code=MsgCode.FILE_NOT_FOUND, message=msg)
-				srr.close()	  
-				os.unlink(tmp_srr_name)
 				raise FileNotFound(msg)
 	
 			fname = os.path.relpath(rfcapitals, in_folder) if save_paths  \
@@ -553,8 +551,6 @@ def create_srr(srr_name, infiles, in_folder="",
 						_fire(MsgCode.COMPRESSION, 
 						      message="Don't delete 'em yet!")
 						if not compressed:
-							srr.close()
-							os.unlink(tmp_srr_name)
 							raise ValueError("Archive uses unsupported "
 							           "compression method: %s" % rarfile)
 					else:
@@ -585,10 +581,12 @@ def create_srr(srr_name, infiles, in_folder="",
 					srr.write(block.block_bytes())	
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# bad input file, disk full,...: never keep a partial SRR file
+		_discard(srr, tmp_srr_name)
+		raise
 		
 def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 	"""
@@ -624,8 +622,6 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# all lower in sfv and casings in RAR file names
 			msg = "Referenced file not found: %s" % infile
 			_fire(code=MsgCode.FILE_NOT_FOUND, message=msg)
-			srr.close()
-			os.unlink(tmp_srr_name)
 			raise FileNotFound(msg)
 		base = os.path.basename(infile)
 
@@ -639,10 +635,12 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# store the raw data for any blocks found
 			srr.write(block.block_bytes())
 				
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# bad input file, disk full,...: never keep a partial SRR file
+		_discard(srr, tmp_srr_name)
+		raise
 
 def _rarreader_usenet(rarfile, read_retries=7):
 	"""Tries redownloading data read_retries times if it fails.
@@ -669,6 +667,9 @@ def _rarreader_usenet(rarfile, read_retries=7):
 			import traceback
 			traceback.print_exc()
 		
+		if not hasattr(rarfile, "init_data"):
+			raise # broken file on disk: reading it again won't help
+
 		# reading from usenet fails somewhere
 		# keep redownloading
 		stop = 0
diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..1a01661 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -385,9 +385,10 @@ def create_srr(options, infolder, infiles, working_dir):
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
 
-		# make sure there is no broken SRR file/temporary file left
+		# make sure there is no broken temporary file left
+		# (srr_name can be a good SRR file from before)
 		try:
-			os.unlink(srr_name)
+			os.unlink(tmp_srr_name)
 		except:
 			pass
 		mthread.done = True
-- 
2.43.0


From e8f984aa0f7ba105accd17458d336dd1cd07b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 007/172] fix: refuse RAR blocks that have only a part of their
 data

A volume truncated inside e.g. comment data was accepted and gave an SRR
that can't be read back.
---
 rescene/rar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 0f76c4e..38275db 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1591,7 +1591,11 @@ class RarReader(object):
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
 				not is_recovery and add_size > 0:
-			block_buffer += self._rarstream.read(add_size)
+			block_data = self._rarstream.read(add_size)
+			if len(block_data) != add_size:
+				raise EnvironmentError("Unexpected end of file: block data "
+				        "missing at offset {0:#x}".format(block_start_position))
+			block_buffer += block_data
 
 		# If we're not returning the data, skip over it, 
 		# but only for RAR or SFX mode. 
-- 
2.43.0


From b62602afde5cfdc43f7bbb0ed9452ce669138c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 008/172] fix: never delete the file to replace before its
 replacement is in place

When the rename failed after the unlink, both files were gone.
---
 rescene/utility.py | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 7da4e08..c07d357 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -490,31 +490,11 @@ def replace_result(src, dest):
 	# it is possible a temporary source file was never created
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
-		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
-			try:
-				os.unlink(dest)
-			except OSError as delete_error:
-				print("Two processes are now trying to delete the same file!")
-				print(delete_error)
-				if _DEBUG:
-					print("  Destination: {0}".format(dest))
-# TODO: work in progress missing srs files					
-# 					assert False
-# 					
-# 		# wait 5 seconds for the file to disappear
-# 		for _ in range(0, 5):
-# 			if os.path.isfile(dest):
-# 				time.sleep(1)
-# 			else:
-# 				break
-# 		else:
-# 			print("Destination file still not deleted!")
-
+		# the previous file is replaced: user allowed to overwrite it
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			replace_file(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
-- 
2.43.0


From 322d29d8d63ce358d35f4f6bf2dc262289009df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 009/172] fix: RarStream without a file name mixed up the first
 files of all volumes

---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..3944ec4 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,6 +79,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			# no name given: the first file, not the first one of each volume
+			packed_file_name = self.packed_file_name
 			rar_file = utility.next_archive(rar_file, is_old)
 
 		try:
-- 
2.43.0


From 353f3856a01f56ac2b31bf1a15b4a626bea56087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 010/172] fix: RarStream stopped reading at a first volume
 without data of the file

---
 rescene/rarstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 3944ec4..2ac2ae7 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -251,8 +251,9 @@ class RarStream(io.IOBase):
 			self.seek(file_bytes_read, os.SEEK_CUR)
 
 			# we are at the end of the file to read
-			if file_bytes_read <= 0 or (size <= 0 and size_set)  \
-				or self._current_position >= self._packed_file_length:
+			# (a volume can have zero bytes of the file)
+			if ((size <= 0 and size_set)
+				or self._current_position >= self._packed_file_length):
 				break
 
 		return dbuffer
-- 
2.43.0


From b933ef164e367021fdeee025bded91c11a57a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 011/172] fix: sort SFV entries in archive order whatever their
 casing or neighbours

The comparison was not transitive with other files between .r00 and .rar and
case sensitive: RAR volumes got out of order and duplicates were not found.
---
 rescene/utility.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index c07d357..19a7b93 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -168,23 +168,15 @@ class SfvEntry(object):
 	def __lt__(self, other):
 		"""The sort routines are guaranteed to use __lt__ when making 
 		   comparisons between two objects."""
-		ext_self = self.file_name[-4:].lower()
-		ext_other = other.file_name[-4:].lower()
-		same_base = self.file_name[:-4].lower() == other.file_name[:-4].lower()
-
-		if same_base and ext_self != ext_other:
-			if ext_self == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_other)):
-					return True
-				else:
-					return self.file_name < other.file_name  # .rar < .r00
-			elif ext_other == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_self)):
-					return False
-				else:
-					return self.file_name < other.file_name  # .r00 > .rar
-		# .part1.rar < .part2.rar, r99 < s00, 001 < 002
-		return self.file_name < other.file_name
+		return self._sort_key() < other._sort_key()
+
+	def _sort_key(self):
+		"""Total order independent of the casing used:
+		.part1.rar < .part2.rar, .rar < .r00, r99 < s00, 001 < 002"""
+		key = self.file_name.lower()
+		if key.endswith(".rar"):
+			key = key[:-2]  # .r < .r00
+		return (key, self.crc32.lower(), self.file_name)
 
 	def __repr__(self):
 		return self.file_name + " " + self.crc32
-- 
2.43.0


From fb2b29940a553d9dfb96797eabfd23a155102c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 012/172] fix: next volume after X.RAR is X.R00: upper case
 sets lost all other volumes

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 19a7b93..56a6842 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -295,7 +295,8 @@ def next_archive(rfile, is_old=False):
 	if re.match(r".*\.part\d*.rar$", rfile, re.IGNORECASE) and not is_old:
 		return inc(rfile[:-4]) + rfile[-4:]
 	elif re.match(r".*\.rar$", rfile, re.IGNORECASE):
-		return rfile[:-4] + ".r00"
+		# keep the casing: other file systems than Windows' need it
+		return rfile[:-4] + (".R00" if rfile[-4:].isupper() else ".r00")
 	elif not is_rar(rfile):
 		raise AttributeError("The extension must be one form a RAR archive.")
 	else:
-- 
2.43.0


From a435d9a0f4a51892318d7204500e6b96427d8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 013/172] fix: first_rars skipped .000 sets by changing the
 list it iterated over

---
 rescene/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 56a6842..2881333 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -335,7 +335,7 @@ def first_rars(file_iter):
 
 	firsts = list(filter(is_first, input_files))
 	# .000? then no .001
-	for first in filter(lambda x: x.endswith(".000"), firsts):
+	for first in [x for x in firsts if x.endswith(".000")]:
 		try:
 			firsts.remove(first[:-1] + "1")
 		except ValueError:
-- 
2.43.0


From 4824d33dbb8099f33927d67b18016818e9876688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 014/172] fix: info() mixed up RAR sets with equal volume or
 packed file names

Volumes with the same name in different folders (CD1/a.rar, CD2/a.rar)
overwrote each other in the report and in the content hash. A packed file
with the same name in a second set got the size of the first and the CRC of
the last one.
---
 rescene/main.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index a1638e5..d331746 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -986,6 +986,9 @@ def info(srr_file):
 	current_rar = None      # for calculating file size
 	compression = False     # RAR compression on some files
 	oso_hashes = []
+	sfv_folders = {}        # id of the SFV entry -> folder of its SFV file
+	packed_files = {}       # packed name -> FileInfo in the current RAR set
+	split_files = set()     # packed names continued in the next volume
 
 	for block in RarReader(srr_file).read_all():
 		add_size = True
@@ -1006,6 +1009,9 @@ def info(srr_file):
 					sfvdata = sfv.read(block.file_size)
 				(entries, comments, errors) = parse_sfv_data(sfvdata)
 				sfv_entries.extend(entries)
+				folder = os.path.dirname(block.file_name)
+				for entry in entries:
+					sfv_folders[id(entry)] = folder
 				sfv_comments.extend(comments)
 				# TODO: let user know that there is a bad SFV
 				sfv_comments.extend(errors)
@@ -1016,6 +1022,10 @@ def info(srr_file):
 			current_rar = None # end the file size counting
 				
 			key = os.path.basename(block.file_name.lower())
+			if (key in rar_files and 
+				rar_files[key].file_name.lower() != block.file_name.lower()):
+				# same volume name in an other folder: CD1/a.rar and CD2/a.rar
+				key = block.file_name.lower()
 			current_rar = FileInfo()
 			current_rar.file_name = block.file_name
 			current_rar.file_size = 0
@@ -1024,9 +1034,15 @@ def info(srr_file):
 			                                block.header_size)
 			rar_files[key] = current_rar
 		elif block.rawtype == BlockType.RarPackedFile:
-			f = archived_files.get(block.unicode_filename)
-			if f is None:
+			f = packed_files.get(block.unicode_filename)
+			if f is None or (not block.flags & RarPackedFileBlock.SPLIT_BEFORE
+					and block.unicode_filename not in split_files):
 				f = FileInfo()
+				f.key = block.file_name
+				if f.key in archived_files and current_rar is not None:
+					# same name in an other RAR set
+					f.key = "%s/%s" % (current_rar.file_name, f.key)
+				packed_files[block.unicode_filename] = f
 				f.file_name = block.file_name
 				if (block.unpacked_size != 0xffffffffffffffff and  # 1
 				    block.unpacked_size != 0xffffffff):  # 2
@@ -1052,7 +1068,11 @@ def info(srr_file):
 			# crc of the file is the crc stored in
 			# the last archive that has the file
 			f.crc32 = "%08X" % block.file_crc
-			archived_files[block.file_name] = f
+			if block.flags & RarPackedFileBlock.SPLIT_AFTER:
+				split_files.add(block.unicode_filename)
+			else:
+				split_files.discard(block.unicode_filename)
+			archived_files[f.key] = f
 			
 		# new-style Recovery Records
 		elif block.rawtype == BlockType.RarNewSub:
@@ -1120,10 +1140,18 @@ def info(srr_file):
 										  block.header_size)
 			rar_files[current_rar.key] = current_rar	
 	
+	rar_paths = dict((rar.file_name.lower(), rar) 
+	                 for rar in rar_files.values())
+
 	def add_info_to_rar(sfv_entry):
 		"""Add SFV crc32 hashes to the right RAR info block"""
-		key = os.path.basename(sfv_entry.file_name).lower()		  
-		rar = rar_files.get(key)
+		path = sfv_entry.file_name.replace("\\", "/")
+		folder = sfv_folders[id(sfv_entry)]
+		if folder:
+			path = folder + "/" + path
+		rar = rar_paths.get(path.lower())
+		if rar is None:
+			rar = rar_files.get(os.path.basename(path).lower())
 		if rar is not None:
 			rar.crc32 = sfv_entry.crc32.upper()
 			return True
@@ -1153,7 +1181,8 @@ def content_hash(srr_file, algorithm='sha1'):
 	with open(srr_file, 'rb') as sfile:
 		# sort based on file name without path
 		# the difference in capitals is ignored
-		for key in sorted(rar_files.keys()):
+		for key in sorted(rar_files.keys(), 
+				key=lambda k: (os.path.basename(k), rar_files[k].file_name.lower())):
 			start = rar_files[key].offset_start_rar
 			try:
 				end = rar_files[key].offset_end_rar
-- 
2.43.0


From c16946da8588fab7b509b801f84d79d752abb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 015/172] fix: RAR file names flagged as unicode without a zero
 byte are UTF-8

They were decoded as the compressed form: the name was garbage (or an
IndexError was raised) and the packed file could not be found on rebuild.
---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 38275db..9b55330 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1050,9 +1050,15 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null < 0: # no zero byte: the name itself is UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				self.unicode_filename = u.decode()
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From 53e66e54f0061876f9418f133a84fc33745f73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 016/172] fix: details of RAR files with padding or a salt
 could not be printed

Padding blocks had no position (AttributeError) and the salt was formatted
as a number (TypeError).
---
 rescene/rar.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 9b55330..73ed444 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -843,6 +843,8 @@ class SrrRarPaddingBlock(RarBlock):
 				self._rawdata[self._p:self._p+4])[0]
 			self._p += 4
 		elif padding_bytes != None:
+			self.block_position = filepos
+			self.fname = fname
 			self.crc = 0x6C6C
 			self.rawtype = 0x6C
 			self.flags = self.LONG_BLOCK
@@ -1098,7 +1100,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			out += "+HIGH_UNP_SIZE: %i\n" % self.high_unpack_size
 		out += "+FILE_NAME: %s\n" % self.file_name
 		if self.flags & self.SALT:
-			out += "+SALT: %X\n" % self.salt
+			out += "+SALT: %s\n" % hexlify(self.salt).decode('ascii').upper()
 		if self.flags & self.EXT_TIME:
 			out += "+modification time: %s\n" % self.ftime(self.mtime)
 			out += "+creation time: %s\n" % self.ftime(self.ctime)
@@ -1217,7 +1219,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 				"(Extended time field present)\n"
 		if self.flags & self.EXTFLAGS:
 			out += self.flag_format(self.EXTFLAGS) + "LHD_EXTFLAGS "  \
-				"(never used)\;"
+				"(never used)\n"
 		out += self.flag_format(self.flags & self.DIRECTORY) +  \
 				"LHD_WINDOW (" + self.get_dictionary() + ")\n"
 		return out
@@ -1502,7 +1504,8 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read())
+				return SrrRarPaddingBlock(filepos=block_start_position,
+					padding_bytes=self._rarstream.read())
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
 
@@ -1529,7 +1532,7 @@ class RarReader(object):
 		
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
-			return SrrRarPaddingBlock(
+			return SrrRarPaddingBlock(filepos=block_start_position,
 				padding_bytes=header_buffer + self._rarstream.read())
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
-- 
2.43.0


From f173c727e616f7fb4bb0f605823dedbda110bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 017/172] fix: damaged RAR and SRR blocks raised undocumented
 errors

struct.error, IndexError or MemoryError instead of EnvironmentError, and kept
recovery data that was cut off was not noticed.
---
 rescene/rar.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 73ed444..daa5ab3 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1544,8 +1544,14 @@ class RarReader(object):
 #			print("Header buffer: %s" % hexlify(header_buffer).decode('ascii'))
 			raise EnvironmentError("Invalid RAR block length (" + str(hsize) +\
 					") at offset {0:#x}".format(self._rarstream.tell() - 2))
+		elif hsize < HEADER_LENGTH + 4 and (flags & RarBlock.LONG_BLOCK or
+			btype in (BlockType.RarPackedFile, BlockType.RarNewSub)):
+			raise EnvironmentError("No room for the data size in the RAR "
+					"block at offset {0:#x}".format(block_start_position))
 		elif hsize == HEADER_LENGTH: # Marker block
 			if btype == BlockType.SrrHeader: # minimal block in C implementation
+				if flags & SrrHeaderBlock.SRR_APP_NAME_PRESENT:
+					raise EnvironmentError("Invalid SRR header block.")
 				return SrrHeaderBlock(header_buffer, block_start_position, 
 									  self._rarstream) 
 			if _DEBUG:
@@ -1585,7 +1591,8 @@ class RarReader(object):
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				block_buffer += self._rarstream.read(add_size)
+				block_buffer += self._read_data(add_size,
+				                                block_start_position)
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
@@ -1600,11 +1607,7 @@ class RarReader(object):
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
 				not is_recovery and add_size > 0:
-			block_data = self._rarstream.read(add_size)
-			if len(block_data) != add_size:
-				raise EnvironmentError("Unexpected end of file: block data "
-				        "missing at offset {0:#x}".format(block_start_position))
-			block_buffer += block_data
+			block_buffer += self._read_data(add_size, block_start_position)
 
 		# If we're not returning the data, skip over it, 
 		# but only for RAR or SFX mode. 
@@ -1617,8 +1620,12 @@ class RarReader(object):
 		# for releases such as Haven.S02E05.HDTV.XviD-P0W4:
 		# except for the header size field, everything in the rar
 		# archive end block are null bytes -> still create RarBlock
-		rar_block = BTYPES_CLASSES.get(btype, RarBlock)(block_buffer, 
-				block_start_position, self._rarstream.name)
+		try:
+			rar_block = BTYPES_CLASSES.get(btype, RarBlock)(block_buffer, 
+					block_start_position, self._rarstream.name)
+		except (struct.error, IndexError) as err: # fields don't fit
+			raise EnvironmentError("Invalid RAR block at offset {0:#x}: {1}"
+					.format(block_start_position, err))
 		
 		# for very large RAR files, skipping add_size isn't enough
 		if (btype == BlockType.RarPackedFile and 
@@ -1630,6 +1637,16 @@ class RarReader(object):
 		
 		return rar_block
 	
+	def _read_data(self, size, block_position):
+		"""Reads all data that must follow the header of a block."""
+		data = b""
+		if self._rarstream.tell() + size <= self._file_length:
+			data = self._rarstream.read(size)
+		if len(data) != size:
+			raise EnvironmentError("Unexpected end of file: block data "
+			        "missing at offset {0:#x}".format(block_position))
+		return data
+	
 	def read_all(self):
 		"""Parse the whole rar/srr file. The results are cached.
 		Closes the open file."""
-- 
2.43.0


From e78e4fcf4b611525b6795cb366af955217a7c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 018/172] fix: crc32_combine through zlib gave negative values
 and cut the length

Without argtypes and restype ctypes uses 32 bit signed integers.
---
 rescene/crc32combine.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rescene/crc32combine.py b/rescene/crc32combine.py
index 1405519..ddba4c3 100644
--- a/rescene/crc32combine.py
+++ b/rescene/crc32combine.py
@@ -37,6 +37,14 @@ except ImportError:
 	# not used within rescene, but the scripts
 	_DEBUG = True
 
+def _declare(zlib):
+	"""Tells ctypes about the unsigned checksums and the z_off_t length:
+	int is assumed otherwise and lengths would be cut to 32 bits."""
+	combine = zlib.crc32_combine
+	combine.argtypes = (ctypes.c_ulong, ctypes.c_ulong, ctypes.c_long)
+	combine.restype = ctypes.c_ulong
+	return combine
+
 def crc32_combine_function():
 	"""Returns function to zlib when possible.
 	Fallback to Python implementation."""
@@ -56,7 +64,7 @@ def crc32_combine_function():
 			print(libpath)
 		try:
 			zlib = ctypes.cdll.LoadLibrary(libpath)
-			return zlib.crc32_combine
+			return _declare(zlib)
 		except OSError:
 			# OSError: [WinError 193] %1 is not a valid Win32 application
 			# on C:\Program Files\Intel\WiFi\bin\zlib1.dll
@@ -77,7 +85,7 @@ def crc32_combine_ctypes(crc1, crc2, len2):
 
 	if libpath:
 		zlib = ctypes.cdll.LoadLibrary(libpath)
-		return zlib.crc32_combine(crc1, crc2, len2)
+		return _declare(zlib)(crc1, crc2, len2)
 	else:
 		raise RuntimeError("zlib not found")
 
-- 
2.43.0


From 7c85d43101fc4c3bcca894c2aae896538f1e9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 019/172] fix: rebuilding single volumes or a subset used wrong
 offsets

The offset in the extracted file was that of the first wanted volume of
an earlier file, skipped parts were not counted or the file was closed
too soon: wrong data, an assertion error or false CRC errors.
---
 rescene/main.py | 53 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d331746..f585ade 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1248,7 +1248,9 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		RarArguments.mt_settings = rar_mt
 	
 	skip_volume = False # helps to reconstruct a single volume
-	skip_offset = 0
+	packed_name = None # packed file of the previous block
+	packed_offset = 0  # where its next part starts
+	crc_offset = 0     # running_crc is of all source data up to here
 	partial_reconstruction = srr_part != "" and srr_part is not None
 	partial_set = False
 	
@@ -1327,15 +1329,15 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				rarfs.write(block.block_bytes())
 				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
+			# keep track of offsets in the packed file
+			if (packed_name != block.file_name
+				or not block.flags & block.SPLIT_BEFORE):
+				packed_name = block.file_name
+				packed_offset = 0
+			part_offset = packed_offset
+			packed_offset += block.packed_size
+			
 			if skip_volume:
-				# keep track of offsets in the packed file
-				if source_name != block.file_name:
-					skip_offset = block.packed_size
-				else:
-					skip_offset += block.packed_size
-				
-				source_name = block.file_name
-				running_crc = 0
 				continue
 
 			# This is the main RAR block and treat it differently.
@@ -1351,15 +1353,15 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
 			# (an other set can have a stored file with the same name)
-			if (source_name != block.file_name
+			if (srcfs is None
+				or source_name != block.file_name
 				or (block.compression_method == COMPR_STORING and
 				    not block.flags & block.SPLIT_BEFORE)
-				or (partial_reconstruction and not partial_set)
-				or (partial_set and source_name != block.file_name)):
+				or (partial_reconstruction and not partial_set)):
 				try: srcfs.close()
 				except: pass
 				source_name = block.file_name
-				running_crc = 0
+				running_crc = crc_offset = 0
 				try:
 					# block is a directory: make it not crash
 					if block.flags & block.DIRECTORY == block.DIRECTORY:
@@ -1391,8 +1393,17 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			assert srcfs
 			
 			# make sure the offset is correct
-			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
+			if partial_reconstruction and block.packed_size > 0:
+				if crc_offset != part_offset:
+					if (skip_rar_crc or block.is_compressed()
+						or block.flags & block.SPLIT_AFTER):
+						crc_offset = -1 # not needed: don't read everything
+					else: # the file CRC is also of the parts left out
+						running_crc = _crc32_start(srcfs, part_offset)
+						crc_offset = part_offset
+				srcfs.seek(part_offset)
+				if crc_offset >= 0:
+					crc_offset += block.packed_size
 			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
@@ -1543,6 +1554,18 @@ def _auto_locate_renamed(name, size, in_folder):
 				return f
 	return ""
 		
+def _crc32_start(stream, size):
+	"""Calculates the CRC32 of the first size bytes of the stream."""
+	crc = 0
+	stream.seek(0)
+	while size > 0:
+		data = stream.read(min(size, 0x10000))
+		if not data:
+			break
+		crc = zlib.crc32(data, crc)
+		size -= len(data)
+	return crc
+
 def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 	"""
 	Adds a file to the RAR archive.
-- 
2.43.0


From 647aacc09d56260e65ad1317c9e725354f0b8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 020/172] fix: verification passed wrong files or stopped with
 an error

Files with a CRC32 of 0 were not looked at, a size difference was not
seen, folders and dangling links raised errors and some extensions were
used as patterns.
---
 rescene/srr.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 1a01661..18c1f0b 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -33,7 +33,6 @@ import os
 import re
 import time
 import traceback
-import fnmatch
 from threading import Thread
 
 import rescene
@@ -166,19 +165,20 @@ def verify_extracted_files(srr, in_folder, auto_locate):
 		if os.sep == '/':
 			afile.file_name = afile.file_name.replace('\\', '/')
 		# skip the directories and empty files
-		if afile.crc32 != "00000000" and afile.crc32 != "0":
+		if (afile.crc32 != "00000000" and afile.crc32 != "0") or afile.file_size:
 			name = os.path.join(in_folder, afile.file_name)
-			if not os.path.exists(name):
+			if not os.path.isfile(name):
 				if not auto_locate:
 					print("File %s not found. Skipping." % afile.file_name)
 					status = 2
 				else:  # look for possible renames
 					same_size_list = []
 					for root, _dirnames, filenames in os.walk(in_folder):
-						for fn in fnmatch.filter(filenames,
-									"*" + os.path.splitext(name)[1]):
+						for fn in filenames:
 							f = os.path.join(root, fn)
-							if os.path.getsize(f) == afile.file_size:
+							if (fn.endswith(os.path.splitext(name)[1]) and
+								os.path.isfile(f) and
+								os.path.getsize(f) == afile.file_size):
 								same_size_list.append(f)
 					# TODO: see if we can use OSO hash here to speed things up
 					# it happens that multiple episodes have the same size
@@ -197,7 +197,9 @@ def verify_extracted_files(srr, in_folder, auto_locate):
 						status = 2
 			else:
 				crc = calculate_crc32(name)
-				if afile.crc32 == "%0.8X" % crc:
+				# 0xffffffff: the size isn't known
+				if afile.crc32 == "%0.8X" % crc and afile.file_size in (
+					os.path.getsize(name), 0xffffffff):
 					print("File OK: %s." % afile.file_name)
 				else:
 					print("File CORRUPT: %s!" % afile.file_name)
-- 
2.43.0


From e3d8cb8e0249184b72c6280710f2d6fe2f7f4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 021/172] fix: AVI samples with a stream that has no data could
 not be rebuilt

---
 resample/main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..f688f5f 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3406,8 +3406,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
@@ -3429,8 +3428,11 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 					if block_count % 15 == 0:
 						show_spinner(block_count)
 
-					track = tracks[rr.current_chunk.stream_number]
-					buff = track.track_file.read(rr.current_chunk.length)
+					# a stream without any data has nothing to restore
+					buff = b""
+					if rr.current_chunk.length:
+						track = tracks[rr.current_chunk.stream_number]
+						buff = track.track_file.read(rr.current_chunk.length)
 					sample.write(buff)
 					crc = crc32(buff, crc) & 0xFFFFFFFF
 					rr.skip_contents()
-- 
2.43.0


From 651137be3d51b404c73e0fb08b4415dd265780dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 022/172] fix: sample signatures that overlap with a match that
 breaks off were not found in AVI

---
 resample/main.py | 84 +++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 44 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index f688f5f..5f0d2cf 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -409,6 +409,7 @@ class TrackData(object):
 			self.signature_bytes = b""
 		self.match_length = 0
 		self.check_bytes = b""
+		self.matches = []  # signature matches in progress
 		self.track_file = None
 
 		# not serialized
@@ -436,6 +437,42 @@ class TrackData(object):
 	def __repr__(self, *args, **kwargs):
 		return self.__str__()
 
+	def search_signature(self, data, offset, at_start=False):
+		"""Looks for the signature in the next piece of this track's data.
+		The signature can be spread over any number of pieces. A match that
+		breaks off can overlap with the start of the right one, so all of the
+		matches in progress are remembered: the first one is shown.
+		data: the next piece of the track, located at offset in the main file
+		at_start: only the first byte of a piece can be the start"""
+		def add(match_offset, check_bytes, match_length):
+			if self.signature_bytes.startswith(check_bytes):
+				matches.append((match_offset, check_bytes, match_length))
+
+		matches = []
+		sig_length = len(self.signature_bytes)
+		for (match_offset, check_bytes, match_length) in self.matches:
+			add(match_offset,
+			    check_bytes + data[:sig_length - len(check_bytes)],
+			    match_length + len(data))
+
+		first_byte = self.signature_bytes[:1]
+		pos = data.find(first_byte, 0, 1 if at_start else len(data))
+		while pos > -1:
+			add(offset + pos, data[pos:pos + sig_length], len(data) - pos)
+			if at_start or (matches and len(matches[0][1]) == sig_length):
+				break
+			pos = data.find(first_byte, pos + 1)
+
+		self.matches = matches
+		if matches:
+			# a part of the track is found (or all of the signature)
+			(self.match_offset, self.check_bytes, match_length) = matches[0]
+			self.match_length = min(self.data_length, match_length)
+		else:
+			self.match_offset = 0
+			self.check_bytes = b""
+			self.match_length = 0
+
 	def serialize(self):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
@@ -2172,50 +2209,9 @@ def _avi_normal_chunk_find(tracks, rr, block_count, done):
 			# for all tracks in the main file. If that happens,
 			# we obviously don't want to try to match the data
 			if track.signature_bytes:
-				if (0 < len(track.check_bytes) < len(track.signature_bytes)):
-					lcb = min(len(track.signature_bytes),
-								rr.current_chunk.length +
-								len(track.check_bytes))
-					check_bytes = track.check_bytes
-					check_bytes += rr.read_contents()[:lcb -
-					                                  len(track.check_bytes)]
-
-					# track found!
-					if track.signature_bytes.startswith(check_bytes):
-						track.check_bytes = check_bytes
-					else:
-						# It was only a partial match. Start over.
-						track.check_bytes = b""
-						track.match_offset = 0
-						track.match_length = 0
-
-				# this is a bit weird, but if we had a false positive match
-				# going and discovered it above, we check this frame again
-				# to see if it's the start of a new match
-				# (probably will never happen with AVI,
-				# but it does in MKV, so just in case...)
-				if not track.check_bytes:
-					chunk_bytes = rr.read_contents()
-
-					search_byte = track.signature_bytes[0]
-					found_pos = chunk_bytes.find(search_byte, 0)
-
-					while found_pos > -1:
-						lcb = min(len(track.signature_bytes),
-									len(chunk_bytes) - found_pos)
-						check_bytes = chunk_bytes[found_pos:found_pos + lcb]
-
-						# track found!
-						if track.signature_bytes.startswith(check_bytes):
-							track.check_bytes = check_bytes
-							track.match_offset = (
-							                rr.current_chunk.chunk_start_pos
-							                + len(rr.current_chunk.raw_header)
-							                + found_pos)
-							track.match_length = min(track.data_length,
-							                     len(chunk_bytes) - found_pos)
-							break
-						found_pos = chunk_bytes.find(search_byte, found_pos + 1)
+				track.search_signature(rr.read_contents(),
+				                       rr.current_chunk.chunk_start_pos +
+				                       len(rr.current_chunk.raw_header))
 			else:
 				track.match_length = min(track.data_length
 				                         - track.match_length,
-- 
2.43.0


From 0810e422bf50b45310b4b017473f13d4ef428166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 023/172] fix: AVI stream data was taken for a chunk header

---
 resample/riff.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/resample/riff.py b/resample/riff.py
index 8f43846..748b6ad 100644
--- a/resample/riff.py
+++ b/resample/riff.py
@@ -128,10 +128,20 @@ class RiffReader(object):
 
 	def _is_valid_chunk_location(self, offset):
 		"""Checks whether a certain offset is a valid chunk location to
-		start processing from. Based on Four Character Code."""
+		start processing from. Based on Four Character Code and whether
+		there is something that looks like a chunk after this chunk."""
 		self._riff_stream.seek(offset, os.SEEK_SET)
-		fourcc = self._riff_stream.read(4)
-		return fourCCValidator.match(fourcc)
+		header = self._riff_stream.read(8)
+		if len(header) < 8 or not fourCCValidator.match(header[:4]):
+			return False
+
+		# stream data can look like a Four Character Code too
+		(length,) = S_LONG.unpack_from(header, 4)
+		next_offset = offset + 8 + length + length % 2
+		if next_offset + 8 > self._file_length:
+			return next_offset <= self._file_length
+		self._riff_stream.seek(next_offset, os.SEEK_SET)
+		return fourCCValidator.match(self._riff_stream.read(4)) is not None
 
 	def _find_chunk_offset(self, match_offset):
 		"""Finds the start offset of the chunk for the match_offset. It uses
-- 
2.43.0


From 3f38d53991b55750e5a37e86e18c18a72b37acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 024/172] fix: SRS records of large track numbers could not be
 read back

---
 resample/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 5f0d2cf..dcf5202 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -476,11 +476,13 @@ class TrackData(object):
 	def serialize(self):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
 
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if self.flags & self.BIG_TACK_NUMBER:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From 247e2d2de500ce1af7e4c25d643aefe1a51c598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 025/172] fix: Matroska unsigned integer elements lost their
 high bits

---
 resample/ebml.py |  8 ++++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..ce081e6 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,14 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetUInt(buff):
+	"""buff: contents of an unsigned integer element. No length descriptor:
+	all bits of the big endian bytes are part of the number."""
+	number = 0
+	for byte in bytearray(buff):
+		number = (number << 8) + byte
+	return number
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index dcf5202..90bbddf 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetUInt, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -799,7 +799,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -811,7 +811,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1142,7 +1142,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1162,7 +1162,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2266,7 +2266,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2279,7 +2279,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3118,7 +3118,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3131,7 +3131,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From ab04af9ef659137ae9c57a7898ab5b34a2f5ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 026/172] fix: frame sizes of Matroska laces with a single
 frame were wrong

---
 resample/ebml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index ce081e6..e582b89 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -127,7 +127,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		if lace_type == EbmlLaceType.NONE:
 			frame_sizes[i] = data_length
 		elif lace_type == EbmlLaceType.FIXED:
-			frame_sizes[i] = data_length // lace_frame_count
+			frame_sizes[i] = (data_length - 1) // lace_frame_count
 		elif lace_type == EbmlLaceType.XIPH:
 			if (i < lace_frame_count - 1):
 				nextByte = 0xFF
@@ -142,7 +142,9 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		else:  # EbmlLaceType.Ebml
 			bc = 0
 
-			if i == 0:
+			if lace_frame_count == 1:
+				frame_sizes[i] = data_length - bytes_consumed
+			elif i == 0:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
-- 
2.43.0


From e3e7d4be373770bfe7b8ad919615e4d0b6bfa93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 027/172] fix: Matroska blocks of tracks that aren't described
 yet stopped a rebuild

---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 90bbddf..2f425e5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3169,7 +3169,8 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 		# System.Collections.Generic.KeyNotFoundException on .NET version
 		er.skip_contents()
 		return done
-	track_main = tracks_main[er.current_element.track_number]
+	# blocks can come before their track description
+	track_main = tracks_main.get(er.current_element.track_number, TrackData())
 
 	# grab compression settings
 	sforsample = b""  # settings for the sample tracks
-- 
2.43.0


From cd0b2cc0617c0e8826906286c645c6878a738e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 028/172] fix: Matroska sample tracks weren't found with short
 or differently stripped frames

---
 resample/main.py | 121 ++++++++++++-----------------------------------
 1 file changed, 30 insertions(+), 91 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 2f425e5..6094595 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2293,6 +2293,15 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 	er.close()
 	return tracks
 
+def _mkv_sample_frame(frame, track, track_main):
+	"""Changes a frame of the main file to how it is stored in the sample:
+	the header bytes that are stripped can differ between both files."""
+	stripped_main = track_main.compression_settings or b""
+	stripped_sample = track.compression_settings or b""
+	if stripped_main == stripped_sample:
+		return frame
+	return (stripped_main + frame)[len(stripped_sample):]
+
 def _mkv_block_find(self, tracks, er, done, tracks_main):
 	# grab track or create new track
 	track_number = er.current_element.track_number
@@ -2304,18 +2313,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		tracks_main[track_number].track_number = track_number
 	track = tracks[track_number]
 	track2 = tracks_main[track_number]
-	sforsample = b""  # settings for the sample tracks
-	sformain = b""  # settings for main tracks
 	srs_cut_bug = track.track_number in self.cut_data
 
-	# keep track of the compression settings differences
-	if ((track.compression_settings or track2.compression_settings) and
-		(track.compression_settings != track2.compression_settings)):
-		if track.compression_settings:
-			sformain = track.compression_settings
-		if track2.compression_settings:
-			sforsample = track2.compression_settings
-
 	# it's possible the sample didn't require
 	# or contain data for all tracks in the main file
 	# if that happens, we obviously don't want to try to match the data
@@ -2326,52 +2325,24 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		buff = er.read_contents()
 		offset = 0
 		for i in range(len(er.current_element.frame_lengths)):
-			flength = (er.current_element.frame_lengths[i] +
-			           len(sforsample) - len(sformain))
-			# see if a false positive match was detected
-			if (0 < len(track.check_bytes) < len(track.signature_bytes)):
-				lcb = min(len(track.signature_bytes),
-				          flength + len(track.check_bytes))
-				check_bytes = track.check_bytes  # from sample
-				check_bytes += sforsample  # stored settings from main video
-				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
-
-				if track.signature_bytes.startswith(check_bytes):
-					track.check_bytes = check_bytes
-				else:
-					# It was only a partial match. Start over.
-					track.check_bytes = b""
-					track.match_offset = 0
-					track.match_length = 0
-			# this is a bit weird, but if we had a false positive match going
-			# and discovered it above, we check this frame again
-			# to see if it's the start of a new match
-			# (rare problem, but it can happen with subtitles especially)
-
-			if not track.check_bytes:  # always entered upon start too
-				lcb = min(len(track.signature_bytes), flength)
-				check_bytes = sforsample
-				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
-				if track.signature_bytes.startswith(check_bytes):
-					track.check_bytes = check_bytes
-					track.match_offset = (er.current_element.element_start_pos
-					                      + len(er.current_element.raw_header)
-					                      + len(er.current_element.raw_block_header)
-					                      + offset)
-					track.match_length = min(track.data_length, flength)
+			frame = buff[offset:offset + er.current_element.frame_lengths[i]]
+			frame = _mkv_sample_frame(frame, track, track2)
+			if len(track.check_bytes) < len(track.signature_bytes):
+				track.search_signature(frame,
+				                       er.current_element.element_start_pos
+				                       + len(er.current_element.raw_header)
+				                       + len(er.current_element.raw_block_header)
+				                       + offset, at_start=True)
 			else:
 				track.match_length += min(track.data_length -
-				                          track.match_length, flength)
+				                          track.match_length, len(frame))
 			offset += er.current_element.frame_lengths[i]
 	elif track.match_length < track.data_length:
 		track.match_length += min(track.data_length - track.match_length,
 		                          er.current_element.length)
 		
 		if srs_cut_bug:
-			_extra_offsets_x265_bug(self, er, track, sforsample, sformain)
+			_extra_offsets_x265_bug(self, er, track, track2)
 		else:
 			er.skip_contents()
 
@@ -2384,28 +2355,24 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		done = tracks_done
 	elif srs_cut_bug:
 		# track other possible match offsets
-		_extra_offsets_x265_bug(self, er, track, sforsample, sformain)
+		_extra_offsets_x265_bug(self, er, track, track2)
 	else:
 		er.skip_contents()
 
 	return done
 
-def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
+def _extra_offsets_x265_bug(self, er, track, track_main):
 	offset = 0
 	buff = er.read_contents()
 
 	for i in range(len(er.current_element.frame_lengths)):
-		flength = (er.current_element.frame_lengths[i] +
-				   len(sforsample) - len(sformain))
+		frame = buff[offset:offset + er.current_element.frame_lengths[i]]
+		frame = _mkv_sample_frame(frame, track, track_main)
 		# see if a false positive match was detected
 		if (0 < len(track.check_bytes_bug) < len(track.signature_bytes)):
-			lcb = min(len(track.signature_bytes),
-					  flength + len(track.check_bytes_bug))
 			check_bytes = track.check_bytes_bug  # from sample
-			check_bytes += sforsample  # stored settings from main video
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+			check_bytes += frame[:len(track.signature_bytes) -
+			                     len(track.check_bytes_bug)]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2413,10 +2380,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 
 		if not track.check_bytes_bug:
-			lcb = min(len(track.signature_bytes), flength)
-			check_bytes = sforsample
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+			check_bytes = frame[:len(track.signature_bytes)]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
@@ -3172,15 +3136,6 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 	# blocks can come before their track description
 	track_main = tracks_main.get(er.current_element.track_number, TrackData())
 
-	# grab compression settings
-	sforsample = b""  # settings for the sample tracks
-	sformain = b""  # settings for main tracks
-	if track.compression_settings:
-		sformain = track.compression_settings
-	if track_main.compression_settings:
-		sforsample = track_main.compression_settings
-	header_stripping_both_files = sformain and sforsample
-
 	if (er.current_element.element_start_pos +
 		len(er.current_element.raw_header) +
 		len(er.current_element.raw_block_header) +
@@ -3195,26 +3150,10 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 			len(er.current_element.raw_block_header) +
 			offset >= track.match_offset and
 			track.track_file.tell() < track.data_length):
-				if header_stripping_both_files:
-					if sforsample == sformain:
-						# no removed header to be added
-						track.track_file.write(buff[offset:offset + 
-							er.current_element.frame_lengths[i]])
-					elif len(sforsample) < len(sformain):
-						# more stripped in sample
-						cut = len(sformain) - len(sforsample) 
-						track.track_file.write(buff[offset + cut:offset + 
-							er.current_element.frame_lengths[i]])
-					elif len(sforsample) > len(sformain):
-						# more stripped in main (weird, but possible in theory)
-						add = len(sforsample) - len(sformain)
-						track.track_file.write(sforsample[-add:])
-						track.track_file.write(buff[offset:offset + 
-							er.current_element.frame_lengths[i]])
-				else:
-					track.track_file.write(sforsample)
-					track.track_file.write(buff[offset + len(sformain):offset +
-					   er.current_element.frame_lengths[i]])
+				frame = buff[offset:offset +
+				             er.current_element.frame_lengths[i]]
+				track.track_file.write(
+				    _mkv_sample_frame(frame, track, track_main))
 			offset += er.current_element.frame_lengths[i]
 
 		tracks_done = True
-- 
2.43.0


From 97f7fd833a240b6639569b5901e71885ca390436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 029/172] fix: reporting a corruption ended in a TypeError

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..c5401d0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -650,7 +650,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From 7a82d0af6af96012b30b3c440672cbba526660ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 030/172] fix: Matroska samples with two attachments of the
 same name could not be rebuilt

---
 resample/main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 6094595..6b74453 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3103,9 +3103,11 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
-			if current_attachment not in attachments:
-				att = AttachmentData(current_attachment)
-				attachments[current_attachment] = att
+			# attachments with the same name are told apart by their order
+			while current_attachment in attachments:
+				current_attachment += b".dupe"
+			att = AttachmentData(current_attachment)
+			attachments[current_attachment] = att
 		elif er.element_type == EbmlElementType.AttachedFileData:
 			attachment = attachments[current_attachment]
 			attachment.size = er.current_element.length
@@ -3415,6 +3417,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 	with open(out_file, "wb") as sample:
 		current_attachment = None
+		attachment_names = set()
 		cluster_count = 0
 		while er.read():
 			# the ReSample element is the only part of the SRS file
@@ -3443,9 +3446,13 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				current_attachment = er.read_contents()
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
+				while current_attachment in attachment_names:
+					current_attachment += b".dupe"
+				attachment_names.add(current_attachment)
 			elif er.element_type == EbmlElementType.AttachedFileData:
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
+				attachment.attachment_file.seek(0)
 				buff = attachment.attachment_file.read()
 				sample.write(buff)
 				crc = crc32(buff, crc) & 0xFFFFFFFF
-- 
2.43.0


From 5960b762592dd30847eb858ad6382a19d40054ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 031/172] fix: Matroska frames of which everything is stripped
 were left out at the start of a sample

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 6b74453..3dda3f4 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3141,7 +3141,7 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 	if (er.current_element.element_start_pos +
 		len(er.current_element.raw_header) +
 		len(er.current_element.raw_block_header) +
-		er.current_element.length > track.match_offset):
+		er.current_element.length >= track.match_offset):
 		if track.track_file == None:
 			track.track_file = tempfile.TemporaryFile()
 		buff = er.read_contents()
-- 
2.43.0


From 3cdb6b3ce9f0b79e5a710c84f9495c24f61782e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 032/172] fix: Matroska attachments after the clusters of the
 main file were not found

---
 resample/main.py | 11 +++++++++--
 resample/srs.py  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 3dda3f4..b6edda6 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -596,6 +596,7 @@ def enough_signature_data(track):
 
 class ReSample(object):
 	archived_file_name = ""
+	has_attachments = False  # sample with attachments: needed from main file
 	
 	def __init__(self):
 		self.cut_data = {}  # track number -> list of other possible offsets
@@ -783,6 +784,8 @@ def avi_load_srs(self, infile):
 def mkv_load_srs(self, infile):
 	tracks = {}
 	srs_data = None
+	with open(infile, "rb") as srs_file:
+		self.has_attachments = EbmlID.ATTACHMENT_LIST in srs_file.read()
 	er = EbmlReader(EbmlReadMode.SRS, infile)
 	header_stripping = False
 	current_track_nb = 0
@@ -3048,7 +3051,10 @@ def mkv_extract_sample_streams(self, tracks, movie):
 	current_track_nb = 0
 	header_stripping = False
 
-	while er.read() and not done:
+	# attachments can be located after all of the clusters too
+	search_attachments = False
+
+	while er.read() and (not done or search_attachments):
 		if er.element_type in (
 				EbmlElementType.Segment,
 				EbmlElementType.BlockGroup,
@@ -3066,6 +3072,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			er.skip_contents()
 		elif er.element_type == EbmlElementType.Block:
 			done = _mkv_block_extract(tracks, tracks_main, er, done)
+			search_attachments = self.has_attachments and not attachments
 		elif er.element_type == EbmlElementType.Cluster:
 			# simple progress indicator since this can take a while
 			# (cluster is good because they're about 1MB each)
@@ -3074,7 +3081,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 
 			# in extract mode, we know the first data offset we're looking for,
 			# so skip any clusters before that
-			if (er.current_element.element_start_pos +
+			if done or (er.current_element.element_start_pos +
 				len(er.current_element.raw_header) +
 				er.current_element.length < start_offset):
 				er.skip_contents()
diff --git a/resample/srs.py b/resample/srs.py
index c5401d0..73e4bc0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -472,6 +472,7 @@ def main(argv=None, no_exit=False):
 						pexit(3, msg, False)
 
 			# 3) Extract those sample streams to memory
+			movi.has_attachments = sample.has_attachments
 			tracks, attachments = movi.extract_sample_streams(tracks, movie)
 			t1 = time.time()
 			total = t1 - t0
-- 
2.43.0


From a1fe7190e737b88b55e4136030836b6136f76cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 033/172] fix: Matroska samples with a track of only empty
 frames could not be rebuilt

---
 resample/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index b6edda6..0f1ca07 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3468,9 +3468,11 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				else:
 					er.skip_contents()
 			elif er.element_type == EbmlElementType.Block:
-				track = tracks[er.current_element.track_number]
-				# restore data from extracted tracks
-				buff = track.track_file.read(er.current_element.length)
+				# restore data from extracted tracks (if the track has any)
+				buff = b""
+				if er.current_element.length:
+					track = tracks[er.current_element.track_number]
+					buff = track.track_file.read(er.current_element.length)
 				rbh = er.current_element.raw_block_header
 				sample.write(rbh)
 				crc = crc32(rbh, crc) & 0xFFFFFFFF
-- 
2.43.0


From 92b8b24f368a2f8019799742894661d1a39afe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 034/172] fix: the first attempt of a sample rebuild stayed
 behind as temporary file

---
 resample/srs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 73e4bc0..7194700 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -566,7 +566,8 @@ def main(argv=None, no_exit=False):
 				v.movi = movi
 				v.tracks = tracks
 				v.attachments = attachments
-				v.out_file = None
+				v.out_file = out_file
+				v.sfile = sfile
 
 				check_tracks(track_set[0], track_set[1:], v)
 
-- 
2.43.0


From 0dee9cb67c5c06aac18eeb236a1d6082cc4ac54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 035/172] fix: MP4 tracks with a version 1 header were not
 recognized

---
 resample/main.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 0f1ca07..ec5370c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1284,7 +1284,7 @@ def profile_mp4(mp4_data,  # FileData object
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = mp4_track_id(data)
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
@@ -1360,6 +1360,12 @@ def profile_mp4(mp4_data,  # FileData object
 # 	assert meta_length == mp4_data.size - data_length
 	return tracks
 
+def mp4_track_id(data):
+	"""data: contents of a track header box"""
+	# creation and modification time take 8 bytes in version 1
+	(track_id,) = BE_LONG.unpack_from(data, 20 if data[:1] == b"\x01" else 12)
+	return track_id
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -3563,7 +3569,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = mp4_track_id(data)
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From 727712b637f1d6ca835acdf51e8a5c950db729bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 036/172] fix: compact MP4 sample size boxes were read as a
 fixed size

---
 resample/main.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index ec5370c..f242849 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1329,16 +1329,7 @@ def profile_mp4(mp4_data,  # FileData object
 # 			print(current_track.chunk_lengths)
 
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			(sample_size,) = BE_LONG.unpack_from(data, 4)
-			(sample_count,) = BE_LONG.unpack_from(data, 8)
-			if sample_size == 0:
-				for i in range(sample_count):
-					j = 12 + i * 4
-					(out,) = BE_LONG.unpack_from(data, j)
-					current_track.sample_lengths.append(out)
-			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+			current_track.sample_lengths.extend(mp4_sample_sizes(atype, data))
 # 			print(current_track.sample_lengths)
 
 		if (current_track and (not track_processed) and
@@ -1366,6 +1357,27 @@ def mp4_track_id(data):
 	(track_id,) = BE_LONG.unpack_from(data, 20 if data[:1] == b"\x01" else 12)
 	return track_id
 
+def mp4_sample_sizes(atom_type, data):
+	"""data: contents of a sample size box"""
+	(sample_size,) = BE_LONG.unpack_from(data, 4)
+	(sample_count,) = BE_LONG.unpack_from(data, 8)
+	if atom_type == b"stz2":
+		# 3 reserved bytes, 1 byte for the amount of bits of each size
+		field_size = sample_size & 0xFF
+		fields = bytearray(data[12:])
+		if field_size == 4:
+			sizes = [nibble for byte in fields
+			         for nibble in (byte >> 4, byte & 0xF)][:sample_count]
+		elif field_size == 8:
+			sizes = list(fields[:sample_count])
+		else:
+			sizes = [(fields[i * 2] << 8) + fields[i * 2 + 1]
+			         for i in range(sample_count)]
+		return sizes
+	if sample_size == 0:
+		return list(struct.unpack_from(">%dL" % sample_count, data, 12))
+	return [sample_size] * sample_count
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -3604,16 +3616,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 			# enlarge compactly coded tables
 			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			(sample_size,) = BE_LONG.unpack_from(data, 4)
-			(sample_count,) = BE_LONG.unpack_from(data, 8)
-			if sample_size == 0:
-				for i in range(sample_count):
-					j = 12 + i * 4
-					(out,) = BE_LONG.unpack_from(data, j)
-					current_track.sample_lengths.append(out)
-			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+			current_track.sample_lengths.extend(mp4_sample_sizes(atype, data))
 
 
 		if (current_track and (not track_processed) and
-- 
2.43.0


From 0044bda02e24a8b26665fcbe94d4e92a8b7425d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 037/172] fix: MP4 samples with more mdat atoms or chunks out
 of order could not be rebuilt

---
 resample/main.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index f242849..46240c2 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2486,8 +2486,11 @@ class TrackStream(object):
 	def seek(self, offset):
 		"""The offset must be the beginning of a sample."""
 		self._current_offset = offset
+		self._current_chunk = None
 		for chunk in self.chunks:
-			if chunk.chunk_offset <= offset:
+			if (chunk.chunk_offset <= offset and
+				(self._current_chunk is None or
+				chunk.chunk_offset >= self._current_chunk.chunk_offset)):
 				self._current_chunk = chunk
 		assert self._current_chunk
 		# Will raise InvalidMatchOffset when not on start of a sample
@@ -3516,7 +3519,6 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 	tracks = profile_mp4_srs(srs, tracks)
 	for track in tracks.values():
-		track.track_file.seek(0)
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
 	mr = MovReader(MovReadMode.SRS, path=srs)
@@ -3534,9 +3536,20 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 			if mr.atom_type == b"mdat":
 				mr.move_to_child()
 
+				# the location of the stream data in the sample
+				# size zero: until the end of the file
+				start = sample.tell()
+				end = srs_data.size
+				if mr.current_atom.raw_header[:4] != b"\0\0\0\0":
+					end = (start + mr.current_atom.size -
+					       len(mr.current_atom.raw_header))
+
 				# order the interleaved chunks
-				for (chunk, track_nb) in order_chunks(tracks):
+				for (chunk, track_nb, position) in order_chunks(tracks):
+					if not start <= chunk.chunk_offset < end:
+						continue  # located in an other mdat
 					track = tracks[track_nb]
+					track.track_file.seek(position)
 					buff = track.track_file.read(sum(chunk.samples))
 					# write all the stream data
 					sample.write(buff)
@@ -3556,8 +3569,11 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 def order_chunks(tracks):
 	all_chunks = []
 	for track in tracks.values():
+		position = 0  # in the data of the track
 		for chunk in track.trackstream.chunks:
-			all_chunks.append((chunk, track.track_number))
+			if sum(chunk.samples):
+				all_chunks.append((chunk, track.track_number, position))
+			position += sum(chunk.samples)
 
 	all_chunks = sorted(all_chunks, key=lambda c: c[0].chunk_offset)
 	return all_chunks
-- 
2.43.0


From 34acbdbfe5b298c2a8cef6110cc5d9ff752997be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 038/172] fix: MP4 samples with a track without data could not
 be rebuilt

---
 resample/main.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 46240c2..bc50598 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2587,6 +2587,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
+			if not track.signature_bytes or not mtrack.signature_bytes:
+				continue  # no data to search (in)
 			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
 # 			print(track)
 # 			print(mtrack)
@@ -3204,6 +3206,8 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 	                      archived_file_name=self.archived_file_name)
 
 	for track_nb, track in tracks.items():
+		if not track.data_length:
+			continue
 		mtrack = mtracks[track_nb]
 		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
 		tracks[track_nb] = track
@@ -3598,7 +3602,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		if atype in (b"tkhd",):
 			# grab track id
 			track_id = mp4_track_id(data)
-			current_track = tracks[track_id]
+			# tracks without data don't need to be in the SRS
+			current_track = tracks.setdefault(track_id, TrackData())
+			current_track.track_number = track_id
 
 			# initialization
 			current_track.chunk_offsets = []
-- 
2.43.0


From bbdc72d67513d5763d3b3cc0a9f6e86285252f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 039/172] fix: WMV streams with a number above 15 were mixed up

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index bc50598..86dffb7 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1578,7 +1578,7 @@ def profile_wmv(wmv_data):  # FileData object
 			# grab track id
 			i = 16 + 16 + 8 + 4 + 4
 			(flags,) = S_SHORT.unpack_from(data, i)
-			track_id = flags & 0xF
+			track_id = flags & 0x7F
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
-- 
2.43.0


From fe4a9096502ec5cb2d6760632fe465a8a6b3ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 040/172] fix: WMV sample tracks weren't found after a partial
 match or with extra streams

---
 resample/main.py | 61 ++++--------------------------------------------
 1 file changed, 4 insertions(+), 57 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 86dffb7..72cde08 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2641,63 +2641,10 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# for all tracks in the main file. If that happens,
 						# we obviously don't want to try to match the data
 						if track.signature_bytes:
-							if (0 <
-							    len(track.check_bytes)
-							    < len(track.signature_bytes)):
-								lcb = min(len(track.signature_bytes),
-											payload.data_length +
-											len(track.check_bytes))
-								check_bytes = track.check_bytes
-								check_bytes += payload.data[:lcb -
-								                        len(track.check_bytes)]
-
-								# track found!
-								if track.signature_bytes.startswith(
-								    check_bytes):
-									track.check_bytes = check_bytes
-								else:
-									# It was only a partial match. Start over.
-									track.check_bytes = b""
-									track.match_offset = 0
-									track.match_length = 0
-
-						# this is a bit weird, but if we had a false positive match
-						# going and discovered it above, we check this payload again
-						# to see if it's the start of a new match
-						# (probably will never happen with AVI
-						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
-							payload_bytes = payload.data
-
-							search_byte = track.signature_bytes[0]
-							found_pos = payload_bytes.find(search_byte, 0)
-
-							while found_pos > -1:
-								lcb = min(len(track.signature_bytes),
-											len(payload_bytes) - found_pos)
-								check_bytes = payload_bytes[found_pos:
-								                          found_pos + lcb]
-
-								# track found!
-								if track.signature_bytes.startswith(
-								    check_bytes):
-									track.check_bytes = check_bytes
-									track.match_offset = (
-									    packet.data_file_offset +
-									    prev_payloads_size +
-									    payload.header_size +
-									    found_pos)
-									track.match_length = min(
-									    track.data_length,
-									    len(payload_bytes) - found_pos)
-									break
-								found_pos = payload_bytes.find(search_byte,
-								                             found_pos + 1)
-						else:
-							track.match_length = min(track.data_length
-							                         - track.match_length,
-							                         payload.data_length)
-
+							track.search_signature(payload.data,
+							                       packet.data_file_offset +
+							                       prev_payloads_size +
+							                       payload.header_size)
 
 					elif track.match_length < track.data_length:
 						track.match_length += min(track.data_length -
-- 
2.43.0


From f877d002dfdd1ff40292824821e4c83fc9de5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 041/172] fix: WMV samples with a stream without data could not
 be rebuilt

---
 resample/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 72cde08..c44a294 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3650,17 +3650,17 @@ def wmv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 					# 2) packet payload
 					for payload in packet.payloads:
-						track = tracks[payload.stream_number]
-
 						# 1) header data
 						sample.write(payload.header_data)
 						crc = crc32(payload.header_data, crc) & 0xFFFFFFFF
 						assert payload.header_size == len(payload.header_data)
 
 						# 2) payload data
-						buff = track.track_file.read(payload.data_length)
-						sample.write(buff)
-						crc = crc32(buff, crc) & 0xFFFFFFFF
+						if payload.data_length:
+							track = tracks[payload.stream_number]
+							buff = track.track_file.read(payload.data_length)
+							sample.write(buff)
+							crc = crc32(buff, crc) & 0xFFFFFFFF
 
 					# 3) padding bytes
 					try:
-- 
2.43.0


From 7970818aed49a49b9053e1c323dbe00903746758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 042/172] fix: the rest of a WMV sample was read from the wrong
 place

---
 resample/asf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..e7f3936 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -185,9 +185,9 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
-		                       self.current_object.size):
-			self.read_done = True
+		# done when this is the last part
+		self.read_done = (offset + length == self.current_object.start_pos +
+		                                     self.current_object.size)
 		self._asf_stream.seek(offset, os.SEEK_SET)
 		return self._asf_stream.read(length)
 
-- 
2.43.0


From 72e0185ddcd4f031d9c28c1e516f8b586f9b223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 043/172] fix: only the audio that was in the FLAC sample is
 taken from the main file

---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index c44a294..5f20b1b 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3277,7 +3277,8 @@ def flac_extract_sample_streams(self, tracks, main_flac_file):
 		if fr.current_block.is_frame_data():
 			track = tracks[1]
 			track.track_file = tempfile.TemporaryFile()
-			track.track_file.write(fr.read_contents())
+			# other tags can follow the frames in the main file
+			track.track_file.write(fr.read_contents()[:track.data_length])
 			tracks[1] = track
 		fr.skip_contents()
 	fr.close()
-- 
2.43.0


From d41a0b1b7833fc3f3beb98402d273d8ea667fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 044/172] fix: FLAC files with ID3 tags could not be rebuilt

---
 resample/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 5f20b1b..b70db6b 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3704,8 +3704,8 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
-					srs_flac_blocks <= 3):
+			elif (fr.block_type in list(bytearray(b"stu")) and
+					srs_flac_blocks < 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
 			else:
-- 
2.43.0


From 3be55c9f6529c68fc3ddf510e25fd1b779a92820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 045/172] fix: small FLAC files could not be read

---
 resample/flac.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resample/flac.py b/resample/flac.py
index 8d51ab5..f95786c 100644
--- a/resample/flac.py
+++ b/resample/flac.py
@@ -135,9 +135,10 @@ class FlacReader(object):
 		if self.block_type == 0xFF:  # frame data
 			block_length = self._file_length - block_start_position
 			# check for ID3v1 tag
-			self._flac_stream.seek(self._file_length - 128)
-			if self._flac_stream.read(3) == b"TAG":
-				block_length -= 128
+			if block_length >= 128:
+				self._flac_stream.seek(self._file_length - 128)
+				if self._flac_stream.read(3) == b"TAG":
+					block_length -= 128
 			self._block_header = b""
 		else:
 			(block_length,) = BE_LONG.unpack(b"\x00" + self._block_header[1:])
-- 
2.43.0


From 66f65b6aba90d3c33e4e648c426aaa9a99ac202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 046/172] fix: small MP3 files could not be read

---
 resample/mp3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..3cdddf8 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -123,10 +123,10 @@ class Mp3Reader(object):
 
 		# 2) check for ID3v1 (last 128 bytes of mp3 file)
 		end_meta_data_offset = self._file_length
-		self._mp3_stream.seek(-128, os.SEEK_END)
-		idv1_start_offset = self._mp3_stream.tell()
+		idv1_start_offset = max(0, self._file_length - 128)
+		self._mp3_stream.seek(idv1_start_offset, os.SEEK_SET)
 		first = self._mp3_stream.read(3)
-		if first == b"TAG":
+		if first == b"TAG" and self._file_length >= 128:
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
 			end_meta_data_offset = idv1_start_offset
-- 
2.43.0


From 54ff8f39b87e9ded7557f58c74e82048ff5cfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 047/172] fix: MP3 files with a Lyrics3 v1 tag could not be
 rebuilt

---
 resample/mp3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index 3cdddf8..3b6957d 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,16 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				# max 5100 bytes: the file (or SRS file) can be smaller
+				start_search = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(start_search, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+					end_meta_data_offset - start_search)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = start_search + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From f4555032015df35d6eede00642cdeee7873a6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 048/172] fix: the Lyrics3 v1 tag of an MP3 file starts at the
 last begin mark

---
 resample/mp3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index 3b6957d..eee6c49 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -158,7 +158,7 @@ class Mp3Reader(object):
 				self._mp3_stream.seek(start_search, os.SEEK_SET)
 				lyrics_data = self._mp3_stream.read(
 					end_meta_data_offset - start_search)
-				index = lyrics_data.find(b"LYRICSBEGIN")
+				index = lyrics_data.rfind(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-- 
2.43.0


From 20eafd6862522a6d30d39b67a8d2da172f65d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 049/172] fix: an APEv2 tag without header took a part of the
 MP3 data

---
 resample/mp3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index eee6c49..ee2e700 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -178,11 +178,13 @@ class Mp3Reader(object):
 			self._mp3_stream.seek(end_meta_data_offset - 32, os.SEEK_SET)
 			if b"APETAGEX" == self._mp3_stream.read(8):
 				(version,) = S_LONG.unpack(self._mp3_stream.read(4))
-				if version == 2000:
-					header = 32
-				else:  # 1000
-					header = 0
 				(size,) = S_LONG.unpack(self._mp3_stream.read(4))
+				header = 0  # 1000, optional for 2000
+				if version == 2000 and end_meta_data_offset - size >= 32:
+					self._mp3_stream.seek(end_meta_data_offset - size - 32,
+					                      os.SEEK_SET)
+					if b"APETAGEX" == self._mp3_stream.read(8):
+						header = 32
 				start_block = end_meta_data_offset - size - header
 				apev2_block = Block(end_meta_data_offset - start_block,
 				                    "APE%s" % version, start_block)
-- 
2.43.0


From d2e249edefa92e2ddb4f9650f64a65a14a8c5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 050/172] fix: MP3 SRS data that looks like a tag broke the SRS
 file

---
 resample/mp3.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index ee2e700..aef9646 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -252,7 +252,9 @@ class Mp3Reader(object):
 		main_size = end_meta_data_offset - begin_main_content
 		if marker[:3] == b"SRS":  # SRS data blocks
 			cur_pos = begin_main_content
-			while cur_pos < begin_main_content + main_size:
+			# what looks like a tag can be the end of the data of an SRS block
+			main_size = self._file_length - begin_main_content
+			while cur_pos < self._file_length:
 				self._mp3_stream.seek(cur_pos, os.SEEK_SET)
 				# SRSF, SRST and SRSP
 				try:
@@ -261,6 +263,8 @@ class Mp3Reader(object):
 					(size,) = S_LONG.unpack(self._mp3_stream.read(4))
 				except:
 					raise InvalidDataException("Not enough SRS data")
+				if marker not in (b"SRSF", b"SRST", b"SRSP"):
+					break
 				srs_block = Block(size, marker.decode("ascii"), cur_pos)
 				self.blocks.append(srs_block)
 				cur_pos += size
@@ -268,6 +272,15 @@ class Mp3Reader(object):
 					raise InvalidDataException("SRS size field is zero")
 				if size > begin_main_content + main_size:
 					raise InvalidDataException("Broken SRS")
+			self.blocks = [block for block in self.blocks
+			               if block.type in ("ID3", "SRSF", "SRST", "SRSP") or
+			               block.start_pos >= cur_pos]
+			# data between the SRS blocks and the tags
+			end_pos = min([block.start_pos for block in self.blocks
+			               if block.start_pos >= cur_pos] +
+			              [self._file_length])
+			if cur_pos < end_pos:
+				self.blocks.append(Block(end_pos - cur_pos, "DATA", cur_pos))
 		elif sync & 0xFFE0 == 0xFFE0 or marker == b"RIFF":
 			# first 11 bits all 1 for MP3 frame marker
 			mp3_data_block = Block(main_size, "MP3", begin_main_content)
-- 
2.43.0


From 6fd5f1f0326fd8c661c65e05ff0f74a048155cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 051/172] fix: text after the music data was seen as an ID3v2
 tag

---
 resample/mp3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index aef9646..bc616dd 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -356,7 +356,8 @@ def last_id3v2_before_sync(stream, length):
 		if sync != -1 or srsf != -1:
 			sync = max(sync, srsf)
 
-		imatch = bytespart.rfind(b"ID3")
+		# only tags before the music data
+		imatch = bytespart.rfind(b"ID3", 0, sync if sync != -1 else None)
 		if imatch > 0:
 			imatch += current
 		id3 = max(imatch, id3)
-- 
2.43.0


From c61dfe124eb586f0cf2f5f3ed5254d5d24f3ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 052/172] fix: MP3 data after padding in the main file was read
 from the wrong place

---
 resample/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index b70db6b..417e940 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2744,8 +2744,9 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
-			track.match_length = min(track.data_length, block.size)
+			boffset += found_offset
+			track.match_offset = block.start_pos + boffset
+			track.match_length = min(track.data_length, block.size - boffset)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
 	return track
-- 
2.43.0


From 8d0c7fd7dfb4074ff190662ddeedf8cf35c4ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 053/172] fix: RIFF MP3 files with an upper case extension were
 seen as AVI

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 417e940..cb9a70c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -177,7 +177,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.endswith(".mp3"):
+		if ifile.lower().endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
-- 
2.43.0


From 515fb468d6dffdc4ffdfb9c3cc2d7d0ca8af515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 054/172] fix: WMV files with an object without size were read
 forever

---
 resample/asf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resample/asf.py b/resample/asf.py
index e7f3936..d93a76b 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -169,7 +169,15 @@ class AsfReader(object):
 
 		return True
 
+	def _check_object_length(self):
+		"""There is no next object when an object is smaller than its header."""
+		o = self.current_object
+		if o.size < len(o.raw_header):
+			raise InvalidDataException("Invalid object length at 0x%08X" %
+			                           o.start_pos)
+
 	def read_contents(self):
+		self._check_object_length()
 		# if read_done is set, we've already read or skipped it.
 		# back up and read again?
 		if self.read_done:
@@ -193,6 +201,7 @@ class AsfReader(object):
 
 	def skip_contents(self):
 		if not self.read_done:
+			self._check_object_length()
 			self.read_done = True
 			self._asf_stream.seek(self.current_object.start_pos +
 			                      self.current_object.size, os.SEEK_SET)
-- 
2.43.0


From 064a70e7f80f9e6f92599ad48c33ba30d881c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 055/172] fix: damaged MP4 sample tables took all memory

---
 resample/main.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index cb9a70c..041adac 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1323,13 +1323,9 @@ def profile_mp4(mp4_data,  # FileData object
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
 
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
-
-# 			print(current_track.chunk_lengths)
-
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			current_track.sample_lengths.extend(mp4_sample_sizes(atype, data))
+			current_track.sample_lengths.extend(
+				mp4_sample_sizes(atype, data, mr._file_length))
 # 			print(current_track.sample_lengths)
 
 		if (current_track and (not track_processed) and
@@ -1338,6 +1334,10 @@ def profile_mp4(mp4_data,  # FileData object
 		    len(current_track.sample_lengths)):
 			track_processed = True
 
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(current_track.chunk_lengths,
+				len(current_track.chunk_offsets))
+
 			# in profile mode, we want to build track signatures
 			# TODO: skip in other modes
 			current_track.signature_bytes = mp4_signature_bytes(current_track,
@@ -1357,8 +1357,9 @@ def mp4_track_id(data):
 	(track_id,) = BE_LONG.unpack_from(data, 20 if data[:1] == b"\x01" else 12)
 	return track_id
 
-def mp4_sample_sizes(atom_type, data):
-	"""data: contents of a sample size box"""
+def mp4_sample_sizes(atom_type, data, limit):
+	"""data: contents of a sample size box
+	limit: the samples can't have more bytes together"""
 	(sample_size,) = BE_LONG.unpack_from(data, 4)
 	(sample_count,) = BE_LONG.unpack_from(data, 8)
 	if atom_type == b"stz2":
@@ -1376,9 +1377,11 @@ def mp4_sample_sizes(atom_type, data):
 		return sizes
 	if sample_size == 0:
 		return list(struct.unpack_from(">%dL" % sample_count, data, 12))
+	if sample_size * sample_count > limit:
+		raise ValueError("Invalid amount of samples")
 	return [sample_size] * sample_count
 
-def stsc(samples_chunk):
+def stsc(samples_chunk, chunk_count=0xFFFFFFFF):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
 	new = []
@@ -1388,7 +1391,7 @@ def stsc(samples_chunk):
 	for (first_chunk, samples_per_chunk, sample_description_index) in old:
 		if first_chunk > index:
 			# fill between chunks
-			for i in range(index, first_chunk):
+			for i in range(index, min(first_chunk, chunk_count + 1)):
 				new.append((i, prev_samples_per_chunk,
 						prev_sample_description_index))
 				index += 1
@@ -3583,11 +3586,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 				# sample_description_index
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
-
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			current_track.sample_lengths.extend(mp4_sample_sizes(atype, data))
+			current_track.sample_lengths.extend(
+				mp4_sample_sizes(atype, data, current_track.data_length))
 
 
 		if (current_track and (not track_processed) and
@@ -3595,6 +3596,10 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		    len(current_track.chunk_lengths) and
 		    len(current_track.sample_lengths)):
 			track_processed = True
+
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(current_track.chunk_lengths,
+				len(current_track.chunk_offsets))
 	mr.close()
 
 	return tracks
-- 
2.43.0


From 4ffeb6362040fa3e9cb5dedbcdb1373ee63d9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 056/172] fix: a rebuilt sample of another size than recorded
 was reported as a success

---
 resample/srs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 7194700..679599f 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -510,11 +510,15 @@ def main(argv=None, no_exit=False):
 				print("Actual      :   {0:>13}  {1:08X}\n".format(
 					sep(sfile.size), sfile.crc32))
 			
+			def is_exact(sfile):
+				return (sfile.crc32 == srs_data.crc32 and
+				        sfile.size == srs_data.size)
+
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
-			if sfile and sfile.crc32 == srs_data.crc32:
+			if sfile and is_exact(sfile):
 				show_attempt_info(sfile)
 			elif any(offs for tr in sample.cut_data.values() for offs in tr):
 				# we know it will likely fail the first time anyway
@@ -531,7 +535,7 @@ def main(argv=None, no_exit=False):
 					v.out_file = create_temp_file_name(result_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
-					return v.sfile.crc32 == srs_data.crc32
+					return is_exact(v.sfile)
 
 				def check_tracks(current_track, others, v):
 					for offset in current_track.olist:
@@ -585,7 +589,7 @@ def main(argv=None, no_exit=False):
 			for attachment in attachments.values():
 				attachment.attachment_file.close()
 
-			if sfile.crc32 == srs_data.crc32:
+			if is_exact(sfile):
 				replace_result(out_file, result_file)
 				print("\nSuccessfully rebuilt sample: %s" % srs_data.name)
 			else:
-- 
2.43.0


From 35490ec517792d9fcdda42d1bda9db33cb86a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 057/172] fix: a failed sample rebuild deleted the file it
 could have replaced

---
 resample/srs.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 679599f..8f337fd 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -615,18 +615,13 @@ def main(argv=None, no_exit=False):
 							replace_result(out_file, result_file)
 				else:
 					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
+					os.unlink(out_file)
+					if is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From 1506433604fc18e964bf87ac3d5246fcdbe19115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 058/172] fix: the name in an SRS file could lead outside the
 output folder

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 8f337fd..384c97e 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -493,7 +493,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# (the name can have been tampered with: never outside out_folder)
+			result_file = os.path.join(out_folder,
+			                           os.path.basename(srs_data.name))
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From da44a3bdd7691cad21715c8b8561b0f0b9e905a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 059/172] fix: the sample tool left temporary files after
 errors

---
 resample/srs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resample/srs.py b/resample/srs.py
index 384c97e..e9c3b18 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -225,6 +225,7 @@ def main(argv=None, no_exit=False):
 		(options.parent_directory and options.srs_parent_directory)):
 		pexit(1, "Make up your mind with the d's...\n")
 
+	temp_files = []
 	try:
 		ftype_arg0 = ""
 
@@ -362,6 +363,7 @@ def main(argv=None, no_exit=False):
 				return pexit(0, "\nOperation aborted.\n", False)
 
 			srs_name_tmp = create_temp_file_name(srs_name)
+			temp_files.append(srs_name_tmp)
 
 			sample.create_srs(tracks, sample_file_data, sample_file,
 			                  srs_name_tmp, options.big_file)
@@ -518,6 +520,7 @@ def main(argv=None, no_exit=False):
 
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
+			temp_files.append(out_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
 			if sfile and is_exact(sfile):
@@ -535,6 +538,7 @@ def main(argv=None, no_exit=False):
 					if v.out_file:
 						os.unlink(v.out_file)
 					v.out_file = create_temp_file_name(result_file)
+					temp_files.append(v.out_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
 					return is_exact(v.sfile)
@@ -610,6 +614,7 @@ def main(argv=None, no_exit=False):
 						if m == r:
 							# always keep original track on retag failure
 							print("No replacing of source file for music.")
+							temp_files.remove(out_file)
 							print("The .tmp file will be kept:")
 							print(os.path.basename(out_file))
 						else:
@@ -673,6 +678,11 @@ def main(argv=None, no_exit=False):
 	except Exception as err:
 		traceback.print_exc()
 		pexit(99, "Unexpected Error:\n%s\n" % err)
+	finally:
+		# results that weren't completed
+		for temp_file in temp_files:
+			if os.path.exists(temp_file):
+				os.unlink(temp_file)
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From 059e523c201da8225c4efc6de22be21441eaea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 060/172] fix: EBML sizes of 2^49 and more could not be written

---
 resample/ebml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index e582b89..cee8e45 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -97,7 +97,7 @@ def GetEbmlUIntStream(stream):
 def MakeEbmlUInt(number):
 	length_mask = 0
 
-	for i in range(1, 8):
+	for i in range(1, 9):
 		length_mask = 1 << (i * 8 - i)
 		if number < length_mask:
 			length_descriptor = i
-- 
2.43.0


From 6aa93f3d249a47bf9eb02fa80c0262b3e387d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 061/172] fix: attachments without a name of their own in
 Matroska samples

---
 resample/main.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 041adac..6cbda63 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3019,7 +3019,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 
 	attachments = {}
 	tracks_main = {}  # contains TrackData objects; main mkv info
-	current_attachment = None
+	current_attachment = b""
 	cluster_count = 0
 	done = False
 	current_track_nb = 0
@@ -3084,21 +3084,18 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
+		elif er.element_type == EbmlElementType.AttachedFileData:
 			# attachments with the same name are told apart by their order
 			while current_attachment in attachments:
 				current_attachment += b".dupe"
-			att = AttachmentData(current_attachment)
-			attachments[current_attachment] = att
-		elif er.element_type == EbmlElementType.AttachedFileData:
-			attachment = attachments[current_attachment]
-			attachment.size = er.current_element.length
 
 			# in extract mode,
 			# extract all attachments in case we need them later
-			if attachment.attachment_file == None:
-				attachment.attachment_file = tempfile.TemporaryFile()
-				attachment.attachment_file.write(er.read_contents())
-				attachment.attachment_file.seek(0)
+			attachment = AttachmentData(current_attachment,
+				er.current_element.length, tempfile.TemporaryFile())
+			attachment.attachment_file.write(er.read_contents())
+			attachment.attachment_file.seek(0)
+			attachments[current_attachment] = attachment
 		else:
 			er.skip_contents()
 
@@ -3400,7 +3397,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
-		current_attachment = None
+		current_attachment = b""
 		attachment_names = set()
 		cluster_count = 0
 		while er.read():
@@ -3430,10 +3427,10 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				current_attachment = er.read_contents()
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
+			elif er.element_type == EbmlElementType.AttachedFileData:
 				while current_attachment in attachment_names:
 					current_attachment += b".dupe"
 				attachment_names.add(current_attachment)
-			elif er.element_type == EbmlElementType.AttachedFileData:
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
 				attachment.attachment_file.seek(0)
-- 
2.43.0


From 1b0747e5d0bf579c18c77912635eea189d15504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 062/172] fix: SRS files without any SRS record were made for
 damaged samples

---
 resample/main.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 6cbda63..aaeb30d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1931,7 +1931,13 @@ def m2ts_profile_sample(self, m2ts_data):  # FileData object
 
 	return tracks, {}
 
+def assert_stored(stored):
+	"""An SRS file without the SRS records can't be used."""
+	if not stored:
+		raise ValueError("No place found for the SRS data")
+
 def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		rr = RiffReader(RiffReadMode.AVI, sample)
 		while rr.read():
@@ -1945,6 +1951,7 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# we put them after the avi headers
 				# so mediainfo can still read them from the SRS
 				if c.list_type == b"LIST" and c.fourcc == b"movi":
+					stored = True
 					file_chunk = sample_data.serialize_as_riff()
 					assert file_chunk
 					srsf.write(file_chunk)
@@ -1971,8 +1978,10 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				if rr.has_padding:
 					srsf.write(S_BYTE.pack(rr.padding_byte))
 		rr.close()
+	assert_stored(stored)
 
 def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		er = EbmlReader(EbmlReadMode.MKV, sample)
 		while er.read():
@@ -1981,6 +1990,7 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			srsf.write(e.raw_header)
 
 			if er.element_type == EbmlElementType.Segment:
+				stored = True
 				# in store mode, create and write our custom ebml element
 				# as the first child of the segment
 				file_element = sample_data.serialize_as_ebml()
@@ -2023,14 +2033,17 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# EbmlElementType.AttachedFileName
 				srsf.write(er.read_contents())
 		er.close()
+	assert_stored(stored)
 
 def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as movf:
 		mr = MovReader(MovReadMode.MP4, sample)
 		while mr.read():
 			atom = mr.current_atom
 
 			if atom.type == b"mdat":
+				stored = True
 				# in store mode, create and write our custom atoms
 				# as atom child in the root
 				file_atom = sample_data.serialize_as_mov()
@@ -2051,8 +2064,10 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				movf.write(mr.read_contents())
 		mr.close()
+	assert_stored(stored)
 
 def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		ar = AsfReader(AsfReadMode.WMV, sample)
 		while ar.read():
@@ -2085,6 +2100,7 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 				# in store mode, create and write our custom objects
 				# as object child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_asf()
 				srsf.write(file_atom)
 
@@ -2109,8 +2125,10 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				srsf.write(ar.read_contents())
 		ar.close()
+	assert_stored(stored)
 
 def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as flacf:
 		fr = FlacReader(sample)
 		while fr.read():
@@ -2119,6 +2137,7 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			flacf.write(block.raw_header)
 
 			if fr.block_type == "fLaC":
+				stored = True
 				# in store mode, create and write our custom blocks
 				file_block = sample_data.serialize_as_flac()
 				flacf.write(file_block)
@@ -2136,6 +2155,7 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				flacf.write(fr.read_contents())
 		fr.close()
+	assert_stored(stored)
 
 def mp3_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as mp3f:
-- 
2.43.0


From c81692aa9a619e97171282536bc9d3015ef7e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 063/172] fix: Matroska samples with damaged lacing or sizes
 gave unusable SRS files

---
 resample/ebml.py |  6 ++++++
 resample/main.py | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index cee8e45..436b56e 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -426,6 +426,12 @@ class EbmlReader(object):
 
 			element_length -= len(blockHeader)
 
+			# frames of damaged samples can't be found back later on
+			if (self.mode == EbmlReadMode.Sample and
+				(min(frameSizes) < 0 or sum(frameSizes) != element_length)):
+				raise InvalidDataException("Invalid block at 0x%08X" %
+				                           element_start_position)
+
 			self.current_element = BlockElement()
 			self.current_element.track_number = trackno
 			self.current_element.timecode = timecode
diff --git a/resample/main.py b/resample/main.py
index aaeb30d..d813464 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2013,6 +2013,11 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				er.move_to_child()
 			elif er.element_type in [EbmlElementType.Cluster,
 						EbmlElementType.BlockGroup,
+						EbmlElementType.TrackList,
+						EbmlElementType.Track,
+						EbmlElementType.ContentEncodingList,
+						EbmlElementType.ContentEncoding,
+						EbmlElementType.Compression,
 						EbmlElementType.AttachmentList,
 						EbmlElementType.Attachment]:
 				# these elements have no useful info of their own,
@@ -2297,7 +2302,9 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 				EbmlElementType.Track,
 				EbmlElementType.ContentEncodingList,
 				EbmlElementType.ContentEncoding,
-				EbmlElementType.Compression):
+				EbmlElementType.Compression,
+				EbmlElementType.AttachmentList,
+				EbmlElementType.Attachment):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.Cluster:
 			# simple progress indicator since this can take a while
@@ -3431,6 +3438,11 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 			crc = crc32(er.current_element.raw_header, crc) & 0xFFFFFFFF
 
 			if er.element_type in (EbmlElementType.Segment,
+			                       EbmlElementType.TrackList,
+			                       EbmlElementType.Track,
+			                       EbmlElementType.ContentEncodingList,
+			                       EbmlElementType.ContentEncoding,
+			                       EbmlElementType.Compression,
 			                       EbmlElementType.AttachmentList,
 			                       EbmlElementType.Attachment,
 			                       EbmlElementType.BlockGroup):
-- 
2.43.0


From c99853fcc9ef719cf844809452b7af813c145f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 064/172] fix: damaged MP4 samples gave SRS files that can't be
 rebuilt

---
 resample/main.py | 22 ++++++++++++++++++++++
 resample/mov.py  |  4 ++++
 resample/srs.py  |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d813464..eb36536 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1450,8 +1450,27 @@ def mp4_profile_sample(self, mp4_data):
 		       "       The sample is likely corrupted or incomplete.\n")
 		raise IncompleteSample(msg)
 
+	if not mp4_is_complete(tracks, mp4_data.size):
+		msg = ("Error: Not all stream data is in the file.\n"
+		       "       The sample is likely corrupted or incomplete.\n")
+		raise IncompleteSample(msg)
+
 	return tracks, {}  # attachments
 
+def mp4_is_complete(tracks, file_size):
+	"""Do the chunks of the tracks have all the data, inside the file?"""
+	for track in tracks.values():
+		mp4_add_track_stream(track)
+		stored = 0
+		for chunk in track.trackstream.chunks:
+			length = sum(chunk.samples)
+			stored += length
+			if length and chunk.chunk_offset + length > file_size:
+				return False
+		if stored != track.data_length:
+			return False
+	return True
+
 def mp4_signature_bytes(track, mp4_file):
 	"""Returns the signature bytes for a track. The signature bytes are
 	the 256 first bytes in the track."""
@@ -2068,6 +2087,9 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			else:
 				# do copy everything else
 				movf.write(mr.read_contents())
+		# nothing can be left that isn't part of an atom
+		stored = stored and (atom.start_pos + atom.size ==
+		                     os.path.getsize(sample))
 		mr.close()
 	assert_stored(stored)
 
diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..e6f0fa6 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -120,6 +120,10 @@ class MovReader(object):
 				# the atom extends to the end of the file
 				atom_length = self._file_length - atom_start_position
 
+		if atom_length < hsize:
+			raise InvalidDataException("Invalid box length at 0x%08X" %
+			                           atom_start_position)
+
 		# sanity check on atom length
 		# Skip check on mdat so we can still report expected size.
 		# This is only applied on samples,
diff --git a/resample/srs.py b/resample/srs.py
index e9c3b18..163a116 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -336,7 +336,7 @@ def main(argv=None, no_exit=False):
 			except resample.IncompleteSample as err:
 				pexit(2, str(err), False)
 
-			if not len(tracks):
+			if not any(track.data_length for track in tracks.values()):
 				pexit(2, "No A/V data was found. "
 				         "The sample is likely corrupted.\n", False)
 
-- 
2.43.0


From ebdfd35f9f68914023f6f80088c9f3472ca442cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 065/172] fix: FLAC files with bad last block flags gave SRS
 files that can't be rebuilt

---
 resample/main.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index eb36536..82c3ad2 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1667,6 +1667,8 @@ def flac_profile_sample(self, flac_data):  # FileData object
 	tracks = {}
 	flac_data.crc32 = 0x0  # start value crc
 	meta_length = 0
+	last_block = False  # is the previous block marked as the last one?
+	last_blocks = 0
 
 	fr = FlacReader(flac_data.name)
 	while fr.read():
@@ -1688,6 +1690,11 @@ def flac_profile_sample(self, flac_data):  # FileData object
 				flac_data.crc32 = crc32(data, flac_data.crc32)
 				read += to_read
 			if e.is_frame_data():
+				# the frames are put back after the block marked as last
+				if not last_block or last_blocks != 1:
+					msg = ("Error: Bad last metadata block flag.\n"
+					       "       The file is likely corrupted.\n")
+					raise IncompleteSample(msg)
 				# do track stuff
 				track = TrackData()
 				track.track_number = 1
@@ -1703,6 +1710,9 @@ def flac_profile_sample(self, flac_data):  # FileData object
 			else:
 				meta_length += e.size
 			fr.skip_contents()
+			last_block = e.is_last_block()
+			if last_block and not e.is_frame_data():
+				last_blocks += 1
 
 		assert fr.read_done
 	fr.close()
-- 
2.43.0


From b05904487167bc59b9eb3458688a2085c385352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 066/172] fix: damaged samples ended in unexpected errors
 instead of a refusal

---
 resample/asf.py  | 10 ++++++++--
 resample/main.py | 49 ++++++++++++++++++++++++++++--------------------
 resample/mp3.py  |  4 ++++
 resample/srs.py  |  3 ++-
 4 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/resample/asf.py b/resample/asf.py
index d93a76b..5af6fe5 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -143,7 +143,7 @@ class AsfReader(object):
 			i = 16 + 8 + 16
 			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			psize = (o.size - len(o.raw_header)) // max(1, total_data_packets)
 			rp_offsets = 0
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
@@ -189,7 +189,7 @@ class AsfReader(object):
 		# skip header bytes
 		hl = len(self.current_object.raw_header)
 		self._asf_stream.seek(hl, os.SEEK_CUR)
-		buff = self._asf_stream.read(self.current_object.size - hl)
+		buff = self._read_checked(self.current_object.size - hl)
 		return buff
 
 	def read_data_part(self, offset, length):
@@ -197,6 +197,12 @@ class AsfReader(object):
 		self.read_done = (offset + length == self.current_object.start_pos +
 		                                     self.current_object.size)
 		self._asf_stream.seek(offset, os.SEEK_SET)
+		return self._read_checked(length)
+
+	def _read_checked(self, length):
+		"""Damaged sizes must not ask for more memory than there is."""
+		if length > self._file_length and self.mode != AsfReadMode.SRS:
+			raise InvalidDataException("Invalid object length")
 		return self._asf_stream.read(length)
 
 	def skip_contents(self):
diff --git a/resample/main.py b/resample/main.py
index 82c3ad2..892beff 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1088,7 +1088,8 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			er.move_to_child()
 		elif etype == EbmlElementType.Compression:
 			# exact algorithm can be specified later
-			tracks[current_track_nb].compression_algorithm = True
+			if current_track_nb in tracks:
+				tracks[current_track_nb].compression_algorithm = True
 			er.move_to_child()
 		elif etype == EbmlElementType.Block:
 			block_count += 1
@@ -1155,8 +1156,9 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			tracks[current_track_nb].codec = elm_content.decode(
-			                                    "ascii", errors="ignore")
+			if current_track_nb in tracks:
+				tracks[current_track_nb].codec = elm_content.decode(
+				                                    "ascii", errors="ignore")
 		elif etype == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
@@ -1166,13 +1168,14 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 2: lzo1x
 			# 3: header stripping
 			algorithm = GetUInt(elm_content)
-			tracks[current_track_nb].compression_algorithm = algorithm
+			if current_track_nb in tracks:
+				tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			if current_flag:
+			if current_flag and current_track_nb in tracks:
 				tracks[current_track_nb].compression_settings = elm_content
 		elif etype == EbmlElementType.AttachedFileName:
 			elm_content = er.read_contents()
@@ -1314,6 +1317,7 @@ def profile_mp4(mp4_data,  # FileData object
 # 			print(current_track.chunk_offsets)
 
 		elif atype == b"stsc":  # Sample To Chunk Box
+			assert current_track != None
 			(entry_count,) = BE_LONG.unpack_from(data, 4)
 			for i in range(entry_count):
 				j = 8 + i * 12
@@ -1324,6 +1328,7 @@ def profile_mp4(mp4_data,  # FileData object
 				current_track.chunk_lengths.append(result_tuple)
 
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
+			assert current_track != None
 			current_track.sample_lengths.extend(
 				mp4_sample_sizes(atype, data, mr._file_length))
 # 			print(current_track.sample_lengths)
@@ -1390,6 +1395,8 @@ def stsc(samples_chunk, chunk_count=0xFFFFFFFF):
 	prev_sample_description_index = None
 	for (first_chunk, samples_per_chunk, sample_description_index) in old:
 		if first_chunk > index:
+			if prev_samples_per_chunk is None:
+				raise ValueError("The first chunk isn't described")
 			# fill between chunks
 			for i in range(index, min(first_chunk, chunk_count + 1)):
 				new.append((i, prev_samples_per_chunk,
@@ -1494,10 +1501,10 @@ def mp4_signature_bytes(track, mp4_file):
 		chunk_content = b""
 		with open(mp4_file, "rb") as mov:
 			mov.seek(chunk_offset)
-			chunk_content = mov.read(chunk_size)
+			chunk_content = mov.read(min(chunk_size,
+			                             SIG_SIZE - len(signature_bytes)))
 
-		lsig = min(SIG_SIZE, len(signature_bytes) + chunk_size)
-		signature_bytes += chunk_content[:lsig - len(signature_bytes)]
+		signature_bytes += chunk_content
 
 		previous_samples += samples_in_chunk
 		if len(signature_bytes) == SIG_SIZE:
@@ -1529,7 +1536,7 @@ def profile_wmv(wmv_data):  # FileData object
 			i = 16 + 8 + 16
 			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			psize = (o.size - len(o.raw_header)) // max(1, total_data_packets)
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
 				data = ar.read_data_part(start + i * psize, psize)
@@ -2072,7 +2079,7 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	stored = False
 	with open(srs, "wb") as movf:
-		mr = MovReader(MovReadMode.MP4, sample)
+		mr = MovReader(MovReadMode.Sample, sample)
 		while mr.read():
 			atom = mr.current_atom
 
@@ -2116,7 +2123,7 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				i = 16 + 8 + 16
 				(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 				# data packet/media object size
-				psize = (o.size - len(o.raw_header)) // total_data_packets
+				psize = (o.size - len(o.raw_header)) // max(1, total_data_packets)
 				start = o.start_pos + len(o.raw_header)
 				for i in range(total_data_packets):
 					data = ar.read_data_part(start + i * psize, psize)
@@ -2358,15 +2365,16 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 		elif er.element_type == EbmlElementType.TrackCodec:
 			# not necessary, but might be useful for debugging output
 			elm_content = er.read_contents()
-			tracks_main[current_track_nb].codec = elm_content.decode(
-			                                        "ascii", errors="ignore")
+			if current_track_nb in tracks_main:
+				tracks_main[current_track_nb].codec = elm_content.decode(
+				                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
 			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-			if header_stripping:
+			if header_stripping and current_track_nb in tracks_main:
 				tracks_main[current_track_nb].compression_settings = elm_content
 		else:
 			er.skip_contents()
@@ -2674,7 +2682,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 			(total_data_packets,) = S_LONGLONG.unpack_from(
 				o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			psize = (o.size - len(o.raw_header)) // max(1, total_data_packets)
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
 				if i % 15 == 0:
@@ -3131,15 +3139,16 @@ def mkv_extract_sample_streams(self, tracks, movie):
 		elif er.element_type == EbmlElementType.TrackCodec:
 			# not necessary, but might be useful for debugging output
 			elm_content = er.read_contents()
-			tracks_main[current_track_nb].codec = elm_content.decode(
-			                                        "ascii", errors="ignore")
+			if current_track_nb in tracks_main:
+				tracks_main[current_track_nb].codec = elm_content.decode(
+				                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
 			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-			if header_stripping:
+			if header_stripping and current_track_nb in tracks_main:
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
@@ -3258,7 +3267,7 @@ def wmv_extract_sample_streams(self, tracks, main_wmv_file):
 			i = 16 + 8 + 16
 			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			psize = (o.size - len(o.raw_header)) // max(1, total_data_packets)
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
 				# don't do unnecessary processing
@@ -3695,7 +3704,7 @@ def wmv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				i = 16 + 8 + 16
 				(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 				# data packet/media object size
-				psize = (o.osize - len(o.raw_header)) // total_data_packets
+				psize = (o.osize - len(o.raw_header)) // max(1, total_data_packets)
 				rp_offsets = 0
 				start = o.start_pos + len(o.raw_header)
 				for i in range(total_data_packets):
diff --git a/resample/mp3.py b/resample/mp3.py
index bc616dd..6fd0cda 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -293,6 +293,10 @@ class Mp3Reader(object):
 		# the order of which we add blocks doesn't matter this way
 		self.blocks.sort(key=lambda block: block.start_pos)
 
+		for block in self.blocks:
+			if block.start_pos < 0 or block.size < 0:
+				raise InvalidDataException("Invalid tag size")
+
 	def read(self):
 		for block in self.blocks:
 			self.current_block = block
diff --git a/resample/srs.py b/resample/srs.py
index 163a116..2594596 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -29,6 +29,7 @@ from __future__ import print_function
 import optparse
 import sys
 import os
+import struct
 import time
 import traceback
 
@@ -645,7 +646,7 @@ def main(argv=None, no_exit=False):
 	except InvalidPathValue as err:
 		# input path is not a file but a folder
 		pexit(8, str(err))
-	except (ValueError, AssertionError) as err:
+	except (ValueError, AssertionError, struct.error) as err:
 		# -when input file is a folder
 		# -data corruption
 		if _DEBUG:
-- 
2.43.0


From 74473d4a9d7b0b7ee19e5d27ba9203aa8af50a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 067/172] fix: MP4 main movies in RAR volumes could not be
 searched

---
 resample/main.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 892beff..0607da7 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1345,8 +1345,8 @@ def profile_mp4(mp4_data,  # FileData object
 
 			# in profile mode, we want to build track signatures
 			# TODO: skip in other modes
-			current_track.signature_bytes = mp4_signature_bytes(current_track,
-			                                                    mp4_data.name)
+			current_track.signature_bytes = mp4_signature_bytes(
+				current_track, mp4_data.name, archived_file_name)
 			# the size of the track
 			current_track.data_length = sum(current_track.sample_lengths)
 	mr.close()
@@ -1478,7 +1478,7 @@ def mp4_is_complete(tracks, file_size):
 			return False
 	return True
 
-def mp4_signature_bytes(track, mp4_file):
+def mp4_signature_bytes(track, mp4_file, archived_file_name=""):
 	"""Returns the signature bytes for a track. The signature bytes are
 	the 256 first bytes in the track."""
 	previous_samples = 0
@@ -1499,10 +1499,13 @@ def mp4_signature_bytes(track, mp4_file):
 		                 previous_samples + samples_in_chunk])
 
 		chunk_content = b""
-		with open(mp4_file, "rb") as mov:
+		mov = open_main(mp4_file, archived_file_name)
+		try:
 			mov.seek(chunk_offset)
 			chunk_content = mov.read(min(chunk_size,
 			                             SIG_SIZE - len(signature_bytes)))
+		finally:
+			mov.close()
 
 		signature_bytes += chunk_content
 
@@ -2482,12 +2485,13 @@ def _extra_offsets_x265_bug(self, er, track, track_main):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2659,7 +2663,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 			track = tracks[mtrack.track_number]
 			if not track.signature_bytes or not mtrack.signature_bytes:
 				continue  # no data to search (in)
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3225,22 +3230,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 		if not track.data_length:
 			continue
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From 3690984b60bd4eb2b84e0b5b4fa969c76463a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 068/172] fix: music files in RAR volumes were not recognized

---
 resample/main.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 0607da7..214cead 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -127,6 +127,8 @@ def file_type_info(ifile):
 
 
 	archived_file_name = ""
+	name = ifile.lower()
+	open_media = lambda: open(ifile, 'rb')
 
 	try:
 		with open(ifile, 'rb') as ofile:
@@ -138,11 +140,6 @@ def file_type_info(ifile):
 		else:
 			raise ValueError("Media file locked")
 
-	# the file is too small (probably empty)
-	# don't let this function throw an error
-	if len(marker) < 14:
-		return FileType(FileType.Unknown, archived_file_name)
-
 	if marker.startswith(MARKER_RAR) and utility.is_rar(ifile):
 		try:
 			# Read first file from the RAR archives
@@ -152,7 +149,7 @@ def file_type_info(ifile):
 				# use the first file with a supported file extension
 				# (skipping .srt and other encountered files)
 				extension = FileType.VideoExtensions + FileType.AudioExtensions
-				if archf.endswith(extension):
+				if archf.lower().endswith(extension):
 					archived_file_name = archf  # first useful file
 					break
 				first_file = False
@@ -162,8 +159,10 @@ def file_type_info(ifile):
 			if not first_file and archived_file_name:
 				print("Using %s from first RAR." % archived_file_name)
 			rs = rarstream.RarStream(ifile, archived_file_name)
-			marker = rs.read(8)
+			marker = rs.read(14)
+			name = rs.packed_file_name.lower()
 			rs.close()
+			open_media = lambda: open_main(ifile, archived_file_name)
 		except Exception as ex:
 			print(ex)
 			print("File: %s" % os.path.basename(ifile))
@@ -172,12 +171,17 @@ def file_type_info(ifile):
 		print("RAR5 not yet supported.")
 		return FileType(FileType.Unknown, archived_file_name)
 
+	# the file is too small (probably empty)
+	# don't let this function throw an error
+	if len(marker) < 14:
+		return FileType(FileType.Unknown, archived_file_name)
+
 	if marker.startswith(MARKER_MKV):
 		return FileType(FileType.MKV, archived_file_name)
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.lower().endswith(".mp3"):
+		if name.endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
@@ -195,7 +199,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_ID3):
 		# can be MP3 or FLAC
 		size = decode_id3_size(marker[6:10])
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			ofile.seek(10 + size)
 			if ofile.read(4) == b"fLaC":
 				return FileType(FileType.FLAC, archived_file_name)
@@ -209,17 +213,16 @@ def file_type_info(ifile):
 
 		# last attempt to detect an MP3 file by using the ID3v1 tag
 		# (last 128 bytes of mp3 file)
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			try:
 				ofile.seek(-128, os.SEEK_END)
 				if ofile.read(3) == b"TAG":
 					return FileType(FileType.MP3, archived_file_name)
-			except EnvironmentError:
+			except (EnvironmentError, IndexError):
 				# IOError possible when RAR file is broken
 				pass
 
 		# check for stream types based on extension and sync for M2TS
-		name = ifile.lower()
 		if name.endswith(FileType.StreamExtensions):
 			# M2TS disabled since it's not working nor completed
 			# still differences in each track
-- 
2.43.0


From bcdc7374b89945680f871e13b3a351c38cdd2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 069/172] fix: messages posted while others are printed could
 get lost

---
 rescene/srr.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 18c1f0b..5b74f20 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -72,15 +72,16 @@ class MessageThread(Thread):
 
 	def run(self):
 		while True and (not self.done or len(o.events)):
-			if len(o.events):
-				for event in o.events:
-					if event.code in self.messages or self.all:
-						# common info messages to stdout
-						if event.code in MsgCode.informative:
-							print(event.message)
-						else:
-							print(event.message, file=sys.stderr)
-				o.events = []
+			while len(o.events):
+				event = o.events[0]
+				if event.code in self.messages or self.all:
+					# common info messages to stdout
+					if event.code in MsgCode.informative:
+						print(event.message)
+					else:
+						print(event.message, file=sys.stderr)
+				# only what is printed: more can be added at any time
+				del o.events[0]
 			time.sleep(self.sleeptime)  # in seconds
 		return
 
-- 
2.43.0


From 0a619aa5617d2f241b1de6185d230ee0d207094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 070/172] fix: samples with the same name got one SRS file,
 depending on the order of the directory listing

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 50a4851..fb9597c 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -974,7 +974,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From 7f79f02f2e52bfa7c3323c6bb7a33e3282e2fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 071/172] fix: music tracks with the same name on each disc
 lost their SRS files

---
 bin/pyrescene.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index fb9597c..01b57c8 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1190,7 +1190,9 @@ def generate_srr(reldir, working_dir, options, mthread):
 		crclist = {}
 		for sfv in sfvs:
 			for sfvf in rescene.utility.parse_sfv_file(sfv)[0]:
-				crclist[sfvf.file_name.lower()] = sfvf.crc32
+				sfv_dir = os.path.dirname(os.path.relpath(sfv, reldir))
+				sfv_path = os.path.join(sfv_dir, sfvf.file_name)
+				crclist[sfv_path.lower()] = sfvf.crc32
 
 		to_remove = []
 		for stored_file in copied_files:
@@ -1200,7 +1202,10 @@ def generate_srr(reldir, working_dir, options, mthread):
 						file_type_info(stored_file).file_type)
 					srs_data, _tracks = sample.load_srs(stored_file)
 					# accept SRS if it isn't in the SFV
-					crc = int(crclist.get(srs_data.name.lower(), "-1"), 16)
+					srs_dir = os.path.dirname(
+						os.path.relpath(stored_file, working_dir))
+					srs_path = os.path.join(srs_dir, srs_data.name)
+					crc = int(crclist.get(srs_path.lower(), "-1"), 16)
 					if srs_data.crc32 != crc and crc != -1:
 						to_remove.append(stored_file)
 						logging.critical("%s: SFV verification failed for %s."
-- 
2.43.0


From 20b756073f031d00930e770d9abbe5027945d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 072/172] fix: 8 byte info files were skipped when their name
 is a part of no.nfo

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 01b57c8..5e9cd75 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -936,7 +936,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	for nfo in get_files(reldir, "*.nfo"):
 		if os.path.basename(nfo).lower() in ("imdb.nfo", "tvmaze.nfo"):
 			continue
-		if os.path.basename(nfo).lower() in ("no.nfo"):
+		if os.path.basename(nfo).lower() == "no.nfo":
 			try:
 				if os.path.getsize(nfo) == 8:
 					continue  # contains the text "no.nfo"
-- 
2.43.0


From 643190e59f5a77b5efbf82d123336c6bb06045c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 073/172] fix: a file could be mistaken for another that only
 differs in capitals

---
 rescene/utility.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 2881333..0676913 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -527,7 +527,11 @@ def capitalized_fn(afile):
 	# on Linux it could not when the capitals don't match (file name from sfv)
 	inputfn = os.path.basename(afile)
 	inputdir = os.path.dirname(afile) or os.curdir
-	for cfile in os.listdir(inputdir):
+	cfiles = os.listdir(inputdir)
+	if inputfn in cfiles:
+		# names can differ in capitals only on case sensitive file systems
+		cfiles = [inputfn]
+	for cfile in cfiles:
 		if (cfile.lower() == inputfn.lower() and
 		    os.path.isfile(os.path.join(inputdir, cfile))):
 			exact = os.path.join(inputdir, cfile)
-- 
2.43.0


From b4f55f99a6272a78d68537badfc9cccb1ca9c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 074/172] fix: a .vob sample without SRS file aborted the
 creation of the SRR

---
 bin/pyrescene.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 5e9cd75..c6ff803 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -980,6 +980,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 
 	# Create SRS files
 	for sample in media_files:
+		srs_created = False
 		# avoid copying samples
 		path = os.path.relpath(sample, reldir)
 		dest_dir = os.path.dirname(os.path.join(working_dir, path))
@@ -1012,6 +1013,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 				try:
 					srsmain([sample, "-y", "-o", srs_result, "-c", main], True)
 					copied_files.append(srs_result)
+					srs_created = True
 					found = True
 					break
 				except ValueError:
@@ -1035,6 +1037,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			try:
 				srsmain([sample, "-y", "-o", srs_result], True)
 				copied_files.append(srs_result)
+				srs_created = True
 			except ValueError as e:
 				print("SRS creation failed for %s!" % os.path.basename(sample))
 				print()
@@ -1069,7 +1072,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_result and sample.endswith(".vob"):
+		if srs_created and sample.endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From 18bb7ee44cf01bf84a789ce0eafc51a4c327421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 075/172] fix: no SRR file was made of a RAR volume with .VOB
 in capitals

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index c6ff803..c406b77 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1072,7 +1072,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_created and sample.endswith(".vob"):
+		if srs_created and sample.lower().endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From 16e5089b2e6c84e3f7940a62095604e50da678af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 076/172] fix: a file that is skipped for two reasons aborted
 the creation of the SRR

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index c406b77..bc38c8e 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1241,7 +1241,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		if os.path.basename(cfile) in options.skip_list:
 			print("Skipped over stored file: %s" % os.path.basename(cfile))
 			copied_files.remove(cfile)
-		if options.skip_regex:
+		elif options.skip_regex:
 			retestpath = os.path.relpath(cfile, working_dir)
 			if skipre.match(retestpath):
 				copied_files.remove(cfile)
-- 
2.43.0


From 415ba04185068cddced0fbdf9733cc7a8921379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 077/172] fix: --skip was ignored when --skip-list is used too

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index bc38c8e..bd7ad42 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1696,7 +1696,7 @@ def main(argv=None):
 			print("The list of files to skip, could not be found.")
 			return 1  # failure
 		with open(options.skip_file, 'r') as skiplist:
-			options.skip_list = skiplist.read().splitlines()
+			options.skip_list.extend(skiplist.read().splitlines())
 	if options.skip_regex:
 		global skipre
 		try:
-- 
2.43.0


From e5bc9e277fab3281b44c900c157bea8730dcab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 078/172] fix: releases were skipped in a folder that starts
 with the name of an other release

---
 bin/pyrescene.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index bd7ad42..224ee7b 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1298,13 +1298,12 @@ def get_release_directories(path):
 			print(dirpath)
 			print(dirnames)
 			print(filenames)
-		if (last_release in dirpath and last_release and
-			# keep release names that start with the same string,
-			# so that they won't be skipped
-			# e.g.  ReleaseName-CUTG
-			#       ReleaseName-CUTGRP
-			# (subdirs have a separator more)
-			dirpath.rfind(os.sep) != last_release.rfind(os.sep)):
+		# keep release names that start with the same string,
+		# so that they won't be skipped
+		# e.g.  ReleaseName-CUTG
+		#       ReleaseName-CUTGRP
+		# (subdirs have a separator more)
+		if last_release and dirpath.startswith(last_release + os.sep):
 			continue  # subfolders of a found release
 
 		if is_release(dirpath, dirnames, filenames):
-- 
2.43.0


From b3657a249a65d38f88de5f52953dfe67daadb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 079/172] fix: vobsub SRR creation was not skipped but aborted
 without unrar

---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 224ee7b..3b67e34 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -133,7 +133,8 @@ def get_unrar():
 	return unrar_executable
 
 def unrar_is_available():
-	return os.path.isfile(os.path.abspath(get_unrar()))
+	unrar = get_unrar()  # None when it isn't found
+	return bool(unrar) and os.path.isfile(os.path.abspath(unrar))
 
 def can_create(always_yes, path):
 	retvalue = True
-- 
2.43.0


From 4de2e26680ddc2f272da14647bfa4729c91425a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 080/172] fix: samples could not be verified when the SFV has
 other capitals than the files

---
 bin/pyrescene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 3b67e34..afda007 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1011,6 +1011,8 @@ def generate_srr(reldir, working_dir, options, mthread):
 			for mrar in main_rars:
 				print("\t%s" % mrar)
 			for main in main_rars:
+				# the SFV can have other capitals
+				main = capitalized_fn(main)[0]
 				try:
 					srsmain([sample, "-y", "-o", srs_result, "-c", main], True)
 					copied_files.append(srs_result)
-- 
2.43.0


From 2430a78a7a83ff41e2139ae80080ae75314f11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 081/172] fix: no SRR was made for vobsubs when the SFV has
 other capitals than the files

---
 bin/pyrescene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index afda007..e3e88cf 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -790,7 +790,9 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 	results = []
 
 	# get first RARs from SFV file to extract for vobsub SRR
-	first_rars = get_start_rar_files([sfv])
+	first_rars = [capitalized_fn(rar)[0]
+	              if os.path.isdir(os.path.dirname(rar)) else rar
+	              for rar in get_start_rar_files([sfv])]
 	if not len(first_rars):
 		# it was a bad SFV, but an archive with a similar same name might exist
 		sfv_base = sfv[:-4]
-- 
2.43.0


From 5fd3dbfec489e7e721097d14b92af6f2fa2b0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 082/172] fix: the location of the release folder decided which
 images and videos are stored

---
 bin/pyrescene.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index e3e88cf..73f0636 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -177,6 +177,11 @@ def get_files_list(release_dir, extension_list):
 		# TypeError: must be (buffer overflow), not str
 		return matches
 
+def release_path(afile, reldir):
+	"""Path that starts with the release name: the location of the release
+	folder itself doesn't tell anything about its files."""
+	return os.path.relpath(afile, os.path.dirname(os.path.abspath(reldir)))
+
 def get_sample_files(reldir):
 	sample_files = get_files_list(reldir, FileType.VideoExtensions)
 
@@ -185,7 +190,7 @@ def get_sample_files(reldir):
 	for sample in sample_files:
 		# sample folder or 'sample' in the name
 		# or a musicvideo file (SFV with same name)
-		if ("sample" in sample.lower() or
+		if ("sample" in release_path(sample, reldir).lower() or
 		    os.path.exists(sample[:-4] + ".sfv")):
 			result.append(sample)
 		else:
@@ -226,7 +231,7 @@ def get_proof_files(reldir, more_images=False):
 
 	result = filter_proof_image_files(
 		image_files, rar_files, reldir, more_images)
-	result += filter_proof_rar_files(rar_files)
+	result += filter_proof_rar_files(rar_files, reldir)
 
 	return result
 
@@ -235,7 +240,7 @@ def filter_proof_image_files(image_files, rar_files, reldir, more_images):
 	for proof in image_files:
 		# images in Sample, Proof and Cover(s) subdirs are ok
 		# others need to contain the word proof in their path
-		lproof = proof.lower()
+		lproof = os.sep + release_path(proof, reldir).lower()
 		if ("proof" in lproof or "sample" in lproof or
 			os.sep + "cover" in lproof or
 			os.sep + "screenshots" in lproof or
@@ -339,12 +344,13 @@ def collect_known_good_filenames(reldir, rar_files):
 				 get_files(reldir, "*.m3u") + rar_files)
 	return (os.path.basename(good_name)[:-4] for good_name in checklist)
 
-def filter_proof_rar_files(rar_files):
+def filter_proof_rar_files(rar_files, reldir):
 	include_in_srr = []
 	for proof in rar_files:
 		# RAR file must contain image file
 		# Space.Dogs.3D.2010.GERMAN.1080p.BLURAY.x264-HDViSiON (bmp proof)
-		if "proof" in proof.lower() and has_stored_proof_ext(proof):
+		if ("proof" in release_path(proof, reldir).lower() and
+			has_stored_proof_ext(proof)):
 			include_in_srr.append(proof)
 	return include_in_srr
 
-- 
2.43.0


From 928afbb4078bd6dea6244a49e26a7e4081382cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 083/172] fix: stopping the release tool left a partial SRR
 file in the output folder

---
 bin/pyrescene.py | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 73f0636..a8df2c0 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -891,7 +891,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 	sfvs = get_files(reldir, "*.sfv")
 	main_sfvs = remove_unwanted_sfvs(sfvs, reldir)
 	main_rars = get_start_rar_files(main_sfvs)
-	extra_sfvs = get_unwanted_sfvs(sfvs, main_sfvs)
 
 	# create SRR from RARs or from .mp3 or .flac SFV
 	# OR it's a fix release without sfv and main rars (just nfo; proof,... dir)
@@ -935,6 +934,36 @@ def generate_srr(reldir, working_dir, options, mthread):
 		print("No SFV files found.")
 		return False
 
+	try:
+		store_release_files(tmp_srr_name, reldir, working_dir, options, mthread,
+		                    sfvs, main_sfvs, main_rars)
+		replace_result(tmp_srr_name, srr)
+	except:  # Ctrl+C too
+		# don't leave a partially finished file
+		if os.path.isfile(tmp_srr_name):
+			os.unlink(tmp_srr_name)
+		raise
+
+	try:
+		empty_folder(working_dir)
+	except OSError as oserr:
+		mthread.wait_for_output()
+		print("Could not empty temporary working directory:")
+		print(working_dir)
+		print("This is a know problem for PyPy users.")
+		print("(And sadly others too, but less often.)")
+		# TODO: sure this isn't because of left open file handles?
+		# extracted files had read only attributes. fixed everywhere?
+		if _DEBUG:
+			print("Actual error: {0}".format(str(oserr)))
+
+	return True
+
+def store_release_files(tmp_srr_name, reldir, working_dir, options, mthread,
+                        sfvs, main_sfvs, main_rars):
+	"""Adds all small files of the release to the SRR."""
+	extra_sfvs = get_unwanted_sfvs(sfvs, main_sfvs)
+
 	# remove all stored files so we can add them all in the right order again
 	rescene.remove_stored_files(tmp_srr_name,
 		rescene.info(tmp_srr_name)["stored_files"])
@@ -1262,22 +1291,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# this can be the case when the disk isn't readable
 	rescene.add_stored_files(
 		tmp_srr_name, copied_files, working_dir, True, False)
-	replace_result(tmp_srr_name, srr)
-
-	try:
-		empty_folder(working_dir)
-	except OSError as oserr:
-		mthread.wait_for_output()
-		print("Could not empty temporary working directory:")
-		print(working_dir)
-		print("This is a know problem for PyPy users.")
-		print("(And sadly others too, but less often.)")
-		# TODO: sure this isn't because of left open file handles?
-		# extracted files had read only attributes. fixed everywhere?
-		if _DEBUG:
-			print("Actual error: {0}".format(str(oserr)))
-
-	return True
 
 def get_release_directories(path):
 	"""Generator that yields all possible release directories."""
-- 
2.43.0


From 8cecc43961408e6a0736868f78fc5452be03aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 084/172] fix: Ctrl+C was ignored while an SRR file was made of
 a .vob sample

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index a8df2c0..387035d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1138,7 +1138,7 @@ def store_release_files(tmp_srr_name, reldir, working_dir, options, mthread,
 							vobsrr, sample, tmp_srr_name=tmp_vobsrr_name)
 						replace_result(tmp_vobsrr_name, vobsrr)
 						copied_files.append(vobsrr)
-					except:
+					except Exception:
 						print("Broken RAR used as vobsample!")
 
 	# when stored SRS file instead of a sample file
-- 
2.43.0


From 927e9be8a5c7697926c10250988e4558c18dad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 085/172] fix: the RAR maker failed on files that fit in one
 volume and numbered 10, 100,... volumes with too few digits

---
 rerar/rerar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index deb3b50..f45e36a 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -66,7 +66,6 @@ import time
 import re
 import struct
 import io
-import math
 
 def main():
     # srr => Produce rescene file rather than Rar files
@@ -307,7 +306,7 @@ Try "{} help".""".format(sys.argv[0]))
     vol_count = quanta(file_size, data_max)
     if base is None:
         base = os.path.splitext(intname)[0]
-    vol_digits = 1 + int(math.log10(vol_count - 1))
+    vol_digits = len(str(vol_count))
     sfv_name = "{}.sfv".format(base)
     rls_size = 0
     
-- 
2.43.0


From 25108509e4527abd9c7c7e8ff3a8079da5acf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 086/172] fix: the RAR maker wrote without end when the volumes
 are too small for any data

---
 rerar/rerar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index f45e36a..9c08401 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -303,6 +303,8 @@ Try "{} help".""".format(sys.argv[0]))
     size_64 = size_64_encode(0, file_size)
     data_max -= file_hdr_size(name_field, xtime_field, size_64)
     
+    if data_max < 1:
+        raise SystemExit("Volume size {} is too small".format(vol_max))
     vol_count = quanta(file_size, data_max)
     if base is None:
         base = os.path.splitext(intname)[0]
-- 
2.43.0


From 44f7e14499bbca232404d3806cc60e1765ec20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 087/172] fix: the RAR maker made no volume for an empty file

---
 rerar/rerar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 9c08401..294b609 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -305,7 +305,7 @@ Try "{} help".""".format(sys.argv[0]))
     
     if data_max < 1:
         raise SystemExit("Volume size {} is too small".format(vol_max))
-    vol_count = quanta(file_size, data_max)
+    vol_count = max(1, quanta(file_size, data_max))
     if base is None:
         base = os.path.splitext(intname)[0]
     vol_digits = len(str(vol_count))
@@ -331,7 +331,7 @@ Try "{} help".""".format(sys.argv[0]))
     rls):
         start_ellipsis = True
         left = file_size
-        while left > 0:
+        for _ in range(vol_count):
             volname = "{}.{}".format(base, next(volnum))
             
             is_first_vol = volnum.is_first()
-- 
2.43.0


From 2b966407b9f61b3969425dac7a1940233b3b7b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 088/172] fix: the RAR maker named the volume after .s99 .s100

---
 rerar/rerar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 294b609..010ab26 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -1023,10 +1023,7 @@ class Numbering2(VolNumbering):
         if num < 1:
             return "rar"
         num -= 1
-        if num < 100:
-            return "r{:02}".format(num)
-        num -= 100
-        return "s{:02}".format(num)
+        return "{}{:02}".format(chr(ord("r") + num // 100), num % 100)
     
     def is_interesting(self):
         return (VolNumbering.is_interesting(self) or
-- 
2.43.0


From 41bcc8cd6678312a4fadadc56470684767dbf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 089/172] fix: no recovery records could be made with current
 versions of numpy

---
 rerar/rar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rerar/rar.py b/rerar/rar.py
index d614dff..e4ebc8b 100644
--- a/rerar/rar.py
+++ b/rerar/rar.py
@@ -377,12 +377,12 @@ if USE_NUMPY:
     class BitVector:
         def __init__(self, size):
             self.array = numpy.frombuffer(bytearray(size),
-                dtype=numpy.int)
+                dtype=numpy.int64)
         def buffer(self):
             return self.array
         def xor(self, buffer):
             return self.array.__ixor__(
-                numpy.frombuffer(buffer, dtype=numpy.int))
+                numpy.frombuffer(buffer, dtype=numpy.int64))
 else:
     class BitVector:
         def __init__(self, size):
-- 
2.43.0


From 7244e96571c313442fe1bab463c94c89c5c3ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 090/172] fix: no reference file of the RAR maker had the
 expected blocks

---
 rerar/rerar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 010ab26..02925c1 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -832,8 +832,8 @@ class Parser:
                 "Expected block CRC 0x{:04X}".format(calc_crc))
         return (pos, hdr, btype, flags)
     
-    def expect_type(self, pos, _btype, expect, name):
-        if expect != type:
+    def expect_type(self, pos, btype, expect, name):
+        if expect != btype:
             self.die(pos + HDR_TYPE_POS,
                 "Expected block type 0x{:02X} ({})".format(expect, name))
         
-- 
2.43.0


From d9cd5d51278d6f16b92750ae591205633ce46671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 091/172] fix: the RAR maker named volumes after a reference
 file .part1.part1.rar and ignored the given base name

---
 rerar/rerar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 02925c1..093c610 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -254,7 +254,10 @@ base <grp-name>
         errors) = parse_ref(ref)
         
         # grab additional properties from the file
-        base = os.path.basename(os.path.splitext(ref)[0])
+        if base is None:
+            base = os.path.basename(os.path.splitext(ref)[0])
+            if naming_version >= 3:
+                base = re.sub(r"\.part\d+$", "", base)
         vol_max = os.path.getsize(ref)
         
         # TODO: don't overwrite, rename or make copy of ref rar
-- 
2.43.0


From d29484c5e9189ff08fbed31a37a572651226f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 092/172] fix: the RAR maker announced a release size without
 the SFV header

---
 rerar/rerar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 093c610..7720486 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -917,6 +917,7 @@ class RlsWriter(DryRlsWriter):
         DryRlsWriter.sfv_add(self, vol, name)
     
     def sfv_write(self, name, head):
+        DryRlsWriter.sfv_write(self, name, head)
         with open(name, "wt", encoding="latin-1", newline="") as sfv:
             sfv.write(head.replace("\n", self.sfv_newline))
             for entry in sorted(self.sfv_entries):
-- 
2.43.0


From 35cb39a5422082370d3647c6e4fa282484067c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 093/172] fix: the RAR maker stored some times 100 nanoseconds
 too early

---
 rerar/rar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rerar/rar.py b/rerar/rar.py
index e4ebc8b..54e4edf 100644
--- a/rerar/rar.py
+++ b/rerar/rar.py
@@ -207,7 +207,9 @@ def time_encode(tm, frac=0):
 
     flags = 1 << TIME_VALID_BIT
     flags |= one_sec << TIME_ONE_BIT
-    frac = int(frac * 10 ** TIME_FRAC_DIGITS)
+    # (0.57 * 10 ** 7 is just below 5700000)
+    frac = min(round(frac * 10 ** TIME_FRAC_DIGITS),
+        10 ** TIME_FRAC_DIGITS - 1)
 
     size = TIME_FRAC_BYTES
     while size > 0:
-- 
2.43.0


From 97859c55d8ef15459b09e3f5387ae167073f3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 094/172] fix: the RAR maker overwrote its data or reference
 file when a volume has the same name

---
 rerar/rerar.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 7720486..d211f1d 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -318,14 +318,24 @@ Try "{} help".""".format(sys.argv[0]))
     if naming_version is None:
         naming_version = 3 if vol_count > 1 + 100 else 2
     if naming_version >= 3:
-        volnum = Numbering3(vol_digits)
+        numbering = lambda: Numbering3(vol_digits)
     else:
-        volnum = Numbering2()
+        numbering = Numbering2
+    volnum = numbering()
     print("Number of volumes:", vol_count, file=sys.stderr)
     
     if rls_name is None:
         rls_name = ""
-    else:
+    if not is_dryrun:
+        suffixes = [suffix for (_, suffix) in
+            zip(range(vol_count), numbering())]
+        for suffix in suffixes + ["sfv"]:
+            name = os.path.join(rls_name, "{}.{}".format(base, suffix))
+            for source in (file, ref):
+                if (source is not None and os.path.exists(name) and
+                os.path.samefile(name, source)):
+                    raise SystemExit("{} would be overwritten".format(source))
+    if rls_name:
         if not (overwrite and os.path.isdir(rls_name)):
             os.mkdir(rls_name)
     
-- 
2.43.0


From 9b0f552d8b07ff268304b48a774a7b2379febb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 095/172] fix: yEnc lines that start with two dots lost one of
 them

---
 usenet/yenc.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..55ed55a 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -219,13 +219,7 @@ def strip(data):
 	while data and not data[-1]:
 		data.pop()
 
-	# http://www.yenc.org/develop.htm
-	# the NNTP-protocol requires to double a dot in the first colum
-	# when a line is sent - and to detect a double dot (and remove one of them)
-	# when receiving a line.
-	for i in range(len(data)):
-		if data[i].startswith(b'..'):
-			data[i] = data[i][1:]
+	# the double dots at the start of lines are already removed by nntplib
 	return data
 
 """
-- 
2.43.0


From 5d220ea6a147cca1f2eeb3553ef16cbfcf5e63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 096/172] fix: only eight escaped characters of yEnc data were
 decoded

---
 usenet/yenc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 55ed55a..3ac5f2a 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -55,6 +55,12 @@ class YencException(Exception):
 
 YDEC_TRANS = bytearray(range(256 - 42, 256)) + bytearray(range(256 - 42))
 
+# any character can be escaped
+ESCAPE_RE = re.compile(b'=(.)', re.DOTALL)
+
+def unescape(match):
+	return bytes(bytearray(((bytearray(match.group(1))[0] - 64) % 256,)))
+
 def decode(data, seg_part=False, ignore_crc=False):
 	data = strip(data)
 	# No point in continuing if we don't have any data left
@@ -93,10 +99,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 				partcrc = (crc ^ -1) & 0xFFFFFFFF
 			else:
 				data = b''.join(data)
-				for i in (0, 9, 10, 13, 27, 32, 46, 61):
-					j = b'=' + bytearray((i + 64,))
-					i = bytearray((i,))
-					data = data.replace(j, i)
+				data = ESCAPE_RE.sub(unescape, data)
 				decoded_data = data.translate(YDEC_TRANS)
 				if not seg_part:
 					crc = crc32(decoded_data)
-- 
2.43.0


From 697267b59ceedd12c2a167d8e0e3fb1be22c52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 097/172] fix: yEnc files with part= or total= in their name
 could not be decoded

---
 usenet/yenc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 3ac5f2a..8afaf21 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -165,13 +165,11 @@ def yCheck(data):
 	for i in range(10):
 		try:
 			if data[i].startswith(b'=ybegin '):
-				splits = 3
-				if data[i].find(b' part=') > 0:
-					splits += 1
-				if data[i].find(b' total=') > 0:
-					splits += 1
-
-				ybegin = ySplit(data[i], splits)
+				# the name is always last and can contain anything
+				(fields, has_name, name) = data[i].partition(b' name=')
+				ybegin = ySplit(fields)
+				if has_name:
+					ybegin[b'name'] = name.strip()
 
 				if data[i + 1].startswith(b'=ypart '):
 					ypart = ySplit(data[i + 1])
-- 
2.43.0


From 06697f3003fc8022bb5c36128b1137e2231a1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 098/172] fix: short articles without yEnc data failed on an
 IndexError

---
 usenet/yenc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 8afaf21..542fb71 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -73,7 +73,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 		if not ybegin:
 			print("Non yEnc encoded data found!")
 			found = False
-			for i in range(10):
+			for i in range(min(10, len(data))):
 				if data[i].startswith(b'begin '):
 					found = True
 					break
@@ -82,7 +82,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 					data.pop(0)
 			if data[-1] == b'end':
 				data.pop()
-				if data[-1] == b'`':
+				if data and data[-1] == b'`':
 					data.pop()
 
 			decoded_data = b'\r\n'.join(data)
-- 
2.43.0


From 3dd044392763b229497831591d6a05dd40929d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 099/172] fix: articles with a damaged yEnc header were
 returned undecoded or failed on a KeyError

---
 usenet/yenc.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 542fb71..1a999c2 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -70,7 +70,9 @@ def decode(data, seg_part=False, ignore_crc=False):
 		decoded_data = None
 
 		# Deal with non-yencoded posts
-		if not ybegin:
+		if ybegin is None and yend is not None:
+			raise YencException("No =ybegin: segment data is not all there")
+		if ybegin is None:
 			print("Non yEnc encoded data found!")
 			found = False
 			for i in range(min(10, len(data))):
@@ -131,7 +133,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 
 		# '=ypart begin=400001 end=500000' line can be omitted
 		if not ypart:  # fill it in ourselves
-			ypart = {b'begin': 1, b'end': ybegin[b'size']}
+			ypart = {b'begin': 1, b'end': ybegin.get(b'size')}
 			# in this case are 2 =ybegin parameters 'missing' too:
 			# =ybegin line=128 size=3566 name=k-9-vrs.sfv
 			# part= and total= (but these are optional according to the spec)
@@ -143,16 +145,20 @@ def decode(data, seg_part=False, ignore_crc=False):
 		# {'begin': '1', 'end': '3554'},
 		# {'part': '1', 'pcrc32': '13fca903', 'size': '3554'})
 
-		return {
-			'data': decoded_data,
-			# KeyError: 'part'
-			'part_number': int(ybegin[b'part']),
-			'part_begin': int(ypart[b'begin']),  # in the the joined file
-			'part_end': int(ypart[b'end']),  # counts from 1 onwards
-			'part_size': int(ypart[b'end']) - int(ypart[b'begin']) + 1,
-			'file_size': int(ybegin[b'size']),
-			'file_name': ybegin[b'name'],
-		}
+		try:
+			return {
+				'data': decoded_data,
+				# KeyError: 'part'
+				'part_number': int(ybegin[b'part']),
+				'part_begin': int(ypart[b'begin']),  # in the the joined file
+				'part_end': int(ypart[b'end']),  # counts from 1 onwards
+				'part_size': int(ypart[b'end']) - int(ypart[b'begin']) + 1,
+				'file_size': int(ybegin[b'size']),
+				'file_name': ybegin[b'name'],
+			}
+		except (KeyError, TypeError, ValueError):
+			raise YencException("Corrupt header detected: %s %s" %
+			                    (ybegin, ypart))
 	else:
 		raise YencException("No data available to decode.")
 
-- 
2.43.0


From 54dcd5cbe9fa7f08c92a5bc99fa481a2d629d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 100/172] fix: damaged part numbers and offsets of yEnc
 articles were not noticed

---
 usenet/yenc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 1a999c2..c249cb7 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -146,7 +146,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 		# {'part': '1', 'pcrc32': '13fca903', 'size': '3554'})
 
 		try:
-			return {
+			part = {
 				'data': decoded_data,
 				# KeyError: 'part'
 				'part_number': int(ybegin[b'part']),
@@ -156,9 +156,18 @@ def decode(data, seg_part=False, ignore_crc=False):
 				'file_size': int(ybegin[b'size']),
 				'file_name': ybegin[b'name'],
 			}
+			end_number = int((yend or {}).get(b'part', part['part_number']))
 		except (KeyError, TypeError, ValueError):
 			raise YencException("Corrupt header detected: %s %s" %
 			                    (ybegin, ypart))
+
+		# the checksum doesn't cover the header lines
+		if not seg_part and not ignore_crc and (
+				part['part_size'] != len(decoded_data) or
+				part['part_number'] != end_number):
+			raise YencException("Corrupt header detected: %s %s %s" %
+			                    (ybegin, ypart, yend))
+		return part
 	else:
 		raise YencException("No data available to decode.")
 
-- 
2.43.0


From 1f33d87d4a719fde515c73b9369b2ad95fa018f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 101/172] fix: read_nzb failed on &ouml; in UTF-8 NZB files

---
 usenet/nzb_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index dcc65c2..2bc8e1a 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -48,8 +48,8 @@ def read_nzb(nzb_file):
 			nzb_end_tag = False
 			for line in bfile.readlines():
 				line = re.sub(XML_AMP_FIX, b"&amp;", line)
-				LATIN1_OUML = b"\xF6"
-				line = re.sub(b"&ouml;", LATIN1_OUML, line)
+				# a character reference is valid in every encoding
+				line = re.sub(b"&ouml;", b"&#246;", line)
 				# invalid XML characters from NewsLeecher
 				line = re.sub(b"\00", b"", line)
 				# <!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->
-- 
2.43.0


From 16afac2af19e4b66201daae639dc1a45be069a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 102/172] fix: read_nzb failed on empty NZB files

---
 usenet/nzb_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 2bc8e1a..7b230f6 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -60,13 +60,13 @@ def read_nzb(nzb_file):
 						line = b""
 				previous_line = line
 				fixed_nzb.write(line)
-			# newsmangler can omit closing nzb tag too ...
-			if not nzb_end_tag:
-				fixed_nzb.write(b"</nzb>")
 		# do not fail on empty NZB files
 		if fixed_nzb.tell() == 0:
 			print("Empty NZB file: %s" % os.path.basename(nzb_file))
 			return []
+		# newsmangler can omit closing nzb tag too ...
+		if not nzb_end_tag:
+			fixed_nzb.write(b"</nzb>")
 		fixed_nzb.seek(0)
 		return parse(fixed_nzb)
 
-- 
2.43.0


From 1931ac3811a7ba319777c4479e080115656a0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 103/172] fix: read_nzb failed on a double closing tag without
 newline at the end

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 7b230f6..0eeb044 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -56,7 +56,7 @@ def read_nzb(nzb_file):
 				# after the comment the NZB closing tag appears twice
 				if b"</nzb>" in line:
 					nzb_end_tag = True
-					if previous_line == line:
+					if previous_line.strip() == line.strip():
 						line = b""
 				previous_line = line
 				fixed_nzb.write(line)
-- 
2.43.0


From 1cc6713f1305f86dc3b2ebcfde147cf9f94e5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 104/172] fix: NZB dates could shift by an hour when the clock
 was set back

---
 usenet/nzb_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 0eeb044..706bfe7 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -172,7 +172,10 @@ def get_xml(document):
 
 def _date_to_posix(date):
 	""" date: datetime.datetime object """
-	posix = time.mktime(date.timetuple())
+	try:  # knows which one of two equal local times (DST) is meant
+		posix = date.timestamp()
+	except AttributeError:  # Python 2
+		posix = time.mktime(date.timetuple())
 	return str(int(posix))
 
 def add_file(document, nzb_file):
-- 
2.43.0


From e1e6c625b3118702f221d662f6ad19713aaa2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 105/172] fix: merging NZB files lost the first one: it was
 emptied and not written

---
 usenet/nzb_merge.py |  3 +--
 usenet/nzb_utils.py | 13 +++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index ff4fdfa..b043cf6 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -44,8 +44,7 @@ def merge_nzbs(nzbdir):
 				nzb_utils.add_file(doc, nfile)
 
 		# shortest directory name we will overwrite
-		with open(nzb_files[0], "w") as nzb:
-			nzb.write(nzb_utils.get_xml(doc))
+		nzb_utils.write_nzb(doc, nzb_files[0])
 
 		# remove other nzb files
 		for nzbfile in nzb_files[1:]:
diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 706bfe7..91df713 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -170,6 +170,19 @@ def get_pretty_xml(document):
 def get_xml(document):
 	return document.toxml("UTF-8")
 
+def write_nzb(document, nzb_file):
+	""" The existing file is kept until all new data is written. """
+	temp_file = nzb_file + ".tmp"
+	try:
+		with open(temp_file, "wb") as nzb:
+			nzb.write(get_xml(document))
+		# Python 2 doesn't have replace()
+		getattr(os, "replace", os.rename)(temp_file, nzb_file)
+	except:
+		if os.path.exists(temp_file):
+			os.remove(temp_file)
+		raise
+
 def _date_to_posix(date):
 	""" date: datetime.datetime object """
 	try:  # knows which one of two equal local times (DST) is meant
-- 
2.43.0


From b348a93f1635f1b5c111d2072aafc8cc4a1d441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 106/172] fix: nzb_merge only worked from within the directory
 to process

---
 usenet/nzb_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index b043cf6..f08f9f6 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -30,7 +30,8 @@ import nzb_utils
 
 def merge_nzbs(nzbdir):
 	nzb_files = [os.path.join(nzbdir, e) for e in os.listdir(nzbdir)
-	             if not os.path.isdir(e) and e[-4:].lower() == ".nzb"]
+	             if not os.path.isdir(os.path.join(nzbdir, e)) and
+	             e[-4:].lower() == ".nzb"]
 	if len(nzb_files) > 1:
 		nzb_files.sort(key=lambda f: len(f))
 
@@ -54,7 +55,7 @@ def merge_nzbs(nzbdir):
 def main(options, args):
 	main_dir = os.path.abspath(args[0])
 	for ldir in os.listdir(main_dir):
-		if os.path.isdir(ldir):
+		if os.path.isdir(os.path.join(main_dir, ldir)):
 			merge_nzbs(os.path.join(main_dir, ldir))
 
 if __name__ == '__main__':
-- 
2.43.0


From 8f30b1f0bf7b867ad7fd3abd2838ef8317430eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 107/172] fix: nzb_split failed on Python 3 and lost files of
 releases that aren't together

---
 usenet/nzb_split.py | 58 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index 550fca7..556e215 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -186,27 +186,16 @@ def main(options, args):
 			# no _ at beginning or end e.g. : not part of rel name
 			rel = rel.strip("_")
 
+			# nothing to name the NZB file after, or we would overwrite
+			# the file that is being split
+			if not rel or is_same_file(nzb_path(output_dir, rel), args[0]):
+				print("Failed: %s" % nzb_file.subject)
+				continue
+
 			if rel != current_rel:
-				try:
-					new = os.path.join(output_dir,
-					              current_rel.replace('"', '') + ".nzb")
-					exists = os.path.exists(new)
-					if current_rel and not exists:
-						with open(new, "w") as nzb:
-							doc = nzb_utils.empty_nzb_document()
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-					elif exists:
-						doc = nzb_utils.empty_nzb_document()
-						for nzbfile in nzb_utils.read_nzb(new):
-							nzb_utils.add_file(doc, nzbfile)
-						with open(new, "w") as nzb:
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-				except KeyError:
-					pass
+				if current_rel:
+					write_release(nzb_path(output_dir, current_rel),
+					              reldict.pop(current_rel))
 				current_rel = rel
 
 			files = reldict.setdefault(rel, [])
@@ -216,16 +205,25 @@ def main(options, args):
 			print("Failed: %s" % nzb_file.subject)
 
 	# write out last match
-	try:
-		new = os.path.join(output_dir,
-		                   current_rel.replace('"', '') + ".nzb")
-		with open(new, "w") as nzb:
-			doc = nzb_utils.empty_nzb_document()
-			for rfile in reldict.pop(current_rel):
-				nzb_utils.add_file(doc, rfile)
-			nzb.write(nzb_utils.get_xml(doc))
-	except KeyError:
-		pass
+	if current_rel:
+		write_release(nzb_path(output_dir, current_rel),
+		              reldict.pop(current_rel))
+
+def nzb_path(output_dir, release):
+	return os.path.join(output_dir, release + ".nzb")
+
+def is_same_file(a, b):
+	return os.path.realpath(a) == os.path.realpath(b)
+
+def write_release(new, nzb_files):
+	doc = nzb_utils.empty_nzb_document()
+	# the files of a release aren't always together
+	if os.path.exists(new):
+		for nzb_file in nzb_utils.read_nzb(new):
+			nzb_utils.add_file(doc, nzb_file)
+	for nzb_file in nzb_files:
+		nzb_utils.add_file(doc, nzb_file)
+	nzb_utils.write_nzb(doc, new)
 
 def grab_base_name(filename):
 	# "invandraren-walla25.sfv" (1/1)
-- 
2.43.0


From 557f8d68c3b264f32585a3e0299b4637a021fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 108/172] fix: nzb_sample_extract wrote empty NZB files on
 Python 3

---
 usenet/nzb_sample_extract.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index 5fcbf5d..b3fd6a9 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -109,8 +109,7 @@ def extract_sample(nzb_file, output_dir):
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
 			pass
-		with open(snzb_file, "w") as sample:
-			sample.write(nzb_utils.get_xml(sample_nzb))
+		nzb_utils.write_nzb(sample_nzb, snzb_file)
 
 def main(options, args):
 	def check_file(pfile):
-- 
2.43.0


From 0573c14d735019dd5eaf1ccac739e3839cc53722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 109/172] fix: nzb_sample_extract replaced its input when that
 is in the output directory

---
 usenet/nzb_sample_extract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index b3fd6a9..96e2678 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -105,6 +105,9 @@ def extract_sample(nzb_file, output_dir):
 
 	if sample_found:
 		snzb_file = os.path.join(output_dir, os.path.basename(nzb_file))
+		if os.path.realpath(snzb_file) == os.path.realpath(nzb_file):
+			print("Not overwriting the input file %s" % nzb_file)
+			return
 		try:
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
-- 
2.43.0


From 9f13bdb85325f7f41ec55cf0e3fb286bac5cc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 110/172] fix: nzb_rename replaced NZB files that got the same
 name

---
 usenet/nzb_rename.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index dd9d513..7bfc560 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -43,9 +43,11 @@ def main(options, args):
 					odir = os.path.join(output_dir, "music")
 				else:
 					odir = os.path.join(output_dir, "other")
-				shutil.move(f, odir)
-				os.rename(os.path.join(odir, nzb_file),
-						os.path.join(odir, new_name + ".nzb"))
+				new_file = os.path.join(odir, new_name + ".nzb")
+				if os.path.exists(new_file):
+					print("%s exists already." % new_file)
+					continue
+				shutil.move(f, new_file)
 			except Exception as e:
 				print(e)
 		else:
-- 
2.43.0


From 116f1f884fd0358d4e62e1ce373d0e5eea91d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 111/172] fix: nzb_rename did not create its folders when the
 first one existed

---
 usenet/nzb_rename.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index 7bfc560..879829b 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -27,12 +27,10 @@ def main(options, args):
 	output_dir = os.path.join(input_dir, "processed")
 
 	# create output folders
-	try:
-		os.mkdir(output_dir)
-		os.mkdir(os.path.join(output_dir, "music"))
-		os.mkdir(os.path.join(output_dir, "other"))
-	except:
-		pass
+	for odir in (output_dir, os.path.join(output_dir, "music"),
+	             os.path.join(output_dir, "other")):
+		if not os.path.isdir(odir):
+			os.mkdir(odir)
 
 	for nzb_file in os.listdir(input_dir):
 		f = os.path.join(input_dir, nzb_file)
-- 
2.43.0


From 00b3ce1b42aa912c0f08836e9472ee69b8e27e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 112/172] fix: nzb_age replaced NZB files with the same name

---
 usenet/nzb_age.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/usenet/nzb_age.py b/usenet/nzb_age.py
index 488cc56..2680cde 100644
--- a/usenet/nzb_age.py
+++ b/usenet/nzb_age.py
@@ -49,7 +49,11 @@ def main(options, args):
 			if start < diff.days < end:
 				if options.output_dir:
 					old = os.path.join(process_dir, nzbfile)
-					os.renames(old, os.path.join(options.output_dir, nzbfile))
+					new = os.path.join(options.output_dir, nzbfile)
+					if os.path.exists(new):
+						print("%s exists already." % new)
+					else:
+						os.renames(old, new)
 				else:
 					print(nzbfile)
 		else:
-- 
2.43.0


From 6b545b0c8e1bd54f9a0054bcdfb69b48956f77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 113/172] fix: read_nzb changed upper case hexadecimal
 character references in files it repairs

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 91df713..91e56d1 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -41,7 +41,7 @@ def read_nzb(nzb_file):
 		# Problem with the ampersand.
 		# newsmangler doesn't properly escape the & in the NZB
 		# http://www.powergrep.com/manual/xmpxmlfixentities.html
-		XML_AMP_FIX = b"&(?!(?:[a-z]+|#[0-9]+|#x[0-9a-f]+);)"
+		XML_AMP_FIX = b"&(?!(?:[a-z]+|#[0-9]+|#x[0-9a-fA-F]+);)"
 		fixed_nzb = io.BytesIO()
 		with open(nzb_file, "rb") as bfile:
 			previous_line = b""
-- 
2.43.0


From c4f0396e8a184a1c42812763300b6a9fb88f9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 114/172] fix: the expat NZB parser returned incomplete message
 ids and groups

---
 usenet/pynzb/expat_nzb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/usenet/pynzb/expat_nzb.py b/usenet/pynzb/expat_nzb.py
index 7637a17..3456506 100644
--- a/usenet/pynzb/expat_nzb.py
+++ b/usenet/pynzb/expat_nzb.py
@@ -4,6 +4,7 @@ from pynzb.base import BaseNZBParser, NZBFile, NZBSegment
 
 class ExpatNZBParser(BaseNZBParser):
     def start_element(self, name, attrs):
+        self.current_data = ''
         if name == 'file':
             self.current_file = NZBFile(
                 poster=attrs['poster'],
@@ -26,7 +27,8 @@ class ExpatNZBParser(BaseNZBParser):
             self.current_file.add_segment(self.current_segment)
 
     def char_data(self, data):
-        self.current_data = data
+        # the text of an element can come in more than one piece
+        self.current_data += data
 
     def parse(self, xml):
         self.files = []
-- 
2.43.0


From 46c106b7c42c5c5d8b3e2fb85877e4c389c6141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 115/172] fix: the expat NZB parser accepted truncated NZB
 files

---
 usenet/pynzb/expat_nzb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/pynzb/expat_nzb.py b/usenet/pynzb/expat_nzb.py
index 3456506..dfb16c7 100644
--- a/usenet/pynzb/expat_nzb.py
+++ b/usenet/pynzb/expat_nzb.py
@@ -36,5 +36,5 @@ class ExpatNZBParser(BaseNZBParser):
         parser.StartElementHandler = self.start_element
         parser.EndElementHandler = self.end_element
         parser.CharacterDataHandler = self.char_data
-        parser.Parse(xml)
+        parser.Parse(xml, True)
         return self.files
-- 
2.43.0


From 2267370295cc3cb40c255bb474071c493be948c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 116/172] fix: read_nzb lost &ouml; when lxml isn't installed

---
 usenet/nzb_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 91e56d1..b25653a 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -30,7 +30,10 @@ def read_nzb(nzb_file):
 	def parse(pnzb_file):
 		try:  # file on disk
 			with open(pnzb_file, "rb") as bfile:
-				return pynzb.nzb_parser.parse(bfile.read())
+				# not every parser fails on this unknown entity: it is skipped;
+				# a character reference is valid in every encoding
+				data = bfile.read().replace(b"&ouml;", b"&#246;")
+				return pynzb.nzb_parser.parse(data)
 		except:  # an open file object
 			return pynzb.nzb_parser.parse(pnzb_file.read())
 
-- 
2.43.0


From 88683d3f3eeb38e86140e31799744ed8589c7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 117/172] fix: reading a posted file past its end failed
 instead of returning what there is

---
 usenet/srr_usenet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 113f135..b6365ea 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -782,6 +782,8 @@ class NNTPFile(io.IOBase):
 			read_to_end = True
 			size = self._file_size - self._current_position
 			assert size > -1
+		# at most what there is
+		size = min(size, self._file_size - self._current_position)
 		# check for the last segment we need to get
 		(end_part, end_offset) = self._which_segment(
 		                             self._current_position + size)
-- 
2.43.0


From 9ca46d6fa45d7068f109e75b6915e732f4067072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 118/172] fix: a posted file missed data when a segment was
 only partly downloaded by an earlier read

---
 usenet/srr_usenet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index b6365ea..a0e99cc 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -309,6 +309,7 @@ class NNTPFile(io.IOBase):
 		self.nzb_file = nzb_file
 		self.segments = {}
 		self.data = {}  # the actual data of the segment
+		self.partial = set()  # segments that have only their first lines
 		self.group = False  # Send GROUP command before grabbing segment
 
 		self.nb_segments = 0  # highest number defined in the NZB
@@ -352,6 +353,7 @@ class NNTPFile(io.IOBase):
 		#    => it does for PS3 releases with hundreds of separate files
 
 		self.data = {}
+		self.partial = set()
 		self._file_size = 0
 		self._current_position = 0
 		self._segment_size_first = 0
@@ -558,6 +560,10 @@ class NNTPFile(io.IOBase):
 
 		self.segments[pnumber].decoded_size = dpart['part_size']
 		self.data[pnumber] = dpart['data']
+		if nb_lines > 1:
+			self.partial.add(pnumber)
+		else:
+			self.partial.discard(pnumber)
 
 	def tell(self):
 		"""Return the current stream position."""
@@ -845,6 +851,11 @@ class NNTPFile(io.IOBase):
 # 					and self._current_position > 10000000):
 					spart_offset = do_magic(spart_offset, i)
 
+			# the first lines were enough before, but all data is needed now
+			# (the first and the end segment are checked below)
+			elif i in self.partial and 1 < i < end_part:
+				self.grab_segment(self.segments[i].message_id)
+
 			# in rare cases the data array is empty
 			if not len(self.data[i]):
 				self.grab_segment(self.segments[i].message_id)
-- 
2.43.0


From 181487f98a01a0d755d7282f6bcebbd363db5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 119/172] fix: data of posted files that are no RARs wasn't
 always checked for damage

---
 usenet/srr_usenet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index a0e99cc..4c5dc08 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -814,7 +814,7 @@ class NNTPFile(io.IOBase):
 					raise IncompleteNzb("Segment %d missing!" % i)
 
 				# download not more data than necessary for RR meta data
-				if (be_efficient() and i == end_part and
+				if (be_efficient() and self.is_rar and i == end_part and
 					is_not_edge_segment(spart_nb)):
 					result = self.server.head("<%s>" % message_id)
 					lines = 0  # 'Lines: 6103'
@@ -853,7 +853,8 @@ class NNTPFile(io.IOBase):
 
 			# the first lines were enough before, but all data is needed now
 			# (the first and the end segment are checked below)
-			elif i in self.partial and 1 < i < end_part:
+			# only whole segments can be checked: no risks with other files
+			elif i in self.partial and (1 < i < end_part or not self.is_rar):
 				self.grab_segment(self.segments[i].message_id)
 
 			# in rare cases the data array is empty
-- 
2.43.0


From 3df513e6f957b142f83f3889501003fd228db9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 120/172] fix: segments of other files were accepted as the
 data of a posted file

---
 usenet/srr_usenet.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 4c5dc08..d58bec8 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -328,6 +328,7 @@ class NNTPFile(io.IOBase):
 		self.is_rar = is_rar(self.name)
 
 		self._file_size = 0
+		self._posted_as = None  # name and size, the same in all segments
 		self._current_position = 0
 		self._segment_size_first = 0
 
@@ -456,11 +457,26 @@ class NNTPFile(io.IOBase):
 
 		def decode_yenc_body(data):
 			if nb_lines > 1:  # not the full segment is grabbed
-				return _decode_yenc(data, partial_data=True,
+				part = _decode_yenc(data, partial_data=True,
 				                    crc_behaviour=self.ignore_crc_errors)
 			else:
-				return _decode_yenc(data, partial_data=False,
+				part = _decode_yenc(data, partial_data=False,
 				                    crc_behaviour=self.ignore_crc_errors)
+			check_origin(part)
+			return part
+
+		def check_origin(part):
+			"""The server can return a segment from a totally different file
+			or an other segment than the one we asked for."""
+			if nb_lines > 1 and part['file_name'] == "UNKNOWN":
+				raise yenc.YencException("No =ybegin in the first lines.")
+			if (not self._inactive and
+				(part['file_name'], part['file_size']) != self._posted_as):
+				raise yenc.YencException("Segment from a different post.")
+			number = part['part_number']
+			if (number in self.segments and
+				self.segments[number].message_id != message_id):
+				raise yenc.YencException("Not the segment asked for.")
 
 		if self.group:
 			# Send GROUP before download
@@ -530,10 +546,6 @@ class NNTPFile(io.IOBase):
 			if not ydata or not dpart:
 				print("Grab failed for <%s> (%s)" % (message_id, self.name))
 				raise
-		if self._inactive:
-			self._file_size = dpart['file_size']
-			self._inactive = False
-
 		print("Segment size: %6dB; grabbed %6dB (%s), segment number: %d" %
 				(dpart['part_size'], len(dpart['data']),
 				self.name, dpart['part_number']))
@@ -557,6 +569,14 @@ class NNTPFile(io.IOBase):
 			segments set as a previous volume. There is a large chance that
 			the segment won't exist. Pick the highest segment number. """
 			pnumber = self.nb_segments
+			for number in self.segments:
+				if self.segments[number].message_id == message_id:
+					pnumber = number
+
+		if self._inactive:
+			self._file_size = dpart['file_size']
+			self._posted_as = (dpart['file_name'], dpart['file_size'])
+			self._inactive = False
 
 		self.segments[pnumber].decoded_size = dpart['part_size']
 		self.data[pnumber] = dpart['data']
-- 
2.43.0


From 0e1b233fe9f2e1d25a57658af926b6d1165aa636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 121/172] fix: reading a posted RAR failed when the article has
 no Lines header

---
 usenet/srr_usenet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index d58bec8..e86c210 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -840,8 +840,7 @@ class NNTPFile(io.IOBase):
 					lines = 0  # 'Lines: 6103'
 					try:  # Python 3
 						# [resp, ArticleInfo(number, message_id, lines)]
-						[_resp, [_article_number, _msg_id, lines]] = result
-						headers = lines
+						[_resp, [_article_number, _msg_id, headers]] = result
 					except ValueError:  # Python < 3
 						headers = result[3]
 					for hline in headers:
-- 
2.43.0


From 9bd68c82a43f43f767dd7554b314482bbb86a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 122/172] fix: reading over more than one segment of a posted
 RAR lost data

---
 usenet/srr_usenet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index e86c210..145474b 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -821,7 +821,9 @@ class NNTPFile(io.IOBase):
 			if i not in self.data:
 				# download the segment
 				# not all the data for first segment RAR files
-				if self.is_rar and spart_nb == 1:
+				# (the segments in between are needed completely)
+				if (self.is_rar and spart_nb == 1 and
+					(i == 1 or i == end_part)):
 					amount = DEFAULT_LINES
 				else:
 					amount = -1
-- 
2.43.0


From 9785e4125a91a1b3fc490c961dabf1610a4e3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 123/172] fix: a damaged start of an article was not retried on
 the other servers

---
 usenet/srr_usenet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 145474b..921345b 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -435,7 +435,10 @@ class NNTPFile(io.IOBase):
 									except nntplib.NNTPTemporaryError as error:
 										print(error)
 							# closes socket
-							return s.body_little(article_id, nb_lines)
+							result = s.body_little(article_id, nb_lines)
+							# try the next server when there's no use for it
+							decode_yenc_body(result[3])
+							return result
 						except Exception as error:
 							print(error)
 							print("Small article not on '%s'." % server[0])
-- 
2.43.0


From eade789d0494e70698ac41f7478ea015117930c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 124/172] fix: posts with parts of different sizes were read
 wrongly

---
 usenet/srr_usenet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 921345b..47759c0 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -480,6 +480,11 @@ class NNTPFile(io.IOBase):
 			if (number in self.segments and
 				self.segments[number].message_id != message_id):
 				raise yenc.YencException("Not the segment asked for.")
+			# the segment to read from is derived from the size of the first
+			size = self._segment_size_first
+			if (not self.is_rar and size and
+				part['part_begin'] != (number - 1) * size + 1):
+				raise yenc.YencException("Parts of different sizes.")
 
 		if self.group:
 			# Send GROUP before download
-- 
2.43.0


From 8cf9a8cf7c59c27379a0b683a1491a50e56798d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 125/172] fix: damaged RAR headers were accepted from Usenet

---
 rescene/main.py      | 25 +++++++++++++++++++++----
 usenet/srr_usenet.py | 16 +++++++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index f585ade..06a754d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -642,6 +642,15 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 		_discard(srr, tmp_srr_name)
 		raise
 
+def _is_untouched(block):
+	"""Checks if the data of a RAR block is how it was written by RAR.
+	There are blocks for which we can't know."""
+	data = block.block_bytes()
+	if block.rawtype == BlockType.RarMin:
+		return data == b"Rar!\x1a\x07\x00"
+	return (len(data) == block.header_size and 
+	        block.crc == zlib.crc32(data[2:]) & 0xffff)
+
 def _rarreader_usenet(rarfile, read_retries=7):
 	"""Tries redownloading data read_retries times if it fails.
 	Regular RarReader, but handles Usenet exceptions and retries."""
@@ -652,9 +661,18 @@ def _rarreader_usenet(rarfile, read_retries=7):
 		print("Run: pip install standard-nntplib==3.13 to fix this")
 		exit(1)
 
-	rr = RarReader(rarfile)
+	def read_all():
+		blocks = RarReader(rarfile).read_all()
+		if (getattr(rarfile, "is_rar", False) and
+			not all(_is_untouched(block) for block in blocks)):
+			# parts can be damaged or it was packed this way
+			print("Reading RAR file again: no damaged segments allowed.")
+			rarfile.only_undamaged()
+			blocks = RarReader(rarfile).read_all()
+		return blocks
+
 	try:
-		return rr.read_all()
+		return read_all()
 	except (EnvironmentError, IndexError, nntplib.NNTPTemporaryError) as error:
 		# IndexError: Offset after end of file.
 		# EnvironmentError: Invalid RAR block length (9728) at offset 0xe4e1b3
@@ -676,8 +694,7 @@ def _rarreader_usenet(rarfile, read_retries=7):
 		rarfile.init_data(server_nb=stop)
 		while True:
 			try:
-				rr = RarReader(rarfile)
-				return rr.read_all()
+				return read_all()
 			except (EnvironmentError, IndexError,
 			        nntplib.NNTPTemporaryError) as error:
 				print(error)
diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 47759c0..bdc281f 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -387,6 +387,12 @@ class NNTPFile(io.IOBase):
 
 		print("--init-data--")
 
+	def only_undamaged(self):
+		"""Start again, without the special treatment of RAR files."""
+		self.init_data()
+		self.is_rar = False
+		self.ignore_crc_errors = False
+
 	def __getitem__(self, val):
 		"""Makes it subscriptable: no issues when os.path stuff or sorting
 		is used on this object. Returns slice of file name."""
@@ -875,7 +881,7 @@ class NNTPFile(io.IOBase):
 				# try to fix one (or more) byte off yEnc (CRC) errors here
 				# it's for the RR: somewhere in the file and RAR
 				# when actual size is different than advertised size
-				if i == spart_nb and is_rar(self.name):
+				if i == spart_nb and self.is_rar:
 					# minimum size split archives used is 15 million bytes
 # 					and self._current_position > 10000000):
 					spart_offset = do_magic(spart_offset, i)
@@ -896,7 +902,7 @@ class NNTPFile(io.IOBase):
 		# or a seek operation occured before this read
 		# block with 6 trailing 0-bytes exits
 		bleft = self._file_size - self._current_position
-		if (is_rar(self.name) and bleft in (20, 18, 7, 9, 11, 13, 14, 16, 26)
+		if (self.is_rar and bleft in (20, 18, 7, 9, 11, 13, 14, 16, 26)
 		                      and not self._end_magic_before):
 			# we don't want MAGIC occuring on the last bytes
 			# if we have already done the first 7 bytes
@@ -937,7 +943,7 @@ class NNTPFile(io.IOBase):
 				sys.stdout.flush()
 				self.grab_segment(self.segments[1].message_id)
 
-				if (is_rar(self.name) and
+				if (self.is_rar and
 					self.segments[1].decoded_size != len(self.data[1])):
 					spart_offset = do_magic(spart_offset, spart_nb)
 
@@ -953,7 +959,7 @@ class NNTPFile(io.IOBase):
 		#--- start file magic -------------------------------------------------
 		# handle first byte missing of RAR (never seen this yet?)
 		# will never be used because rarreader reads the 3rd byte first?
-		if is_rar(self.name) and self._current_position == 0:
+		if self.is_rar and self._current_position == 0:
 # 			print("Is RAR and reading from the start!")
 # 			print(hexlify(self.data[1][0:6]).decode('ascii'))
 			marker = b"Rar!\x1a\x07\x00"
@@ -968,7 +974,7 @@ class NNTPFile(io.IOBase):
 
 		# MAGIC for all other cases (for RAR volumes with many files)
 		# we are probably reading a rar basic header block
-		if is_rar(self.name) and size == 7 and self._did_seek:
+		if self.is_rar and size == 7 and self._did_seek:
 # 			self._current_position == 0):
 			spart_offset_after = do_magic(spart_offset, spart_nb)
 
-- 
2.43.0


From 4e8daaeb51d84795e05f1136a17cfe8d1578b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 126/172] fix: articles weren't taken from the other servers
 when the connection to the first one broke

---
 usenet/srr_usenet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index bdc281f..73c085e 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -520,7 +520,8 @@ class NNTPFile(io.IOBase):
 			# id is the message id (enclosed in '<' and '>').)
 			dpart = decode_yenc_body(ydata[3])
 			# Exception: ('CRC32 checksum failed', 2821898260L, 1224983450)
-		except (nntplib.NNTPError, yenc.YencException, yenc.CrcError) as error:
+		except (nntplib.NNTPError, yenc.YencException, yenc.CrcError,
+		        EnvironmentError, EOFError) as error:
 			print("Main server: " + str(error))
 			dpart = None
 
@@ -553,7 +554,7 @@ class NNTPFile(io.IOBase):
 						print("Article not found on '%s' either." % server[0])
 
 					s.quit()
-				except (nntplib.NNTPError, socket.error) as error:
+				except (nntplib.NNTPError, socket.error, EOFError) as error:
 					# what causes socket.error here?
 					print(error)
 					print("Connecting to '%s' failed." % server[0])
-- 
2.43.0


From fbc88abf2150e8efa552aa040e6f9b4326ff6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 127/172] fix: endless loop when data is missing at the end of
 a posted RAR

---
 usenet/srr_usenet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 73c085e..c9040af 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1003,6 +1003,7 @@ class NNTPFile(io.IOBase):
 		# 1) handle the first segment of which to get data from
 		data_begin = self.data[spart_nb][spart_offset:]
 		dsize = len(data_begin)
+		wanted = size
 		if dsize >= size:
 			self._current_position += size
 # 			print(hexlify(data_begin[:size]).decode('ascii'))
@@ -1031,6 +1032,10 @@ class NNTPFile(io.IOBase):
 
 		self._inactive = False
 # 		print(hexlify(data_begin + data).decode('ascii'))
+		if wanted and not data_begin + data:
+			# damaged segments: not the end of the file
+			raise EnvironmentError("No data at offset %d of %s." %
+			                       (self._current_position, self.name))
 		return data_begin + data
 
 	def __eq__(self, other):
-- 
2.43.0


From c66b7c0b4f0c212fdab7f7376d35347796231691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 128/172] fix: the other servers weren't asked for the last
 article

---
 usenet/srr_usenet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index c9040af..ee90409 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1105,13 +1105,13 @@ class NNTPFile(io.IOBase):
 							if self.group:
 								for group in self.nzb_file.groups:
 									try:
-										self.server.group(group)
+										s.group(group)
 										continue
 									except nntplib.NNTPTemporaryError as error:
 										pass
 										# print(error)
 
-							(resp, _nr, _id) = self.server.stat("<%s>" %
+							(resp, _nr, _id) = s.stat("<%s>" %
 								self.segments[self.nb_segments].message_id)
 							if resp.startswith("223 "):
 								s.quit()
-- 
2.43.0


From 97bdeeb425bbe2c54d62b4e4c50bbd8caf983f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 129/172] fix: a failed SRR creation from Usenet destroyed an
 existing SRR

---
 rescene/main.py      | 15 ++++++++-------
 usenet/srr_usenet.py |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 06a754d..9689e4f 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -59,6 +59,7 @@ from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn, replace_file
+from rescene.utility import create_temp_file_name
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -745,7 +746,9 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 	if not os.path.exists(spath): # TODO: test it!
 		os.makedirs(spath)
 	
-	srr = open(srr_name, "wb")
+	# an existing SRR is only replaced by a complete one
+	tmp_srr_name = create_temp_file_name(os.path.abspath(srr_name))
+	srr = open(tmp_srr_name, "wb")
 	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	class StatFailure(Exception):
@@ -881,9 +884,9 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 		# STORE OSO/ISDb HASHES
 		# Not for Usenet as we can't be 100% sure the hash will be valid
 		srr.close()
+		replace_file(tmp_srr_name, srr_name)
 	except KeyboardInterrupt:
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
+		_discard(srr, tmp_srr_name) # remove SRR as it is broken
 		raise
 	except (FileNotFound, KeyError):
 		# KeyError should not occur
@@ -891,14 +894,12 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 		  File "rescene.py", line 476, in create_srr_fh
 		    rarfile = allfiles[rarfile]
 		KeyError: u'shaolin.2011.720p.bluray.x264-soundwave.rar'"""
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
+		_discard(srr, tmp_srr_name) # remove SRR as it is broken
 		_fire(code=MsgCode.FILE_NOT_FOUND,
 			  message="Referenced file not found: %s" % rarfile)
 		raise
 	except:
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
+		_discard(srr, tmp_srr_name) # remove SRR as it is broken
 #		traceback.print_exc()
 #		raise FileNotFound("Broken file: %s" % rarfile)
 		raise
diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index ee90409..2ab9fb6 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1344,7 +1344,7 @@ def create_srr(nzb_path, options):
 
 			# unreproducable Skalman^ bug: how do you get here without
 			# creating a srr or raising an error??
-			if not os.path.isfile(srrf):
+			if not result or not os.path.isfile(srrf):
 				# it failed on STAT!
 
 # 				print("SHOW ME THIS!!!")
-- 
2.43.0


From 0b950afa14fa84c2571b3bf828e1037736f61183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 130/172] fix: a connection lost after creating the SRR was
 reported as a failure

---
 usenet/srr_usenet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 2ab9fb6..193a401 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1403,7 +1403,10 @@ def create_srr(nzb_path, options):
 			print("SRR file ======== CREATED ========.")
 		else:
 			print("NOTHING created.")
-		server.quit()  # socket.timeout: timed out
+		try:
+			server.quit()  # socket.timeout: timed out
+		except (EnvironmentError, EOFError, nntplib.NNTPError) as error:
+			print(error)  # it has no influence on the result
 	return result
 
 def create_srr_nzbmove(nzb_file):
-- 
2.43.0


From 208ab7c81d73a25fe2d0aa3fe03d05b04fd4a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 131/172] fix: an edited SRR file lost its access permissions

---
 rescene/main.py | 2 ++
 rescene/rar.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 9689e4f..044d172 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -342,6 +342,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #							 "Zero files added.")
 		tmpfile.close()
 		# original srr file is replaced by the temp file
+		shutil.copymode(srr_file, tmpname)
 		replace_file(tmpname, srr_file)
 	except:
 		_discard(tmpfile, tmpname)
@@ -375,6 +376,7 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
+		shutil.copymode(srr_file, tmpname)
 		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
diff --git a/rescene/rar.py b/rescene/rar.py
index daa5ab3..65c1b18 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -41,6 +41,7 @@ from __future__ import absolute_import, print_function, division
 import io
 import struct
 import os
+import shutil
 import sys
 import tempfile
 from binascii import hexlify
@@ -675,6 +676,7 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 					tmpfile.write(self.block_bytes()) # new block header
 					f.seek(old_file_offset) # go to beginning stored file
 					tmpfile.write(f.read()) # read all data until EOF
+			shutil.copymode(self.fname, tmpname)
 			utility.replace_file(tmpname, self.fname)
 		except:
 			if os.path.isfile(tmpname):
-- 
2.43.0


From 108e2cbc593f4556cc029a0b46b3b5d50ed6927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 132/172] fix: merging SRR files into one of them destroyed it

---
 rescene/main.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 044d172..68629ca 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -444,18 +444,26 @@ def merge_srrs(srr_files, output_file, application_name=None):
 				other_blocks.append(block)
 			
 	# write the gathered data in the correct order
-	with open(output_file, "wb") as new:
-		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
-		
-		# all stored files in the beginning after the header
-		for sblock in stored_files:
-			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
-		
-		# everything else in the same order as the original file
-		for block in other_blocks:
-			new.write(block.block_bytes())
-			#TODO: this is skipping data in some less common cases?
+	# the output file can be one of the files that are still read here
+	tmp_name = create_temp_file_name(os.path.abspath(output_file))
+	try:
+		with open(tmp_name, "wb") as new:
+			new.write(SrrHeaderBlock(appname=application_name).block_bytes())
+			
+			# all stored files in the beginning after the header
+			for sblock in stored_files:
+				new.write(sblock.block_bytes())
+				new.write(sblock.srr_data())
+			
+			# everything else in the same order as the original file
+			for block in other_blocks:
+				new.write(block.block_bytes())
+				#TODO: this is skipping data in some less common cases?
+		replace_file(tmp_name, output_file)
+	except BaseException:
+		if os.path.isfile(tmp_name):
+			os.unlink(tmp_name)
+		raise
 
 def create_srr(srr_name, infiles, in_folder="",
                store_files=None, save_paths=False, compressed=False,
-- 
2.43.0


From e90a4b8bc38ddf7d31bbd910275bdf3ec95a6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 133/172] fix: files outside the input folder were stored with
 their path to it

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 68629ca..7a4f154 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1669,7 +1669,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name.split(os.sep)[0] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From 6d8d7f1924270ffe61af10fcfc037b4428f183b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 134/172] fix: the same name was stored twice when its file was
 given by another path

---
 rescene/main.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7a4f154..e16fb24 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -278,11 +278,18 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 	if rr.file_type() != RarReader.SRR:
 		raise NotSrrFile("Not an SRR file.")
 	
+	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
+	new_names = []
+	if not usenet:
+		found_files = list(_search(store_files, in_folder))
+		new_names = [os.path.normpath(_stored_name(f, save_paths, in_folder))
+		             for f in found_files]
+
 	if _DEBUG: print("Checking for dupes before adding files.")
 	for block in rr.read_all():
 		if block.rawtype == BlockType.SrrStoredFile:
 			existing = block.os_file_name()
-			if existing in store_files:
+			if existing in store_files or existing in new_names:
 				msg = "There already is a file with the same name stored."
 				_fire(MsgCode.DUPE, message=msg)
 				if usenet:
@@ -296,7 +303,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 							 dir=os.path.dirname(srr_file))
 	tmpfile = os.fdopen(tmpfd, "wb")
 
-	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
 	location = False # whether we've added the files or not
 	if _DEBUG: print("Reading blocks for adding files.")
 	try:
@@ -306,7 +312,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 				location = True
 				if not usenet:
 					amount_added = 0
-					for f in _search(store_files, in_folder):
+					for f in found_files:
 						_store(f, tmpfile, save_paths, in_folder)
 						amount_added += 1
 					if not amount_added:
@@ -326,7 +332,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 		if not location: # music video SRR file: add to end
 			if not usenet:
 				amount_added = 0
-				for f in _search(store_files, in_folder):
+				for f in found_files:
 					_store(f, tmpfile, save_paths, in_folder)
 					amount_added += 1
 				if not amount_added:
@@ -1655,8 +1661,8 @@ def _flag_check_srr(block):
 			  "flag value encountered in SRR file. This file may use features "
 			  "not supported in this version of the application.")
 		
-def _store(sfile, stream, save_paths, in_folder):
-	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+def _stored_name(sfile, save_paths, in_folder):
+	"""Returns the name that the file will have in the SRR file."""
 	file_name = os.path.basename(sfile)
 	if save_paths:  # AttributeError: 'NoneType' object has no attr...
 		try:
@@ -1676,7 +1682,11 @@ def _store(sfile, stream, save_paths, in_folder):
 			file_name = os.path.basename(sfile)
 			msg = "WARNING: No path stored for file: %s"
 			_fire(MsgCode.MSG, message=msg % fsunicode(file_name))
-	file_name = fsunicode(file_name)
+	return fsunicode(file_name)
+
+def _store(sfile, stream, save_paths, in_folder):
+	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+	file_name = _stored_name(sfile, save_paths, in_folder)
 	_fire(MsgCode.STORING, message="Storing file: %s" % file_name)
 	
 	block = SrrStoredFileBlock(file_name=file_name, 
-- 
2.43.0


From 253cb927c343342d1aa5c4879f45cdcf3120028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:20 +0000
Subject: [PATCH 135/172] fix: an SRR was made for a proof archive with a name
 in capitals

The RAR file of a proof is stored itself. The name of the SFV file was
compared with those of the stored files without regard to capitals on only
one side.
---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 387035d..d2cc3ce 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1177,7 +1177,8 @@ def store_release_files(tmp_srr_name, reldir, working_dir, options, mthread,
 			skip = False
 			# not for Proof RARs that are already stored inside the SRR
 			for cfile in copied_files:
-				if cfile.endswith((os.path.basename(esfv)[:-3] + "rar")):
+				if cfile.lower().endswith(
+					os.path.basename(esfv)[:-3].lower() + "rar"):
 					skip = True
 					break
 			# not for dirfix releases moved to the main folder
-- 
2.43.0


From 9fb2385e8427f142ada0ac7a8e2cb282053bf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 136/172] fix: creating an SRR changed the list of the caller,
 and lost SFV files relative to another folder

---
 rescene/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index e16fb24..b888884 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -519,7 +519,10 @@ def create_srr(srr_name, infiles, in_folder="",
 		# We store copies of any files included in the store_files list 
 		# in the .srr using a "store block".
 		# Any SFV files used are also included.
-		store_files.extend([f for f in infiles if f[-4:].lower() == ".sfv"])
+		# (in a new list: the one of the caller stays the same)
+		# (these can be relative to another folder than in_folder)
+		store_files = list(store_files) + [os.path.abspath(f) for f in infiles
+		                                   if f[-4:].lower() == ".sfv"]
 		
 		if not len([_store(f, srr, save_paths, in_folder)
 					for f in _search(store_files, in_folder)]):
-- 
2.43.0


From e1359536dc67213d2787e0007d561db6dfaab0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 137/172] fix: a volume of two input files was put in the SRR
 twice

---
 rescene/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index b888884..0f5a6bc 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -540,10 +540,14 @@ def create_srr(srr_name, infiles, in_folder="",
 				rarfiles.extend(_handle_rar(infile))
 	
 		oso_dict = odict()
+		processed = set()
 		# STORE ARCHIVE BLOCKS
 		for rarfile in rarfiles:
 			# take into account case sensitivity on Unix systems
 			(rfexact, rfcapitals) = capitalized_fn(rarfile)
+			if os.path.abspath(rfexact) in processed:
+				continue  # a volume of more than one input file
+			processed.add(os.path.abspath(rfexact))
 			if not os.path.isfile(rfexact):
 				# all lower in sfv and casings in RAR file names
 				msg = "Referenced file not found: %s" % rfexact
-- 
2.43.0


From 4bb599e2c24838fcb148b39b13464ea0d274c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 138/172] fix: volumes outside the base folder got a name with
 '..' in the SRR

---
 rescene/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 0f5a6bc..9d965d9 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -554,8 +554,7 @@ def create_srr(srr_name, infiles, in_folder="",
 				_fire(code=MsgCode.FILE_NOT_FOUND, message=msg)
 				raise FileNotFound(msg)
 	
-			fname = os.path.relpath(rfcapitals, in_folder) if save_paths  \
-				else os.path.basename(rfcapitals)
+			fname = _stored_name(rfcapitals, save_paths, in_folder)
 			_fire(MsgCode.MSG, message="Processing file: %s" % fname)
 			
 			rarblock = SrrRarFileBlock(file_name=fname)
-- 
2.43.0


From 2b8be4d7809057e894492ef3396452a6a261340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 139/172] fix: starting from a later .partNN.rar volume made an
 incomplete SRR

---
 rescene/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 9d965d9..52e03b7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -975,6 +975,7 @@ def _handle_rar(rfile, filelist=None, read_retries=7):
 			return robject
 		
 	is_old_style_naming = False
+	not_first = False
 	
 	# RarReader(rfile) closes the file -> was problem with NNTPFiles
 	for block in _rarreader_usenet(rfile, read_retries):
@@ -994,8 +995,11 @@ def _handle_rar(rfile, filelist=None, read_retries=7):
 			#	raise ValueError("You must start with the first volume "
 			#	                 "from a RAR set.")
 			is_old_style_naming = not bool(block.flags & block.NEW_NUMBERING) 
+			part = re.match(r".*\.part(\d+)\.rar$", str(filename(rfile)), re.I)
+			not_first = (not is_old_style_naming and part is not None and
+			             int(part.group(1)) > 1)
 			
-	if first_rars([filename(rfile)]) != [filename(rfile)]:
+	if not_first or first_rars([filename(rfile)]) != [filename(rfile)]:
 		raise ValueError("You must start with the first volume from a RAR set.")
 			
 	next_file = filename(rfile)
-- 
2.43.0


From 49e18bbd9f561962c234af9a16f2f2e964866271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 140/172] fix: the wildcards for files to store did not work
 when creating an SRR

---
 rescene/main.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 52e03b7..b393903 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1730,21 +1730,28 @@ def _search(files, folder=""):
 	folder:	 location to search for files when
 	         paths are relative in files parameter
 	"""
-	folder = escape_glob(folder)
+	listed = set()
 
 	for file_name in files:
-		file_name = escape_glob(file_name)
 		# use path relative to folder if the path isn't relative or absolute 
 		if (os.path.isabs(file_name) or file_name.startswith(os.pardir)):
-			search_name = file_name
+			search_name = pattern = file_name
 		else:
 			search_name = os.path.join(folder, file_name)
+			pattern = os.path.join(escape_glob(folder), file_name)
 		found = False
 		
-		for found_file in glob(search_name):
+		# a file with exactly this name comes before the wildcards
+		if os.path.exists(search_name):
+			pattern = escape_glob(search_name)
+		for found_file in sorted(glob(pattern)):
 			if os.path.isfile(found_file):
 				found =  True
-				yield found_file
+				# the same file can be found in more than one way
+				location = os.path.abspath(found_file)
+				if location not in listed:
+					listed.add(location)
+					yield found_file
 		if not found:
 			_fire(MsgCode.FILE_NOT_FOUND, message="File(s) not found: '%s'. "
 				  "Continuing with searching for other files." % search_name)
-- 
2.43.0


From 9590196ccff3c34abbdeabac8829ea7adbe6bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 141/172] fix: srr -d made a file without a name when the
 folder ends with a separator

---
 rescene/srr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 5b74f20..ca03fd3 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -356,8 +356,9 @@ def create_srr(options, infolder, infiles, working_dir):
 
 	if not srr_name:
 		if options.parent:  # -d
-			srr_name = os.path.join(out_folder,
-		                        os.path.split(infolder)[-1] + ".srr")
+			# abspath: the folder can end with a separator or be "."
+			parent_name = os.path.basename(os.path.abspath(infolder))
+			srr_name = os.path.join(out_folder, parent_name + ".srr")
 		else:
 			srr_name = os.path.join(out_folder,
 								os.path.basename(infiles[0])[:-4] + ".srr")
-- 
2.43.0


From f38e54c67cbca51a4908638959eb1b902d88aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 142/172] fix: retag stopped at the first SRS that isn't of a
 music file

---
 bin/retag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..5d59b30 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -95,7 +95,8 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			print(str(e))
 			failures += 1
 		finally:
-			os.remove(out)
+			if os.path.isfile(out):
+				os.remove(out)
 
 	print("\n\n%d/%d files succeeded. %d failure%s. %s" % (
 		successes, failures + successes, failures,
-- 
2.43.0


From 1c88c29895cd6e789f32135138b3ef2f8208382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 143/172] fix: retag always ended with an error code

---
 bin/retag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/retag.py b/bin/retag.py
index 5d59b30..d472fcd 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -46,6 +46,7 @@ class NoTaggingAvailable(Exception):
 	pass
 
 def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
+	"""Returns True when all the music tracks of the SRR are fixed."""
 	if not srr_file.endswith(".srr"):
 		raise AttributeError("The first parameter must be an SRR file.")
 	if not os.path.isdir(input_dir):
@@ -64,6 +65,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 	successes = 0
 	failures = 0
 	skips = 0
+	aborted = 0
 	srs_files = []
 	for sfile in stored_files.keys():
 		if sfile.endswith(".srs"):
@@ -79,6 +81,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		if not ok:
 			# file extraction failed or existing .srs not overwritten
 			print("Attempt to fix track aborted.")
+			aborted += 1
 			continue
 		try:
 			success = fix_tagging(out, output_dir, input_dir, always_yes)
@@ -103,6 +106,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if failures == 1 else "s",
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
+	return not failures and not aborted
 
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
-- 
2.43.0


From 322f35db21ab7e7a5c85441a5dcc36efef5df797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 144/172] fix: retag left tracks out when the extension of
 their SRS is in capitals

---
 bin/retag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index d472fcd..68dacaf 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -47,7 +47,7 @@ class NoTaggingAvailable(Exception):
 
 def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 	"""Returns True when all the music tracks of the SRR are fixed."""
-	if not srr_file.endswith(".srr"):
+	if not srr_file.lower().endswith(".srr"):
 		raise AttributeError("The first parameter must be an SRR file.")
 	if not os.path.isdir(input_dir):
 		raise AttributeError("The input location must be a directory.")
@@ -68,7 +68,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 	aborted = 0
 	srs_files = []
 	for sfile in stored_files.keys():
-		if sfile.endswith(".srs"):
+		if sfile.lower().endswith(".srs"):
 			srs_files.append(sfile)
 		else:
 			print("Extracting %s" % sfile)
-- 
2.43.0


From 14e48a963bd835ec0f85f870e35da9385809b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 145/172] fix: retag mixed up tracks with the same name in
 different folders

---
 bin/retag.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 68dacaf..31664b9 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -72,12 +72,12 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			srs_files.append(sfile)
 		else:
 			print("Extracting %s" % sfile)
-			rescene.extract_files(srr_file, output_dir, True, sfile)
+			extract_one(srr_file, output_dir, sfile)
 
 	# fix music files that can be found
 	for srs in srs_files:
 		print("Using %s" % srs)
-		(out, ok) = rescene.extract_files(srr_file, output_dir, True, srs)[0]
+		(out, ok) = extract_one(srr_file, output_dir, srs)
 		if not ok:
 			# file extraction failed or existing .srs not overwritten
 			print("Attempt to fix track aborted.")
@@ -108,6 +108,12 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 	    	(skips, "" if skips == 1 else "s")))
 	return not failures and not aborted
 
+def extract_one(srr_file, output_dir, stored_name):
+	"""Extracts the stored file with exactly this name.
+	(extract_files() looks for a bare name in all folders)"""
+	return rescene.extract_files(srr_file, output_dir, True,
+	                             matcher=lambda name: name == stored_name)[0]
+
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
 	srs: srs file location
@@ -126,12 +132,13 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
 
-	musicf = join_fix_case(input_dir, original_name)
+	# the place in the release goes first: discs can have the same track names
 	out_subfolder = os.path.dirname(os.path.relpath(srs, output_dir))
+	srr_path = out_subfolder.split("/")
+	srr_path.append(original_name)
+	musicf = join_fix_case(input_dir, *srr_path)
 	if not os.path.isfile(musicf):
-		srr_path = out_subfolder.split("/")
-		srr_path.append(original_name)
-		musicf = join_fix_case(input_dir, *srr_path)
+		musicf = join_fix_case(input_dir, original_name)
 		if not os.path.isfile(musicf):
 			print("Track not found")
 			raise ValueError("not found")
-- 
2.43.0


From 51570b18c27f87cc8b538bcff8887339bf263c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 146/172] fix: retag -n still asked to replace tracks

---
 bin/retag.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 31664b9..204ea12 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -45,7 +45,8 @@ from resample.main import file_type_info, sample_class_factory, FileType
 class NoTaggingAvailable(Exception):
 	pass
 
-def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
+def fix_tracks(srr_file, input_dir, output_dir, always_yes=False,
+               always_no=False):
 	"""Returns True when all the music tracks of the SRR are fixed."""
 	if not srr_file.lower().endswith(".srr"):
 		raise AttributeError("The first parameter must be an SRR file.")
@@ -84,7 +85,8 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			aborted += 1
 			continue
 		try:
-			success = fix_tagging(out, output_dir, input_dir, always_yes)
+			success = fix_tagging(out, output_dir, input_dir, always_yes,
+			                      always_no)
 			if success:
 				successes += 1
 			else:
@@ -114,12 +116,13 @@ def extract_one(srr_file, output_dir, stored_name):
 	return rescene.extract_files(srr_file, output_dir, True,
 	                             matcher=lambda name: name == stored_name)[0]
 
-def fix_tagging(srs, output_dir, input_dir, always_yes):
+def fix_tagging(srs, output_dir, input_dir, always_yes, always_no=False):
 	"""Fixes the meta data tags of a music track.
 	srs: srs file location
 	output_dir: root dir of the fixed release
 	input_dir: location to find the track to be fixed
 	always_yes: when to always confirm replacements
+	always_no: when to never replace a track
 	"""
 	try:
 		srs_info = get_srs_info(srs)
@@ -145,6 +148,9 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	print("From %s" % musicf)
 
 	out_location = os.path.join(output_dir, out_subfolder)
+	if always_no and os.path.isfile(os.path.join(out_location, original_name)):
+		print("Track already exists (not replaced)")
+		raise ValueError("not replaced")
 	srs_parameters = [srs, musicf, "-o", out_location]
 	if always_yes:
 		srs_parameters.append("-y")
@@ -243,7 +249,7 @@ def main(argv=None):
 
 	try:
 		if fix_tracks(args[0], options.input_dir, options.output_dir,
-		              options.always_yes):
+		              options.always_yes, options.always_no):
 			return 0
 		else:
 			return 1
-- 
2.43.0


From 66513a367f16f0994c322c97d884bff52e1b7e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 147/172] fix: rebuild one volume: no checksum warning for a
 member that ends without data

A volume that only has the empty rest of a packed file was compared with the
checksum of no data.
---
 rescene/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index b393903..a27bbb8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1437,7 +1437,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			assert srcfs
 			
 			# make sure the offset is correct
-			if partial_reconstruction and block.packed_size > 0:
+			if partial_reconstruction and (block.packed_size > 0
+				or block.flags & block.SPLIT_BEFORE):
 				if crc_offset != part_offset:
 					if (skip_rar_crc or block.is_compressed()
 						or block.flags & block.SPLIT_AFTER):
-- 
2.43.0


From 037bd333c99fd875910cbaf78cd8f1a7ab4a5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 148/172] fix: srs -o with a bare file name was refused

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 2594596..6deb9b5 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -325,7 +325,7 @@ def main(argv=None, no_exit=False):
 				else:
 					samp = os.path.basename(sample_file).rsplit(".", 1)
 					srs_name = os.path.join(out_folder, samp[0] + ext)
-			srsdir = os.path.dirname(srs_name)
+			srsdir = os.path.dirname(os.path.abspath(srs_name))
 			if not os.path.exists(srsdir):
 				pexit(1, "Output directory does not exist: %s\n" %
 				         srsdir, False)
-- 
2.43.0


From a0087ec59e3ce57fbb3a41d0cd4c7ec489a33cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 149/172] fix: srr took an SRR file with an upper case
 extension for something to create from

---
 rescene/srr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index ca03fd3..f2ae2d7 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -606,7 +606,7 @@ WARNING: SRR files for compressed RARs are like SRS files:
 		if options.input_base:  # -i
 			infolder = options.input_base
 
-		if infiles[0].endswith(".srr"):
+		if infiles[0].lower().endswith(".srr"):
 			parser.exit(manage_srr(options, infolder, infiles, working_dir))
 		else:
 			parser.exit(create_srr(options, infolder, infiles, working_dir))
-- 
2.43.0


From 113c99f636104f86486200347d7911c7b056c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 150/172] fix: srs_batch -n never made any SRS file

---
 bin/srs_batch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/srs_batch.py b/bin/srs_batch.py
index 97fbbe2..0ecfa09 100644
--- a/bin/srs_batch.py
+++ b/bin/srs_batch.py
@@ -56,6 +56,11 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	print(sample_dir)
 	dest_dir = os.path.join(output_dir, path)
 	sample = os.path.join(sample_dir, sample_file)
+	srs = os.path.join(dest_dir, os.path.splitext(sample_file)[0] + ".srs")
+
+	if keep and os.path.isfile(srs):
+		print("Not overwriting {0}".format(srs))
+		return
 
 	if not os.path.isdir(dest_dir):
 		os.makedirs(dest_dir)
@@ -65,8 +70,7 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	sys.stderr = open(txt_error_file, "wt")
 	keep_txt = False
 	try:
-		overwrite_param = "" if keep else "-y"
-		srsmain([sample, overwrite_param, "-o", dest_dir], True)
+		srsmain([sample, "-y", "-o", dest_dir], True)
 	except ValueError:
 		keep_txt = True
 
-- 
2.43.0


From 472a45dfa681bd4544bd3a2eb63dde71f000bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 151/172] fix: srr_sort -t never found SRR files with two NFO
 files

---
 bin/srr_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index b89efff..705baa6 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -73,8 +73,8 @@ def check_repack(srr_file):
 	return False
 
 def check_nfos(srr_file):
+	nfo_count = 0
 	for block in RarReader(srr_file):
-		nfo_count = 0
 		if (block.rawtype == BlockType.SrrStoredFile and
 			block.file_name[-4:].lower() == ".nfo"):
 			nfo_count += 1
-- 
2.43.0


From 4fcca669f8ccf3a665368b1849535ffcd63d8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 152/172] fix: srr_sort missed images: .jpeg, upper case,
 stored after a proof

---
 bin/srr_sort.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index 705baa6..c172e54 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -54,12 +54,12 @@ def check_empty(srr_file):
 	return True
 
 def check_image(srr_file, noproof):
-	images = (".jpg", ".png", ".bmp", ".gif", "jpeg")
+	images = (".jpg", ".png", ".bmp", ".gif", ".jpeg")
 	for block in RarReader(srr_file):
 		if (block.rawtype == BlockType.SrrStoredFile and
-			os.path.splitext(block.file_name)[1] in images):
+			os.path.splitext(block.file_name)[1].lower() in images):
 			if noproof and "proof" in block.file_name.lower():
-				return False
+				continue
 			return True
 	return False
 
-- 
2.43.0


From 4c324f839ffae37021cb642d7bc1ae93bc85abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 153/172] fix: srr_sort -o overwrote an SRR file with the same
 name

---
 bin/srr_sort.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index c172e54..24af6f0 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -175,7 +175,10 @@ def check(srr_file):
 			print("Moving %s." % srr_file)
 			srr_name = os.path.basename(srr_file)
 			# move the SRR to the given directory
-			os.renames(srr_file, os.path.join(options.output_dir, srr_name))
+			dest = os.path.join(options.output_dir, srr_name)
+			if os.path.exists(dest):
+				raise ValueError("%s already exists." % dest)
+			os.renames(srr_file, dest)
 		if result:
 			print(os.path.basename(srr_file))
 	except (EnvironmentError, Exception) as err:
-- 
2.43.0


From 5a2025fd63dc6d3fccf2b803b7fcad9802bad7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 154/172] fix: srr_sort found nothing in folders with brackets
 or with upper case extensions

---
 bin/srr_sort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index 24af6f0..3975775 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -29,7 +29,6 @@ from __future__ import division
 import optparse
 import sys
 import os
-import glob
 import re
 
 try:
@@ -189,9 +188,10 @@ def check(srr_file):
 def main(options, args):
 	for element in args:
 		if os.path.isdir(element):
-			for srr_file in glob.iglob(element + "/*.srr"):
-				check(srr_file)
-		elif os.path.isfile(element) and element.endswith(".srr"):
+			for srr_name in sorted(os.listdir(element)):
+				if srr_name.lower().endswith(".srr"):
+					check(os.path.join(element, srr_name))
+		elif os.path.isfile(element) and element.lower().endswith(".srr"):
 			check(element)
 		else:
 			print("WTF are you supplying me?")
-- 
2.43.0


From 55f09cf5cfe32a0013330ab599fc657a4557e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 155/172] fix: srr_sort -m failed on numbered volumes

---
 bin/srr_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index 3975775..a18458d 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -128,7 +128,7 @@ def check(srr_file):
 			if options.multiple:
 				sets = []
 				for f in info["rar_files"]:
-					ms = "^(.*?)(.part\d+.rar|(.[rstuv]\d\d|.rar))$"
+					ms = "^(.*?)(.part\d+.rar|(.[rstuv]\d\d|.\d{3}|.rar))$"
 					base = re.match(ms, f, re.IGNORECASE).group(1)
 					if not base in sets:
 						sets.append(base)
-- 
2.43.0


From 1095d97c4b7ed3887c66db232df5e09896c0b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 156/172] fix: srr_extract_srs left out SRS files with an upper
 case extension

---
 bin/srr_extract_srs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/srr_extract_srs.py b/bin/srr_extract_srs.py
index 8509fec..09a5a27 100644
--- a/bin/srr_extract_srs.py
+++ b/bin/srr_extract_srs.py
@@ -41,14 +41,14 @@ def main(options, args):
 	srr = args[0]
 	output_folder = args[1]
 
-	if not srr.endswith(".srr"):
+	if not srr.lower().endswith(".srr"):
 		raise AttributeError("The first parameter must be an SRR file.")
 	if not os.path.isdir(output_folder):
 		raise AttributeError("The second attribute must be a directory.")
 
 	srs_files = []
 	for sfile in rescene.info(srr)["stored_files"].keys():
-		if sfile.endswith(".srs"):
+		if sfile.lower().endswith(".srs"):
 			srs_files.append(sfile)
 
 	for srs in srs_files:
-- 
2.43.0


From 10e9242c30fd7b46daf2184b91ba8ce29b3a6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 157/172] fix: emptying a folder with a link in it emptied the
 folder linked to

---
 rescene/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 0676913..574c336 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -411,7 +411,9 @@ def empty_folder(folder_path):
 		file_object_path = os.path.join(folder_path, file_object)
 		if os.name == "nt" and win32api_available:
 			file_object_path = win32api.GetShortPathName(file_object_path)
-		if os.path.isfile(file_object_path):
+		# links are never followed: what they point to is not ours
+		if (os.path.isfile(file_object_path) or
+			os.path.islink(file_object_path)):
 			os.unlink(file_object_path)
 		else:
 			try:
@@ -426,7 +428,7 @@ def remove_folder(path):
 	names = os.listdir(path)
 	for name in names:
 		fullname = os.path.join(path, name)
-		if os.path.isdir(fullname):
+		if os.path.isdir(fullname) and not os.path.islink(fullname):
 			remove_folder(fullname)
 		else:
 			try:
-- 
2.43.0


From d35e54a147e98812564d1ff531738b26336eadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 158/172] fix: files of solid compressed sets were compared
 with the wrong size and name

---
 rescene/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index a27bbb8..8b28f78 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2611,20 +2611,21 @@ class CompressedRarFile(io.IOBase):
 					RETURNCODE[compress.returncode])
 	
 			self.rarstream = RarStream(out, compressed=True,
-				packed_file_name=os.path.basename(self.source_files[-1]))
+				packed_file_name=os.path.basename(source_file))
 		compress()
 		
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
 		# need 4 threads
-		if self.rarstream.length() != block.packed_size:
+		packed_size = get_full_packed_size(block, self.blocks)
+		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
-			while(self.rarstream.length() != block.packed_size and 
+			while(self.rarstream.length() != packed_size and 
 				self.good_rar.supports_setting_threads() and
 				self.good_rar.args.increase_thread_count(self.good_rar)):
 				compress()
 			
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 73900289ef1acf0f771b3ddfc5ffafa056fa6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 159/172] fix: sets made by RAR 2.0 could not be rebuilt

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 8b28f78..7b31367 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2541,7 +2541,7 @@ class CompressedRarFile(io.IOBase):
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
 			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From d9f437f5ade1c0eb3a699cec65d0a103afbfc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 160/172] fix: the packed data of a renamed file was looked up
 by the wrong name

---
 rescene/main.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7b31367..a4e2dd7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2346,10 +2346,8 @@ class CompressedRarFile(io.IOBase):
 		out = os.path.join(self.temp_dir, self.COMPRESSED_NAME)
 		try:
 			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(first_block.file_name))
+				packed_file_name=os.path.basename(src))
 		except AttributeError:
-			# -r parameter is used to find the file to compress
-			# that renamed file is inside the RAR
 			# we "don't know" the packed file name; try the first file
 			self.rarstream = RarStream(out, compressed=True)
 			
-- 
2.43.0


From 3e62ac83f120c8e2562aaf16dc012ec4df41673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 161/172] fix: rebuilding a solid compressed set left temporary
 folders behind

---
 rescene/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index a4e2dd7..91e1418 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2119,8 +2119,6 @@ def compressed_rar_file_factory(block, blocks, src,
 		regular_method_failed.set_file(block)
 		return regular_method_failed
 	
-	global working_temp_dir
-	working_temp_dir = get_temp_directory()
 	try:
 		blocks_all = blocks
 		blocks = get_archived_file_blocks(blocks, block)
@@ -2277,6 +2275,7 @@ class CompressedRarFile(io.IOBase):
 		self.solid = solid 
 		
 		global working_temp_dir
+		working_temp_dir = get_temp_directory()
 		self.temp_dir = working_temp_dir
 		
 		# make sure there is a RarRepository
-- 
2.43.0


From f79b8548a3b1f69eaac38b4ebddcd67d4a27af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 162/172] fix: volumes made by RAR 2.0 were always reported as
 damaged

---
 rescene/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 91e1418..f990f75 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1649,8 +1649,11 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 		def running_crc_fail():
 			return block.file_crc != running_crc & 0xffffffff
 
+		# Rar 2.0x has no CRC for the data in the volume: 0xFFFFFFFF
+		no_crc = block.is_compressed() and block.file_crc == 0xffffffff
 		# CRC check of file in the volume (last volume is across all of them)
-		if not file_end() and block.file_crc != file_crc & 0xffffffff:
+		if (not file_end() and not no_crc
+			and block.file_crc != file_crc & 0xffffffff):
 			msg = "CRC mismatch in RAR volume: %s" % rarfs.name
 			_fire(MsgCode.CRC, message=msg)
 			print("%08x %08x" % (block.file_crc, file_crc & 0xffffffff), 
-- 
2.43.0


From 37734f85d635e620d49c8ceee0eab3a6902f1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 163/172] fix: volumes that begin inside a compressed file
 could not be rebuilt on their own

---
 rescene/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index f990f75..35e8909 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1378,6 +1378,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				or not block.flags & block.SPLIT_BEFORE):
 				packed_name = block.file_name
 				packed_offset = 0
+				first_part = block
 			part_offset = packed_offset
 			packed_offset += block.packed_size
 			
@@ -1417,8 +1418,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 							_fire(MsgCode.MSG,
 								message="Trying to rebuild compressed file %s."
 								% block.file_name)
-							srcfs = get_rar_data_object(block, blocks, src,
-										in_folder, hints, auto_locate_renamed)
+							srcfs = get_rar_data_object(first_part, blocks,
+								src, in_folder, hints, auto_locate_renamed)
 							compressed_block_encountered = srcfs
 						else:  # uncompressed file
 							srcfs = open(src, "rb")
-- 
2.43.0


From b3cb9185904d67212e0796e5d17fa8d3c8405694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 164/172] fix: a compressed file with the name of one in
 another set got its data

---
 rescene/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 35e8909..09e7124 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1400,8 +1400,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			# (an other set can have a stored file with the same name)
 			if (srcfs is None
 				or source_name != block.file_name
-				or (block.compression_method == COMPR_STORING and
-				    not block.flags & block.SPLIT_BEFORE)
+				or not block.flags & block.SPLIT_BEFORE
 				or (partial_reconstruction and not partial_set)):
 				try: srcfs.close()
 				except: pass
@@ -1843,9 +1842,10 @@ def temp_folder_cleanup():
 	
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-	rar_object = archived_files.setdefault(block.file_name,
-		compressed_rar_file_factory(block, blocks, src, in_folder, hints,
-		                            auto_locate_renamed))
+	rar_object = compressed_rar_file_factory(block, blocks, src, in_folder,
+		                                     hints, auto_locate_renamed)
+	# an other set can have a file with the same name
+	archived_files[block.file_name] = rar_object
 	return rar_object
 
 def initialize_rar_repository(location):
-- 
2.43.0


From 3c8f4cd80f27804230f70effa79efcb89a758271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 165/172] fix: a second rebuild of compressed files used what
 was left of the first

---
 rescene/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 09e7124..a0adaae 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1291,6 +1291,12 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	if rar_mt:
 		RarArguments.mt_settings = rar_mt
 	
+	# nothing of an earlier rebuild must be used
+	global archived_files, regular_method_failed, working_temp_dir
+	archived_files = {}
+	regular_method_failed = False
+	working_temp_dir = None
+	
 	skip_volume = False # helps to reconstruct a single volume
 	packed_name = None # packed file of the previous block
 	packed_offset = 0  # where its next part starts
@@ -1423,7 +1429,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						else:  # uncompressed file
 							srcfs = open(src, "rb")
 							if compressed_block_encountered:
-								global archived_files
 								archived_files.setdefault(block.file_name,
 									UncompressedRarFile(block, src,
 									    compressed_block_encountered))
-- 
2.43.0


From fb4e769f5ec6ef3dac20ea79fb2431730f405fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 166/172] fix: with all files packed at once, another set's
 files were looked up in the first set

---
 rescene/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index a0adaae..682f4ce 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2125,8 +2125,12 @@ def compressed_rar_file_factory(block, blocks, src,
 	                            in_folder, hints, auto_locate_renamed):
 	global regular_method_failed
 	if regular_method_failed:
-		regular_method_failed.set_file(block)
-		return regular_method_failed
+		if block in regular_method_failed.blocks:
+			regular_method_failed.set_file(block)
+			return regular_method_failed
+		# the file is from another set
+		temp_folder_cleanup()
+		regular_method_failed = False
 	
 	try:
 		blocks_all = blocks
-- 
2.43.0


From 769fe34109a16aee5f5f1c298f2a5ecd47ecd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 167/172] fix: packing all files at once failed for renamed
 files

---
 rescene/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 682f4ce..a751b96 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2785,10 +2785,12 @@ class CompressedRarFileAll(io.IOBase):
 		rar_settings.args.set_split(volume)
 		rar_settings.args.rar_archive = os.path.join(self.temp_dir, 
 		                                             self.COMPRESSED_NAME)
+		self.names = {} # the files can be renamed
 		for block in blocks:
 			if block.packed_size != 0: # files and no directories
-				rar_settings.args.store_all_files.append(
-					_locate_file(block, *search_options))
+				src = _locate_file(block, *search_options)
+				self.names[block.file_name] = os.path.basename(src)
+				rar_settings.args.store_all_files.append(src)
 		self.good_rar = rar_settings
 		
 		self.compress_files()
@@ -2820,7 +2822,7 @@ class CompressedRarFileAll(io.IOBase):
 		if not (block.flags & RarPackedFileBlock.DIRECTORY 
 		    == RarPackedFileBlock.DIRECTORY):
 			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(block.file_name))
+				packed_file_name=self.names[block.file_name])
 			self.rarstream.seek(0, os.SEEK_END)
 			# test if file size match, otherwise try compressing again
 			if get_full_packed_size(block, 
-- 
2.43.0


From 69a6a15339b9d2aa317254da150cc75d254553c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 168/172] fix: a failed rebuild of a solid set left its
 temporary folder behind

---
 rescene/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rescene/main.py b/rescene/main.py
index a751b96..afa37a1 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2636,6 +2636,7 @@ class CompressedRarFile(io.IOBase):
 				compress()
 			
 		if self.rarstream.length() != packed_size:
+			self.close()
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 95f126007fb0458ae2122380507a322a1d92878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 169/172] fix: only the first of the SRS files with the same
 name was looked at

---
 bin/srs_bad.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/srs_bad.py b/bin/srs_bad.py
index 6a5da42..9add5e7 100644
--- a/bin/srs_bad.py
+++ b/bin/srs_bad.py
@@ -66,10 +66,13 @@ def handle_srr(srr_file, options, temporary_directory):
 			printout.add(stored_file)
 
 	if extracting_needed:
-		extract_files(srr_file, temporary_directory, extract_paths=False)
 		for value in srrinfo["stored_files"].values():
 			fn = basename(value.file_name)
 			if fn.endswith(".srs"):
+				# one at a time: they can have the same name
+				empty_folder(temporary_directory)
+				extract_files(srr_file, temporary_directory, False,
+				              matcher=lambda name: name == value.file_name)
 				srsf = join(temporary_directory, fn)
 				ft = file_type_info(srsf).file_type
 				if ft not in [FileType.MP3, FileType.FLAC]:
-- 
2.43.0


From d1aa05ed24188742204671a47219572f93febc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:29 +0000
Subject: [PATCH 170/172] fix: SRS and error files with capitals in their
 extension were not looked at

---
 bin/srs_bad.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/srs_bad.py b/bin/srs_bad.py
index 9add5e7..c6d1d32 100644
--- a/bin/srs_bad.py
+++ b/bin/srs_bad.py
@@ -59,16 +59,17 @@ def handle_srr(srr_file, options, temporary_directory):
 
 	# check txt files/check if extraction is needed
 	for stored_file in srrinfo["stored_files"].keys():
-		if stored_file.endswith(".srs") and options.verify:
+		lname = stored_file.lower()
+		if lname.endswith(".srs") and options.verify:
 			extracting_needed = True
-		elif (stored_file.endswith(".txt") and stored_file[:-4].endswith((
+		elif (lname.endswith(".txt") and lname[:-4].endswith((
 			".mp3", ".flac", ".mkv", ".mp4", ".avi", ".wmv"))) and options.txt:
 			printout.add(stored_file)
 
 	if extracting_needed:
 		for value in srrinfo["stored_files"].values():
 			fn = basename(value.file_name)
-			if fn.endswith(".srs"):
+			if fn.lower().endswith(".srs"):
 				# one at a time: they can have the same name
 				empty_folder(temporary_directory)
 				extract_files(srr_file, temporary_directory, False,
-- 
2.43.0


From f1451b7fdb2fe8209e497eba88216062a066fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:48 +0000
Subject: [PATCH 171/172] fix: one file that is no good RAR installer stopped
 the preparation of the others

---
 bin/preprardir.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/preprardir.py b/bin/preprardir.py
index 9d035c0..e768dcc 100644
--- a/bin/preprardir.py
+++ b/bin/preprardir.py
@@ -121,7 +121,12 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 		elif not options.enable_beta and tag.beta:
 			continue
 		archive_name = os.path.join(source, fname)
-		date, name = get_rar_date_name(archive_name)
+		try:
+			date, name = get_rar_date_name(archive_name)
+		except (ValueError, KeyError, EOFError, EnvironmentError,
+			tarfile.TarError):
+			# damaged, RAR5 or no installer: does not stop the others
+			date, name = None, None
 		if date and name:
 			if tarfile.is_tarfile(archive_name):
 				new_name = date + "_rar%s" % tag
-- 
2.43.0


From 99ee071948b585093504d13fdb247b412485283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:56 +0000
Subject: [PATCH 172/172] fix: preparing RAR versions replaced or moved the
 files of a rar folder in the output folder

---
 bin/preprardir.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/bin/preprardir.py b/bin/preprardir.py
index e768dcc..188b3da 100644
--- a/bin/preprardir.py
+++ b/bin/preprardir.py
@@ -33,6 +33,7 @@ import os
 import re
 import subprocess
 import shutil
+import tempfile
 import tarfile
 from contextlib import closing  # used for tarfile on Python 2.6
 
@@ -128,28 +129,28 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 			# damaged, RAR5 or no installer: does not stop the others
 			date, name = None, None
 		if date and name:
+			# not straight to dest: other files can be there
+			tmp = tempfile.mkdtemp(prefix="preprardir-", dir=dest)
 			if tarfile.is_tarfile(archive_name):
 				new_name = date + "_rar%s" % tag
 				print("Extracting %s..." % new_name, end=" ")
-				with closing(tarfile.open(archive_name)) as tf:
-					exe = tf.getmember("rar/rar")
-					tf.extract(exe, path=dest)
-					try:
-						os.rename(os.path.join(dest, "rar", "rar"),
-						          os.path.join(dest, new_name))
-						print("done.")
-					except:  # WindowsError: # [Error 183]
-						# ERROR_ALREADY_EXISTS
-						os.unlink(os.path.join(dest, "rar", "rar"))
-						print("failed.")
-					os.rmdir(os.path.join(dest, "rar"))
+				try:
+					with closing(tarfile.open(archive_name)) as tf:
+						exe = tf.getmember("rar/rar")
+						tf.extract(exe, path=tmp)
+					os.rename(os.path.join(tmp, "rar", "rar"),
+					          os.path.join(dest, new_name))
+					print("done.")
+				except Exception:  # WindowsError: # [Error 183]
+					# ERROR_ALREADY_EXISTS or a damaged file
+					print("failed.")
 			else:
 				new_name = date + "_rar%s.exe" % tag
 				if ".sfx" in fname:
 					# no extension for Linux executables
 					new_name = new_name[:-4]
 				print("Extracting %s..." % new_name, end=" ")
-				args = [unrar, "e", archive_name, name, dest]
+				args = [unrar, "e", archive_name, name, tmp]
 				extract = custom_popen(args)
 				if extract.wait() in (0, 1):
 					# Error code 1: when there is some corruption in the file
@@ -158,7 +159,7 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 					try:
 						# for rarln271.sfx and others
 						name = os.path.basename(name)
-						os.rename(os.path.join(dest, name),
+						os.rename(os.path.join(tmp, name),
 								  os.path.join(dest, new_name))
 						if extract.wait() == 1:
 							print("done. (Non fatal error(s) occurred)")
@@ -166,17 +167,10 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 							print("done.")
 					except:  # WindowsError: # [Error 183]
 						# ERROR_ALREADY_EXISTS
-						os.unlink(os.path.join(dest, name))
 						print("failed.")
 				else:
 					print(RETURNCODE[extract.wait()])
-					# not sure the following is necessary
-					# but if the file is extracted to disk,
-					# remove it so the next steps can continue successfully
-					try:
-						os.unlink(os.path.join(dest, name))
-					except:
-						pass
+			shutil.rmtree(tmp, ignore_errors=True)
 		else:
 			print("error: %s" % fname)
 
-- 
2.43.0

