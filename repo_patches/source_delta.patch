From 5484b06503033bd72ed5558d32160b04a40e9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 01/58] fix: print bytes >= 0x80 of a bigram as their unsigned
 octal value

---
 bench/Bigram.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bench/Bigram.cpp b/bench/Bigram.cpp
index 3925ebc..914d005 100644
--- a/bench/Bigram.cpp
+++ b/bench/Bigram.cpp
@@ -23,9 +23,10 @@
  * \\ for \, \" for ", c if c is printable, \0octal otherwise
  */
 void toPrintableString(char c, std::string& result) {
-  if (!std::isprint(c)) {
+  const unsigned char uc = static_cast<unsigned char>(c);
+  if (!std::isprint(uc)) {
     char buf[10];
-    snprintf(buf, sizeof(buf), "\\0%o", c);
+    snprintf(buf, sizeof(buf), "\\0%o", uc);
     result.append(buf);
     return;
   }
-- 
2.43.0


From 8132aa00722f849afeb8b442b6d8989939ec0701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 02/58] fix: wdt_gen_stats -wrap reports no pair for an empty
 input

---
 bench/wdtStats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/wdtStats.cpp b/bench/wdtStats.cpp
index cbd83c6..f926f3f 100644
--- a/bench/wdtStats.cpp
+++ b/bench/wdtStats.cpp
@@ -70,7 +70,7 @@ int main(int argc, char** argv) {
     ++map[b];
     prev = c;
   }
-  if (FLAGS_wrap) {
+  if (FLAGS_wrap && first >= 0) {
     Bigram wrap(prev, first);
     ++map[wrap];
   }
-- 
2.43.0


From e66f49e600a65c78883bc29fe32073f16d202b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 03/58] fix: wdt_gen_files ignores an incomplete last
 statistics entry

---
 bench/wdtGenFiles.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 32e3b5f..04615dd 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -313,7 +313,9 @@ void deserialize(std::vector<PairBigramCount>& statsData, std::istream& sin) {
       break;
     }
     uint32_t count = 0;
-    sin.read(reinterpret_cast<char*>(&count), sizeof(count));
+    if (sin.read(reinterpret_cast<char*>(&count), sizeof(count)).fail()) {
+      break;
+    }
     statsData.emplace_back(b, count);
   }
 }
-- 
2.43.0


From 558c46c3a2d8e762d7f4e8b98c2917f6ca91d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 04/58] fix: wdt_gen_files leaves no stale tail of an earlier
 larger file

---
 bench/wdtGenFiles.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 04615dd..618b30a 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -372,7 +372,8 @@ int main(int argc, char** argv) {
             << " data * " << numThreads << " thread), " << blockSz
             << " at a time";
   LOG(INFO) << "Writting to " << FLAGS_filename;
-  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY, 0644);
+  const int fd =
+      open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
   if (fd < 0) {
     PLOG(FATAL) << "Unable to open " << FLAGS_filename;
   }
-- 
2.43.0


From 9fe519695b81b12a53c47db8e5fa6d16a77592e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 05/58] fix: wdt_gen_files -start as long as a block and ending
 in a dead end

---
 bench/wdtGenFiles.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 618b30a..ae1055e 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -250,8 +250,10 @@ class SentenceGen {
     if (!initDone) {
       previous = initial(gen);
     }
-    result.push_back(previous[0]);
-    generate(gen, result, len - 1, previous);
+    if (len > 0) {
+      result.push_back(previous[0]);
+      generate(gen, result, len - 1, previous);
+    }
     return previous;
   }
 
-- 
2.43.0


From deff44c66d33cfb5b1d6b85f7ecb6ce3635b495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 06/58] fix: send the chunk info of a file which does not fit
 in one buffer

Entries larger than the buffer were skipped without being counted, so later
entries were sent twice or the receiver looped forever sending empty lists;
an entry of exactly the buffer size also made no progress.
---
 Protocol.cpp       | 30 +++++++++++++++++++++++++++---
 ReceiverThread.cpp |  7 +++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index f6e36db..298be31 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -421,12 +421,36 @@ int64_t Protocol::encodeFileChunksInfoList(
     const FileChunksInfo& fileChunksInfo = fileChunksInfoList[i];
     int64_t maxLength = maxEncodeLen(fileChunksInfo);
     if (maxLength + oldOffset > bufSize) {
-      WLOG(WARNING) << "Chunk info for " << fileChunksInfo.getFileName()
+      // Can not fit even in an empty buffer. The receiving side expects one
+      // entry per file, so the entry is still sent, but only with the chunks
+      // which fit (the sender will send the data of the other ones again).
+      if (off != oldOffset) {
+        break;
+      }
+      std::string fileName = fileChunksInfo.getFileName();
+      FileChunksInfo partialInfo(fileChunksInfo.getSeqId(), fileName,
+                                 fileChunksInfo.getFileSize());
+      int64_t partialLength = maxEncodeLen(partialInfo) + oldOffset;
+      for (const auto& chunk : fileChunksInfo.getChunks()) {
+        partialLength += kMaxChunkEncodeLen;
+        if (partialLength > bufSize) {
+          break;
+        }
+        partialInfo.addChunk(chunk);
+      }
+      WLOG(WARNING) << "Chunk info for " << fileName
                     << " can not be encoded in a buffer of size " << bufSize
-                    << ", Ignoring.";
+                    << ", sending only " << partialInfo.getChunks().size()
+                    << " out of " << fileChunksInfo.getChunks().size()
+                    << " chunks.";
+      if (!encodeFileChunksInfo(dest, off, bufSize, partialInfo)) {
+        off = oldOffset;
+        break;
+      }
+      numEncoded++;
       continue;
     }
-    if (maxLength + off >= bufSize) {
+    if (maxLength + off > bufSize) {
       break;
     }
     encodeFileChunksInfo(dest, off, bufSize, fileChunksInfo);
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..0565276 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -786,10 +786,9 @@ ReceiverState ReceiverThread::sendFileChunks() {
           return ACCEPT_WITH_TIMEOUT;
         }
         int64_t numEntriesWritten = 0;
-        // we try to encode as many chunks as possible in the buffer. If a
-        // single
-        // chunk can not fit in the buffer, it is ignored. Format of encoding :
-        // <data-size><chunk1><chunk2>...
+        // we try to encode as many chunks as possible in the buffer. If the
+        // chunks of a single file can not fit in the buffer, only some of them
+        // are sent. Format of encoding : <data-size><chunk1><chunk2>...
         while (numEntriesWritten < numParsedChunksInfo) {
           off = sizeof(int32_t);
           int64_t numEntriesEncoded = Protocol::encodeFileChunksInfoList(
-- 
2.43.0


From e7e2e02dca29bd7f735a9c34e16cbc178ce126ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 07/58] fix: remaining chunks of a file end at its current size

Received chunks lying beyond the given size produced ranges outside the file.
---
 Protocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index 298be31..41a48f2 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -95,10 +95,14 @@ std::vector<Interval> FileChunksInfo::getRemainingChunks(int64_t curFileSize) {
   std::vector<Interval> remainingChunks;
   int64_t curStart = 0;
   for (const auto& chunk : chunks_) {
+    if (chunk.start_ >= curFileSize) {
+      // file is smaller than before
+      break;
+    }
     if (chunk.start_ > curStart) {
       remainingChunks.emplace_back(curStart, chunk.start_);
     }
-    curStart = chunk.end_;
+    curStart = std::max(curStart, chunk.end_);
   }
   if (curStart < curFileSize) {
     remainingChunks.emplace_back(curStart, curFileSize);
-- 
2.43.0


From 62f72648e7be3909e9a36a8b6ab5701f7abc8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 08/58] fix: reject a url with more ports than exist

num_ports=2147483647 made parsing the url run out of memory.
---
 WdtTransferRequest.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 34a6f6c..0986702 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -413,6 +413,11 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       WLOG(ERROR) << "Couldn't convert num ports " << numPortsStr;
       errorCode = URI_PARSE_ERROR;
     }
+    if (numPorts > 65535) {
+      WLOG(ERROR) << "Num ports is more than the number of ports there are "
+                  << numPorts;
+      errorCode = URI_PARSE_ERROR;
+    }
   }
   if (errorCode == OK) {
     ports = WdtTransferRequest::genPortsVector(startPort, numPorts);
-- 
2.43.0


From 9555d43b5e2f3c6979493e3d75d20c494ccda5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 09/58] fix: merge the minimum of counters

Merging into an empty counter left the minimum (and the maximum of negative
values) at 0, and the real minimum was neither merged nor reset.
---
 util/Stats.cpp | 14 +++++++++++---
 util/Stats.h   |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 5a4d504..021010f 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -69,12 +69,20 @@ void Counter::record(int64_t v) {
 }
 
 void Counter::merge(const Counter& c) {
-  // merge count_, min_, max_, sum_, sumOfSquares_;
+  // merge count_, realMin_, min_, max_, sum_, sumOfSquares_;
+  if (c.count_ == 0) {
+    return;
+  }
+  const bool wasEmpty = (count_ == 0);
   count_ += c.count_;
-  if (c.min_ && c.min_ < min_) {
+  if (wasEmpty || c.realMin_ < realMin_) {
+    realMin_ = c.realMin_;
+  }
+  // like in record(), 0s don't count in the min
+  if (wasEmpty || (c.min_ && ((min_ == 0) || (c.min_ < min_)))) {
     min_ = c.min_;
   }
-  if (c.max_ > max_) {
+  if (wasEmpty || c.max_ > max_) {
     max_ = c.max_;
   }
   sum_ += c.sum_;
diff --git a/util/Stats.h b/util/Stats.h
index 82b4347..95907c5 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -205,7 +205,7 @@ class Counter : crashifcopied {
    * resets all the data (not quite thread safe - see ThreadLocalHistogram)
    */
   inline void reset() {
-    count_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
+    count_ = realMin_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
   }
 
   /**
-- 
2.43.0


From cd82b26e4c63c6ebf29193e5f8faf12273619e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 10/58] fix: percentiles of negative values stay within the
 recorded range

---
 util/Stats.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 021010f..9794752 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -181,14 +181,12 @@ double Histogram::calcPercentile(double percentile) const {
   if (percentile <= 0) {
     return getRealMin();
   }
-  // Initial value of prev should in theory be offset_
-  // but if the data is wrong (smaller than offset - eg 'negative') that
-  // yields to strangeness (see one bucket test)
-  int64_t prev = 0;
   int64_t total = 0;
   const int64_t ctrTotal = getCount();
   const int64_t ctrMax = getMax();
   const int64_t ctrMin = getRealMin();
+  // The first bucket has no lower bound (it also has data smaller than offset_)
+  int64_t prev = ctrMin;
   double prevPerc = 0;
   double perc = 0;
   bool found = false;
-- 
2.43.0


From b3a5beacc9ce1e3a4720005bedee7913d6415609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 11/58] fix: minimum of performance statistics is right for
 every type

---
 Reporting.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 78ebfb2..113888b 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -372,6 +372,9 @@ PerfStatReport::PerfStatReport(const WdtOptions& options) {
       "Mismatch between number of stat types and number of descriptions");
   networkTimeoutMillis_ =
       std::min<int>(options.read_timeout_millis, options.write_timeout_millis);
+  // the initializer in the class sets only the first element
+  std::fill(std::begin(minValueMicros_), std::end(minValueMicros_),
+            std::numeric_limits<int64_t>::max());
 }
 
 /**
-- 
2.43.0


From 0f3c7d36d16fb00c45a87fee75ce3bcd63ad277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 12/58] fix: a mismatch found while summing stats keeps a more
 significant error

---
 Reporting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 113888b..bb68453 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -37,7 +37,7 @@ TransferStats& TransferStats::operator+=(const TransferStats& stats) {
     WLOG_IF(ERROR, localErrCode_ == OK)
         << "Mismatch in the numBlocksSend " << numBlocksSend_ << " "
         << stats.numBlocksSend_;
-    localErrCode_ = ERROR;
+    localErrCode_ = getMoreInterestingError(localErrCode_, ERROR);
   }
   if (totalSenderBytes_ == -1) {
     totalSenderBytes_ = stats.totalSenderBytes_;
@@ -46,7 +46,7 @@ TransferStats& TransferStats::operator+=(const TransferStats& stats) {
     WLOG_IF(ERROR, localErrCode_ == OK)
         << "Mismatch in the total sender bytes " << totalSenderBytes_ << " "
         << stats.totalSenderBytes_;
-    localErrCode_ = ERROR;
+    localErrCode_ = getMoreInterestingError(localErrCode_, ERROR);
   }
   localErrCode_ = getMoreInterestingError(localErrCode_, stats.localErrCode_);
   WVLOG(2) << "Local ErrorCode now " << localErrCode_ << " from "
-- 
2.43.0


From da00291b9fb219490f415c94ef43469685cf309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 13/58] fix: a given start port implies static ports for every
 option type

---
 WdtOptions.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/WdtOptions.cpp b/WdtOptions.cpp
index 24c05c7..9574a72 100644
--- a/WdtOptions.cpp
+++ b/WdtOptions.cpp
@@ -42,9 +42,7 @@ void WdtOptions::modifyOptions(
                             msg)
     CHANGE_IF_NOT_SPECIFIED(resume_using_dir_tree, userSpecifiedOptions, true,
                             msg)
-    return;
-  }
-  if (optionType != FLASH_OPTION_TYPE) {
+  } else if (optionType != FLASH_OPTION_TYPE) {
     WLOG(WARNING) << "Invalid option type " << optionType
                   << ". Valid types are " << FLASH_OPTION_TYPE << ", "
                   << DISK_OPTION_TYPE;
-- 
2.43.0


From 0952ca0c76ff50ee44a734aa9359fab52ea32096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 14/58] fix: a fractional block size splits files instead of
 disabling blocks

---
 util/DirectorySourceQueue.cpp | 5 +++--
 util/DirectorySourceQueue.h   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..7e27a42 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -75,7 +75,7 @@ void DirectorySourceQueue::setPruneDirPattern(const string& pruneDirPattern) {
   pruneDirPattern_ = pruneDirPattern;
 }
 
-void DirectorySourceQueue::setBlockSizeMbytes(int64_t blockSizeMbytes) {
+void DirectorySourceQueue::setBlockSizeMbytes(double blockSizeMbytes) {
   blockSizeMbytes_ = blockSizeMbytes;
 }
 
@@ -488,7 +488,8 @@ void DirectorySourceQueue::createIntoQueueInternal(SourceMetaData* metadata) {
   // block size once negotiated, since blocksize is sort of fixed.
   auto& fileSize = metadata->size;
   auto& relPath = metadata->relPath;
-  int64_t blockSizeBytes = blockSizeMbytes_ * 1024 * 1024;
+  int64_t blockSizeBytes =
+      static_cast<int64_t>(blockSizeMbytes_ * 1024 * 1024);
   bool enableBlockTransfer = blockSizeBytes > 0;
   if (!enableBlockTransfer) {
     WVLOG(2) << "Block transfer disabled for this transfer";
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..34bec8b 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -160,7 +160,7 @@ class DirectorySourceQueue : public SourceQueue {
   void setFileInfoGenerator(WdtTransferRequest::FileInfoGenerator gen);
 
   /// @param blockSizeMbytes    block size in Mbytes
-  void setBlockSizeMbytes(int64_t blockSizeMbytes);
+  void setBlockSizeMbytes(double blockSizeMbytes);
 
   /// Get the file info in this directory queue
   std::vector<WdtFileInfo> getFileInfo() const;
@@ -313,7 +313,7 @@ class DirectorySourceQueue : public SourceQueue {
   std::string excludePattern_;
 
   /// Block size in mb
-  int64_t blockSizeMbytes_{0};
+  double blockSizeMbytes_{0};
 
   /// List of files to enqueue instead of recursing over rootDir_.
   std::vector<WdtFileInfo> fileInfo_;
-- 
2.43.0


From 162da6ed3875e72ae89356b11388333875868e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 15/58] fix: a pruned directory does not count as visited

---
 util/DirectorySourceQueue.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 7e27a42..feb8597 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -383,6 +383,12 @@ bool DirectorySourceQueue::explore() {
         }
       }
       if (isDir) {
+        newRelativePath.push_back('/');
+        if (!pruneDirPattern_.empty() &&
+            std::regex_match(newRelativePath, pruneDirRegex)) {
+          // not entered, so does not count as visited
+          continue;
+        }
         if (followSymlinks_) {
           if (visited.find(newFullPath) != visited.end()) {
             WLOG(ERROR) << "Attempted to visit directory twice: "
@@ -393,12 +399,8 @@ bool DirectorySourceQueue::explore() {
           // TODO: consider custom hashing ignoring common prefix
           visited.insert(newFullPath);
         }
-        newRelativePath.push_back('/');
-        if (pruneDirPattern_.empty() ||
-            !std::regex_match(newRelativePath, pruneDirRegex)) {
-          WVLOG(2) << "Adding " << newRelativePath;
-          todoList.push_back(std::move(newRelativePath));
-        }
+        WVLOG(2) << "Adding " << newRelativePath;
+        todoList.push_back(std::move(newRelativePath));
       }
     }
     closedir(dirPtr);
-- 
2.43.0


From 7652519c7529ee29361a23804fff7acd3799daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 16/58] fix: a file which shrank below a direct read is a read
 error

---
 util/FileByteSource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..ddc094c 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,13 +135,15 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing of the requested range is left in the file
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
                 << " offsetRemainder " << offsetRemainder << " bytesRead "
                 << bytesRead_;
     this->close();
+    transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
   // Can only happen in case of O_DIRECT and when
-- 
2.43.0


From ea84772a7d59a0eac5ca5c829fccdbf0d26a2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 17/58] fix: a checkpoint without a partial block does not
 contradict the last one

The seq-id and offset of a checkpoint only mean something if a block was
received partially (or at all if the receiver sends them). Comparing them
regardless made a sender treat good checkpoints as invalid (after a partial
first block of file 0), and left unacknowledged blocks in the history.
---
 util/ThreadTransferHistory.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..152ac70 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -150,8 +150,16 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   }
   bool noProgress = false;
   // numBlocks same
-  if (checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
-      checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
+  if (checkpoint.lastBlockReceivedBytes == 0) {
+    // no partial block in this checkpoint, its seq-id and offset mean nothing
+    noProgress = true;
+  } else if (!checkpoint.hasSeqId || !lastCheckpoint_->hasSeqId) {
+    // block unknown, can only compare the number of bytes
+    noProgress = (checkpoint.lastBlockReceivedBytes ==
+                  lastCheckpoint_->lastBlockReceivedBytes);
+  } else if (lastCheckpoint_->lastBlockReceivedBytes > 0 &&
+             checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
+             checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
     // same block
     if (checkpoint.lastBlockReceivedBytes !=
         lastCheckpoint_->lastBlockReceivedBytes) {
@@ -161,12 +169,6 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
       return INVALID_CHECKPOINT;
     }
     noProgress = true;
-  } else {
-    // different block
-    WDT_CHECK(checkpoint.lastBlockReceivedBytes >= 0);
-    if (checkpoint.lastBlockReceivedBytes == 0) {
-      noProgress = true;
-    }
   }
   if (noProgress && !globalCheckpoint) {
     // we can get same global checkpoint multiple times, so no need to check for
-- 
2.43.0


From cda2c763200f7cd2e1694b8a124f8e6c4acdbb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 18/58] fix: reject a checkpoint with impossible counts

Negative counts hit a CHECK or advanced a source backwards, and more received
bytes than the block has made the size of the returned source negative (and
the next read of it overflow the buffer).
---
 util/ThreadTransferHistory.cpp | 61 ++++++++++++++++++++++------------
 util/ThreadTransferHistory.h   |  4 +++
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 152ac70..a69e15b 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -75,6 +75,18 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
         << history_.size() << " " << numReceivedSources;
     return INVALID_CHECKPOINT;
   }
+  if (numReceivedSources < 0 || lastBlockReceivedBytes < 0) {
+    WLOG(ERROR) << "checkpoint has negative counts " << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
+  if (numReceivedSources < historySize && checkpoint.hasSeqId &&
+      checkpointApplies(*history_[numReceivedSources], checkpoint) &&
+      lastBlockReceivedBytes > history_[numReceivedSources]->getSize()) {
+    WLOG(ERROR) << "checkpoint has more bytes than the block sent "
+                << history_[numReceivedSources]->getSize() << " "
+                << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
   ErrorCode errCode = validateCheckpoint(checkpoint, globalCheckpoint);
   if (errCode == INVALID_CHECKPOINT) {
     return INVALID_CHECKPOINT;
@@ -180,29 +192,36 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   return OK;
 }
 
+bool ThreadTransferHistory::checkpointApplies(
+    const ByteSource& source, const Checkpoint& checkpoint) const {
+  if (!checkpoint.hasSeqId) {
+    // Receiver at lower version!
+    // checkpoint does not have seq-id. We have to blindly trust
+    // lastBlockReceivedBytes. If we do not, transfer will fail because of
+    // number of bytes mismatch. Even if an error happens because of this,
+    // Receiver will fail.
+    return true;
+  }
+  auto& metadata = source.getMetaData();
+  if ((checkpoint.lastBlockSeqId == metadata.seqId) &&
+      (checkpoint.lastBlockOffset == source.getOffset())) {
+    return true;
+  }
+  WLOG(WARNING) << "Checkpoint block does not match history block. Checkpoint: "
+                << checkpoint.lastBlockSeqId << ", "
+                << checkpoint.lastBlockOffset << " History: " << metadata.seqId
+                << ", " << source.getOffset();
+  return false;
+}
+
 void ThreadTransferHistory::markSourceAsFailed(
     std::unique_ptr<ByteSource>& source, const Checkpoint* checkpoint) {
-  auto& metadata = source->getMetaData();
-  bool validCheckpoint = false;
-  if (checkpoint != nullptr) {
-    if (checkpoint->hasSeqId) {
-      if ((checkpoint->lastBlockSeqId == metadata.seqId) &&
-          (checkpoint->lastBlockOffset == source->getOffset())) {
-        validCheckpoint = true;
-      } else {
-        WLOG(WARNING)
-            << "Checkpoint block does not match history block. Checkpoint: "
-            << checkpoint->lastBlockSeqId << ", " << checkpoint->lastBlockOffset
-            << " History: " << metadata.seqId << ", " << source->getOffset();
-      }
-    } else {
-      // Receiver at lower version!
-      // checkpoint does not have seq-id. We have to blindly trust
-      // lastBlockReceivedBytes. If we do not, transfer will fail because of
-      // number of bytes mismatch. Even if an error happens because of this,
-      // Receiver will fail.
-      validCheckpoint = true;
-    }
+  bool validCheckpoint =
+      (checkpoint != nullptr && checkpointApplies(*source, *checkpoint));
+  if (validCheckpoint && checkpoint->lastBlockReceivedBytes > source->getSize()) {
+    WLOG(ERROR) << "Ignoring more received bytes than the size of the block "
+                << source->getSize() << " " << *checkpoint;
+    validCheckpoint = false;
   }
   int64_t receivedBytes =
       (validCheckpoint ? checkpoint->lastBlockReceivedBytes : 0);
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..eff5cfa 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -99,6 +99,10 @@ class ThreadTransferHistory {
    */
   ErrorCode setGlobalCheckpoint(const Checkpoint& checkpoint);
 
+  /// @return   whether partial block info of the checkpoint is for this source
+  bool checkpointApplies(const ByteSource& source,
+                         const Checkpoint& checkpoint) const;
+
   void markSourceAsFailed(std::unique_ptr<ByteSource>& source,
                           const Checkpoint* checkpoint);
   /**
-- 
2.43.0


From ac38d5fc6e2eaa30cb132e40e43a8758f889ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 19/58] fix: apply the partial block of a global checkpoint
 only once

The block being sent when a global checkpoint arrives was advanced by the
bytes received for an earlier block if the receiver does not send seq-ids.
---
 util/ThreadTransferHistory.cpp | 4 +++-
 util/ThreadTransferHistory.h   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index a69e15b..82c5df2 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -37,7 +37,8 @@ bool ThreadTransferHistory::addSource(std::unique_ptr<ByteSource>& source) {
     // already received an error for this thread
     WVLOG(1) << "adding source after global checkpoint is received. returning "
                 "the source to the queue";
-    markSourceAsFailed(source, lastCheckpoint_.get());
+    markSourceAsFailed(source, partialBlockReturned_ ? nullptr
+                                                     : lastCheckpoint_.get());
     lastCheckpoint_.reset();
     queue_.returnToQueue(source);
     return false;
@@ -113,6 +114,7 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
     markSourceAsFailed(source, checkpointPtr);
     sourcesToReturn.emplace_back(std::move(source));
   }
+  partialBlockReturned_ |= (globalCheckpoint && numFailedSources > 0);
   queue_.returnToQueue(sourcesToReturn);
   WLOG(INFO) << numFailedSources
              << " number of sources returned to queue, checkpoint: "
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index eff5cfa..c1d9e1b 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -123,6 +123,9 @@ class ThreadTransferHistory {
   std::vector<std::unique_ptr<ByteSource>> history_;
   /// whether a global error checkpoint has been received or not
   bool globalCheckpoint_{false};
+  /// whether the block following the ones acked by the global checkpoint was
+  /// in the history, and so has already been returned
+  bool partialBlockReturned_{false};
   /// number of sources acked by the receiver thread
   int64_t numAcknowledged_{0};
   /// last received checkpoint
-- 
2.43.0


From 211b3bde75749735db67d8bd3874633907c567cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 20/58] fix: a notification during a condition wait is not lost

The wait is done in slices of the abort check interval. A notification sent
between the timeout of a slice and the start of the next one was lost, and
the thread slept for the remaining time.
---
 util/ThreadsController.cpp | 19 +++++++++++++------
 util/ThreadsController.h   | 14 +++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/util/ThreadsController.cpp b/util/ThreadsController.cpp
index b29c068..53cb87d 100644
--- a/util/ThreadsController.cpp
+++ b/util/ThreadsController.cpp
@@ -17,6 +17,7 @@ void ConditionGuardImpl::wait(int timeoutMillis, const ThreadCtx& threadCtx) {
   const WdtOptions& options = threadCtx.getOptions();
   const bool checkAbort = (options.abort_check_interval_millis > 0);
   int remainingTime = timeoutMillis;
+  const int64_t startNumNotifications = numNotifications_;
 
   while (remainingTime > 0) {
     int waitTime = remainingTime;
@@ -25,7 +26,8 @@ void ConditionGuardImpl::wait(int timeoutMillis, const ThreadCtx& threadCtx) {
     }
     auto waitingTime = chrono::milliseconds(waitTime);
     auto status = cv_.wait_for(*lock_, waitingTime);
-    if (status == std::cv_status::no_timeout) {
+    if (status == std::cv_status::no_timeout ||
+        numNotifications_ != startNumNotifications) {
       return;
     }
     // check for abort
@@ -39,10 +41,12 @@ void ConditionGuardImpl::wait(int timeoutMillis, const ThreadCtx& threadCtx) {
 }
 
 void ConditionGuardImpl::notifyAll() {
+  ++numNotifications_;
   cv_.notify_all();
 }
 
 void ConditionGuardImpl::notifyOne() {
+  ++numNotifications_;
   cv_.notify_one();
 }
 
@@ -53,18 +57,19 @@ ConditionGuardImpl::~ConditionGuardImpl() {
 }
 
 ConditionGuardImpl::ConditionGuardImpl(mutex& guardMutex,
-                                       condition_variable& cv)
-    : cv_(cv) {
+                                       condition_variable& cv,
+                                       int64_t& numNotifications)
+    : cv_(cv), numNotifications_(numNotifications) {
   lock_ = new unique_lock<mutex>(guardMutex);
 }
 
 ConditionGuardImpl::ConditionGuardImpl(ConditionGuardImpl&& that) noexcept
-    : cv_(that.cv_) {
+    : cv_(that.cv_), numNotifications_(that.numNotifications_) {
   swap(lock_, that.lock_);
 }
 
 ConditionGuardImpl ConditionGuard::acquire() {
-  return ConditionGuardImpl(mutex_, cv_);
+  return ConditionGuardImpl(mutex_, cv_, numNotifications_);
 }
 
 FunnelStatus Funnel::getStatus() {
@@ -85,7 +90,7 @@ void Funnel::wait() {
 }
 
 void Funnel::wait(int32_t waitingTime, const ThreadCtx& threadCtx) {
-  ConditionGuardImpl guard(mutex_, cv_);
+  ConditionGuardImpl guard(mutex_, cv_, numNotifications_);
   if (status_ != FUNNEL_PROGRESS) {
     return;
   }
@@ -95,12 +100,14 @@ void Funnel::wait(int32_t waitingTime, const ThreadCtx& threadCtx) {
 void Funnel::notifySuccess() {
   unique_lock<mutex> lock(mutex_);
   status_ = FUNNEL_END;
+  ++numNotifications_;
   cv_.notify_all();
 }
 
 void Funnel::notifyFail() {
   unique_lock<mutex> lock(mutex_);
   status_ = FUNNEL_START;
+  ++numNotifications_;
   cv_.notify_one();
 }
 
diff --git a/util/ThreadsController.h b/util/ThreadsController.h
index 3af1297..a518183 100644
--- a/util/ThreadsController.h
+++ b/util/ThreadsController.h
@@ -107,13 +107,17 @@ class ConditionGuardImpl {
  protected:
   friend class ConditionGuard;
   friend class Funnel;
-  /// Constructor that takes the shared mutex and condition
-  /// variable
-  ConditionGuardImpl(std::mutex& mutex, std::condition_variable& cv);
+  /// Constructor that takes the shared mutex, condition variable and number of
+  /// notifications sent so far
+  ConditionGuardImpl(std::mutex& mutex, std::condition_variable& cv,
+                     int64_t& numNotifications);
   /// Instance of lock is made on construction with the specified mutex
   std::unique_lock<std::mutex>* lock_{nullptr};
   /// Shared condition variable
   std::condition_variable& cv_;
+  /// Shared number of notifications, to notice one that was sent when the wait
+  /// for it had just timed out
+  int64_t& numNotifications_;
 };
 
 /**
@@ -145,6 +149,8 @@ class ConditionGuard {
   std::mutex mutex_;
   /// std condition variable to support the functionality
   std::condition_variable cv_;
+  /// Number of notifications sent
+  int64_t numNotifications_{0};
 };
 
 /**
@@ -254,6 +260,8 @@ class Funnel {
   std::mutex mutex_;
   /// Condition variable on which progressing threads wait
   std::condition_variable cv_;
+  /// Number of notifications sent
+  int64_t numNotifications_{0};
 };
 
 /**
-- 
2.43.0


From 338f3aa07ae721e5dc453783738684e080f009c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 21/58] fix: log the transfer into a directory which was found
 inconsistent

The header of the new session makes the directory valid again, but the
writer thread was not started, so nothing after the header was logged.
---
 util/TransferLogManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..9d12e80 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -288,10 +288,12 @@ ErrorCode TransferLogManager::openLog() {
 
 ErrorCode TransferLogManager::startThread() {
   if (!options_.resume_using_dir_tree) {
-    // start writer thread
-    if (resumptionStatus_ != OK) {
+    if (fd_ < 0) {
+      // log is invalid, nothing can be written to it
       return resumptionStatus_;
     }
+    // start writer thread. It is also needed for an inconsistent directory,
+    // because the header written later makes the directory valid again
     writerThread_ =
         std::thread(&TransferLogManager::threadProcWriteEntriesToDisk, this);
     WLOG(INFO) << "Log writer thread started";
-- 
2.43.0


From 6378c921b2782841a25947dcc5c40ff3cdea7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 22/58] fix: a lost file that was resized does not invalidate
 the transfer log

Entries of a file which is no longer on disk are ignored, but its resize
entries made the whole log invalid.
---
 util/TransferLogManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 9d12e80..55eae0a 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -893,6 +893,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "Resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
-- 
2.43.0


From ffa84debabfd930d129a0c35eaf0896e66faba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 23/58] fix: a logged file replaced by a directory does not
 count as received

---
 util/TransferLogManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 55eae0a..ed47525 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -850,6 +850,8 @@ ErrorCode LogParser::processFileCreationEntry(char* buf, int64_t size) {
   folly::toAppend(rootDir_, fileName, &fullPath);
   if (stat(fullPath.c_str(), &buffer) != 0) {
     WPLOG(ERROR) << "stat failed for " << fileName;
+  } else if (!S_ISREG(buffer.st_mode)) {
+    WLOG(ERROR) << "Not a regular file " << fileName;
   } else {
     if (options_.shouldPreallocateFiles()) {
       sizeVerificationSuccess = (buffer.st_size >= fileSize);
-- 
2.43.0


From f5de45b21343de00f4d9133c4153da3ff437ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 24/58] fix: a block entry with an overflowing end is an
 invalid log

It crashed the receiver instead.
---
 util/TransferLogManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index ed47525..6ef6f40 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -963,7 +963,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (offset > chunksInfo.getFileSize() ||
+      blockSize > chunksInfo.getFileSize() - offset) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From 3a3c53c8722bf32e0c1729adbf1ccce3d9118f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 25/58] fix: forget the size of an invalidated file in the
 transfer log

Its sequence id can be used again for a smaller file, whose resize then
made the whole log invalid.
---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 6ef6f40..bdc1ce2 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -1003,6 +1003,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
   return OK;
 }
-- 
2.43.0


From 3b56c6c8ba22338d937fb058c53deecf36a079a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 26/58] fix: a one byte first read from an unencrypted peer is
 not a read error

---
 util/WdtSocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 2d1278b..6e036ae 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -330,6 +330,10 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
     numRead = 1;
     // also turn off encryption
     encryptionParams_.erase();
+    if (nbyte == numRead) {
+      // a read of 0 bytes would look like the end of the stream
+      return numRead;
+    }
   } else if (readErrorCode_ != OK) {
     return -1;
   }
-- 
2.43.0


From a2801a853073dbeb3baaa76dd1eb01348f992d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 27/58] fix: one unencrypted peer does not turn off encryption
 for later connections

---
 util/WdtSocket.cpp | 22 ++++++++++++----------
 util/WdtSocket.h   |  8 ++++++++
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 6e036ae..7a4ea61 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -32,7 +32,7 @@ WdtSocket::WdtSocket(ThreadCtx& threadCtx, const int port,
 
 // TODO: consider refactoring this to return error code
 void WdtSocket::readEncryptionSettingsOnce(int timeoutMs) {
-  if (!encryptionParams_.isSet() || encryptionSettingsRead_) {
+  if (!isEncrypted() || encryptionSettingsRead_) {
     return;
   }
   WDT_CHECK(!encryptionParams_.getSecret().empty());
@@ -97,7 +97,7 @@ void WdtSocket::readEncryptionSettingsOnce(int timeoutMs) {
 }
 
 void WdtSocket::writeEncryptionSettingsOnce() {
-  if (!encryptionParams_.isSet() || encryptionSettingsWritten_) {
+  if (!isEncrypted() || encryptionSettingsWritten_) {
     return;
   }
   WDT_CHECK(!encryptionParams_.getSecret().empty());
@@ -235,7 +235,7 @@ int WdtSocket::computeNextTagOffset(int64_t totalProcessed,
 int WdtSocket::readAndDecrypt(char* buf, int nbyte, int timeoutMs,
                               bool tryFull) {
   WDT_CHECK_GT(nbyte, 0);
-  const bool encrypt = encryptionParams_.isSet();
+  const bool encrypt = isEncrypted();
   WDT_CHECK(encrypt);
   // tag is transferred in plain text
   int numRead = readInternal(buf, nbyte, timeoutMs, tryFull);
@@ -328,8 +328,9 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
     readErrorCode_ = OK;
     buf[0] = buf_[0];
     numRead = 1;
-    // also turn off encryption
-    encryptionParams_.erase();
+    // also turn off encryption, for this connection only. The next one accepted
+    // by this socket may come from an encryption aware peer
+    peerUnencrypted_ = true;
     if (nbyte == numRead) {
       // a read of 0 bytes would look like the end of the stream
       return numRead;
@@ -338,7 +339,7 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
     return -1;
   }
 
-  const bool encrypt = encryptionParams_.isSet();
+  const bool encrypt = isEncrypted();
   if (!encrypt) {
     // handle the non-encryption case
     int ret = readInternal(buf + numRead, nbyte - numRead, timeoutMs, tryFull);
@@ -382,7 +383,7 @@ int WdtSocket::read(char* buf, int nbyte, bool tryFull) {
 int WdtSocket::encryptAndWrite(char* buf, int nbyte, int timeoutMs,
                                bool retry) {
   WDT_CHECK_GT(nbyte, 0);
-  const bool encrypt = encryptionParams_.isSet();
+  const bool encrypt = isEncrypted();
   WDT_CHECK(encrypt);
 
   if (!encryptor_->encrypt(buf, nbyte, buf)) {
@@ -500,7 +501,7 @@ int WdtSocket::write(char* buf, int nbyte, bool retry) {
   }
 
   const int timeoutMs = threadCtx_.getOptions().write_timeout_millis;
-  const bool encrypt = encryptionParams_.isSet();
+  const bool encrypt = isEncrypted();
   // handle no-encryption case
   if (!encrypt) {
     return writeInternal(buf, nbyte, timeoutMs, retry);
@@ -612,7 +613,7 @@ ErrorCode WdtSocket::expectEndOfStream() {
 
 ErrorCode WdtSocket::finalizeReads(bool doTagIOs) {
   WVLOG(1) << "Finalizing reads/encryption " << port_ << " " << fd_;
-  const int toRead = encryptionTypeToTagLen(encryptionParams_.getType());
+  const int toRead = encryptionTypeToTagLen(getEncryptionType());
   std::string tag;
   ErrorCode code = OK;
   if (toRead && doTagIOs) {
@@ -693,6 +694,7 @@ int WdtSocket::getFd() const {
 
 void WdtSocket::setFd(int fd) {
   fd_ = fd;
+  peerUnencrypted_ = false;
 }
 
 int WdtSocket::getPort() const {
@@ -704,7 +706,7 @@ void WdtSocket::setPort(int port) {
 }
 
 EncryptionType WdtSocket::getEncryptionType() const {
-  return encryptionParams_.getType();
+  return peerUnencrypted_ ? ENC_NONE : encryptionParams_.getType();
 }
 
 ErrorCode WdtSocket::getReadErrCode() const {
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index f06f48b..58a2c3c 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -216,6 +216,11 @@ class WdtSocket {
 
   void writeEncryptionSettingsOnce();
 
+  /// @return   whether the current connection is encrypted
+  bool isEncrypted() const {
+    return encryptionParams_.isSet() && !peerUnencrypted_;
+  }
+
   /// If doTagIOs is false will not try to read/write the final encryption tag
   virtual ErrorCode closeConnectionInternal(bool doTagIOs);
 
@@ -251,6 +256,9 @@ class WdtSocket {
   /// encryption in that case
   bool supportUnencryptedPeer_{false};
 
+  /// whether the peer of the current connection turned out to be unencrypted
+  bool peerUnencrypted_{false};
+
   // need two error codes because a socket does bi-directional communication
   ErrorCode readErrorCode_{OK};
   ErrorCode writeErrorCode_{OK};
-- 
2.43.0


From 666f3a141d5a85991abbad9da44c95732017e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 28/58] fix: a partial encrypted read does not wait for a tag
 its peer has no reason to send yet

---
 util/WdtSocket.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 7a4ea61..0347952 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -268,8 +268,10 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
         return ret;
       }
       totalRead_ += ret;
-      if (ret < nextTagOffset) {
-        // couldn't read till the tag. Tag will get read during next read
+      if (ret < nextTagOffset || !tryFull) {
+        // couldn't read till the tag, or got some data and should not wait for
+        // more. The other side only writes the tag once it has more to write.
+        // Tag will get read during next read
         return ret;
       }
       WDT_CHECK_EQ(nextTagOffset, ret);
@@ -367,8 +369,8 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
       return (numRead > 0 ? numRead : ret);
     }
     numRead += ret;
-    if (ret < toRead) {
-      // couldn't read full data
+    if (ret < toRead || !tryFull) {
+      // couldn't read full data, or should not wait for it
       return numRead;
     }
   }
-- 
2.43.0


From f37606f640338e074f89e61291e1b8e1db49bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 29/58] fix: two phases do not deadlock with a file info
 generator

---
 Sender.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Sender.cpp b/Sender.cpp
index 948247b..677086b 100644
--- a/Sender.cpp
+++ b/Sender.cpp
@@ -176,13 +176,13 @@ std::unique_ptr<TransferReport> Sender::finish() {
              << " existing transfer report";
     return getTransferReport();
   }
-  const bool twoPhases = options_.two_phases;
   bool progressReportEnabled =
       progressReporter_ && progressReportIntervalMillis_ > 0;
   for (auto& senderThread : senderThreads_) {
     senderThread->finish();
   }
-  if (!twoPhases) {
+  if (dirThread_.joinable()) {
+    // not joined yet in start()
     dirThread_.join();
   }
   WDT_CHECK(numActiveThreads_ == 0);
@@ -316,7 +316,10 @@ ErrorCode Sender::start() {
       std::make_unique<TransferHistoryController>(*dirQueue_);
 
   checkAndUpdateBufferSize();
-  const bool twoPhases = options_.two_phases;
+  // A file info generator is only asked for the next files once the previous
+  // ones are sent, so discovery can not finish before the transfer starts
+  const bool twoPhases =
+      options_.two_phases && !transferRequest_.fileInfoGenerator;
   WLOG(INFO) << "Client (sending) to " << getDestination() << ", Using ports [ "
              << transferRequest_.ports << "]";
   startTime_ = Clock::now();
-- 
2.43.0


From 0b946cba3772a2b16a772529d0e70ec00d6406d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 30/58] fix: every sender thread uses the block footer of the
 negotiated version

---
 SenderThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..663262d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -933,6 +933,7 @@ SenderState SenderThread::processVersionMismatch() {
         }
         if (negotiationStatus == V_MISMATCH_RESOLVED) {
           threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+          setFooterType();
           threadStats_.setRemoteErrorCode(OK);
           return CONNECT;
         }
-- 
2.43.0


From e7b552b4c339f4487ad48178402e54b81e213989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 31/58] fix: the rest of a long block header is read where it
 belongs

---
 ReceiverThread.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 0565276..f53a4d8 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -429,9 +429,15 @@ ReceiverState ReceiverThread::processFileCmd() {
   sendHeartBeat();
 
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
-    numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+    if (headerLen > bufSize_ - oldOffset_) {
+      WTLOG(ERROR) << "Header length exceeds the buffer " << headerLen << " "
+                   << bufSize_ << " " << oldOffset_;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return FINISH_WITH_ERROR;
+    }
+    // readAtLeast() appends after the numRead_ bytes that are already there
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From 59ebf1d647e9e190856fec83dfa53e32f687e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 32/58] fix: blocks whose tag was never verified do not count
 as received by the sender

---
 Sender.cpp       | 14 +++++++++++---
 SenderThread.cpp | 19 +++++++++++++------
 SenderThread.h   |  3 +++
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/Sender.cpp b/Sender.cpp
index 677086b..9c0bd8c 100644
--- a/Sender.cpp
+++ b/Sender.cpp
@@ -206,11 +206,19 @@ std::unique_ptr<TransferReport> Sender::finish() {
     }
   }
 
+  const bool needsVerification =
+      encryptionTypeToTagLen(transferRequest_.encryptionData.getType()) > 0;
   std::vector<TransferStats> transferredSourceStats;
-  for (auto port : transferRequest_.ports) {
+  for (auto& senderThread : senderThreads_) {
     auto& transferHistory =
-        transferHistoryController_->getTransferHistory(port);
-    if (allSourcesAcked) {
+        transferHistoryController_->getTransferHistory(senderThread->getPort());
+    // Except that a receiver thread only verifies its last blocks after the
+    // other threads may have finished. So, if a thread failed and no other
+    // thread took over its blocks, those blocks could have been discarded
+    const bool possiblyUnverified =
+        needsVerification && senderThread->getTransferStats().getErrorCode() != OK &&
+        !transferHistory.isGlobalCheckpointReceived();
+    if (allSourcesAcked && !possiblyUnverified) {
       transferHistory.markAllAcknowledged();
     } else {
       transferHistory.returnUnackedSourcesToQueue();
diff --git a/SenderThread.cpp b/SenderThread.cpp
index 663262d..2101d41 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -756,11 +756,19 @@ ErrorCode SenderThread::readAndVerifySpuriousCheckpoint() {
   return PROTOCOL_ERROR;
 }
 
+void SenderThread::markAllReceived() {
+  if (encryptionTypeToTagLen(socket_->getEncryptionType()) > 0) {
+    // The receiver has the blocks, but only keeps them once it has verified
+    // the tag that follows. That is known at the logical end of the stream
+    return;
+  }
+  getTransferHistory().markAllAcknowledged();
+}
+
 SenderState SenderThread::processDoneCmd() {
   WTVLOG(1) << "entered PROCESS_DONE_CMD state";
   // DONE cmd implies that all the blocks sent till now is acked
-  ThreadTransferHistory& transferHistory = getTransferHistory();
-  transferHistory.markAllAcknowledged();
+  markAllReceived();
 
   // send ack for DONE
   buf_[0] = Protocol::DONE_CMD;
@@ -774,6 +782,7 @@ SenderState SenderThread::processDoneCmd() {
     threadStats_.setLocalErrorCode(retCode);
     return CONNECT;
   }
+  getTransferHistory().markAllAcknowledged();
   WTVLOG(1) << "done with transfer, port " << port_;
   return END;
 }
@@ -781,8 +790,7 @@ SenderState SenderThread::processDoneCmd() {
 SenderState SenderThread::processWaitCmd() {
   WTLOG(INFO) << "entered PROCESS_WAIT_CMD state ";
   // similar to DONE, WAIT also verifies all the blocks
-  ThreadTransferHistory& transferHistory = getTransferHistory();
-  transferHistory.markAllAcknowledged();
+  markAllReceived();
   WTVLOG(1) << "received WAIT_CMD, port " << port_;
   return READ_RECEIVER_CMD;
 }
@@ -790,8 +798,7 @@ SenderState SenderThread::processWaitCmd() {
 SenderState SenderThread::processErrCmd() {
   WTLOG(INFO) << "entered PROCESS_ERR_CMD state";
   // similar to DONE, global checkpoint cmd also verifies all the blocks
-  ThreadTransferHistory& transferHistory = getTransferHistory();
-  transferHistory.markAllAcknowledged();
+  markAllReceived();
   int64_t toRead = sizeof(int16_t);
   int64_t numRead = socket_->read(buf_, toRead);
   if (numRead != toRead) {
diff --git a/SenderThread.h b/SenderThread.h
index 9c89e32..4462ab3 100644
--- a/SenderThread.h
+++ b/SenderThread.h
@@ -124,6 +124,9 @@ class SenderThread : public WdtThread {
   /// The main entry point of the thread
   void start() override;
 
+  /// the receiver has got all the blocks sent till now
+  void markAllReceived();
+
   /// Get the local transfer history
   ThreadTransferHistory& getTransferHistory() {
     return transferHistoryController_->getTransferHistory(port_);
-- 
2.43.0


From 3bfa9d3407f0835e956e5e648928668f0712d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 33/58] fix: bound the buffers of a received file chunks list

---
 SenderThread.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 2101d41..2df6386 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -563,7 +563,8 @@ SenderState SenderThread::readFileChunks() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
-  std::unique_ptr<char[]> chunkBuffer(new char[bufSize]);
+  std::unique_ptr<char[]> chunkBuffer;
+  int64_t chunkBufferLen = 0;
   std::vector<FileChunksInfo> fileChunksInfoList;
   while (true) {
     int64_t numFileChunks = fileChunksInfoList.size();
@@ -590,7 +591,17 @@ SenderState SenderThread::readFileChunks() {
       return CHECK_FOR_ABORT;
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
-    toRead = folly::Endian::little(toRead);
+    toRead = folly::Endian::little((int32_t)toRead);
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Bogus length of a file chunks buffer " << toRead << " "
+                   << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
+    if (toRead > chunkBufferLen) {
+      chunkBuffer.reset(new char[toRead]);
+      chunkBufferLen = toRead;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From 97c324ea2468d979b3fc0b72f4484f9ca60d307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 34/58] fix: a non-positive length of global checkpoints is a
 protocol error

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 2df6386..1e38ff8 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -820,6 +820,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Bogus length of global checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From 61f6d3eefc42c51d72ebac4a10bc1bd1cd323c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 35/58] fix: a version mismatch with version 0 does not crash
 the sender

---
 SenderThread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 1e38ff8..96c88d1 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -875,7 +875,9 @@ SenderState SenderThread::processAbortCmd() {
                  << " checkpoint " << checkpoint;
   wdtParent_->abort(remoteError);
   if (remoteError == VERSION_MISMATCH) {
-    if (Protocol::negotiateProtocol(
+    // negotiateProtocol() returns 0 for versions no one can support
+    if (negotiatedProtocol > 0 &&
+        Protocol::negotiateProtocol(
             negotiatedProtocol, threadProtocolVersion_) == negotiatedProtocol) {
       // sender can support this negotiated version
       negotiatedProtocol_ = negotiatedProtocol;
-- 
2.43.0


From 659765e9b54ddb2ed64bb61713e6439ebd664315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 36/58] fix: reject impossible entries of a file chunks list

---
 Protocol.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Protocol.cpp b/Protocol.cpp
index 41a48f2..101c494 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -393,6 +393,12 @@ bool Protocol::decodeFileChunksInfo(ByteRange& br,
   if (!ok) {
     return false;
   }
+  if (seqId < 0 || seqId == std::numeric_limits<int64_t>::max() ||
+      fileSize < 0) {
+    WLOG(ERROR) << "Bogus seq-id or file size decoded " << seqId << " "
+                << fileSize;
+    return false;
+  }
   fileChunksInfo.setSeqId(seqId);
   fileChunksInfo.setFileName(fileName);
   fileChunksInfo.setFileSize(fileSize);
@@ -405,6 +411,11 @@ bool Protocol::decodeFileChunksInfo(ByteRange& br,
     if (!decodeChunkInfo(br, chunk)) {
       return false;
     }
+    if (chunk.start_ < 0 || chunk.end_ < chunk.start_) {
+      WLOG(ERROR) << "Bogus chunk decoded " << chunk.start_ << " "
+                  << chunk.end_;
+      return false;
+    }
     fileChunksInfo.addChunk(chunk);
   }
   return true;
-- 
2.43.0


From 94558bc3c7de4d1b0d245ffc2549fb9f08ee2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 37/58] fix: an encrypted block only counts as received once
 its tag is verified, checksum or not

---
 ReceiverThread.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index f53a4d8..ce734fd 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -657,16 +657,16 @@ ReceiverState ReceiverThread::processFileCmd() {
       threadStats_.setLocalErrorCode(CHECKSUM_MISMATCH);
       return ACCEPT_WITH_TIMEOUT;
     }
-    markBlockVerified(blockDetails);
     int64_t msgLen = off_ - oldOffset_;
     numRead_ -= msgLen;
   } else {
     WDT_CHECK(footerType_ == NO_FOOTER);
-    if (encryptionTypeToTagLen(encryptionType)) {
-      blocksWaitingVerification_.emplace_back(blockDetails);
-    } else {
-      markBlockVerified(blockDetails);
-    }
+  }
+  // the checksum does not cover the header of the block, the tag does
+  if (encryptionTypeToTagLen(encryptionType)) {
+    blocksWaitingVerification_.emplace_back(blockDetails);
+  } else {
+    markBlockVerified(blockDetails);
   }
   return READ_NEXT_CMD;
 }
-- 
2.43.0


From 0d2d69ea48be2d083bf5c731ea67ebc7f6d039ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 38/58] fix: a sender without resumption that sends nothing
 does not crash the receiver

---
 Receiver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index c624cde..b1a1841 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -522,7 +522,6 @@ void Receiver::fixAndCloseTransferLog(bool transferSuccess) {
       (transferLogManager_->getResumptionStatus() == INVALID_LOG);
   if (transferSuccess && isInconsistentDirectory) {
     // write log header to validate directory in case of success
-    WDT_CHECK(options_.resume_using_dir_tree);
     transferLogManager_->writeLogHeader();
   }
 
-- 
2.43.0


From b9af880a05052ec949063b9ad711e7f6b3cc34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 39/58] fix: a file which is not deleted stays in the transfer
 log

---
 ReceiverThread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index ce734fd..b9de489 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -680,7 +680,10 @@ void ReceiverThread::markBlockVerified(const BlockDetails& blockDetails) {
   }
   TransferLogManager& transferLogManager = wdtParent_->getTransferLogManager();
   if (blockDetails.allocationStatus == TO_BE_DELETED) {
-    transferLogManager.addFileInvalidationEntry(blockDetails.seqId);
+    // the file is only gone if it was to be deleted here
+    if (options_.delete_extra_files) {
+      transferLogManager.addFileInvalidationEntry(blockDetails.seqId);
+    }
     return;
   }
   transferLogManager.addBlockWriteEntry(blockDetails.seqId, blockDetails.offset,
-- 
2.43.0


From ea4547b2d2c3d5783655ef5c45373dbcb7af2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 40/58] fix: the log also records the received part of a block
 whose connection broke

---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index b9de489..84e63bd 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -493,6 +493,11 @@ ReceiverState ReceiverThread::processFileCmd() {
       checkpoint_.setLastBlockDetails(blockDetails.seqId, blockDetails.offset,
                                       writer.getTotalWritten());
       threadStats_.addEffectiveBytes(headerBytes, writer.getTotalWritten());
+      // the sender does not send these bytes again, so the log has to know them
+      if (options_.isLogBasedResumption() && writer.getTotalWritten() > 0) {
+        wdtParent_->getTransferLogManager().addBlockWriteEntry(
+            blockDetails.seqId, blockDetails.offset, writer.getTotalWritten());
+      }
     }
   });
 
-- 
2.43.0


From 92d2b879977a9db3616e8d73794ea6a3859df0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 41/58] fix: a file made smaller later does not invalidate the
 whole transfer log

---
 util/TransferLogManager.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index bdc1ce2..af40305 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -918,10 +918,14 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
 
   if (options_.shouldPreallocateFiles() &&
       fileSize > chunksInfo.getFileSize()) {
-    WLOG(ERROR) << "Size on the disk is less than the resized size for "
-                << fileName << " seq-id " << seqId << " disk-size "
-                << chunksInfo.getFileSize() << " resized-size " << fileSize;
-    return INVALID_LOG;
+    // a later session may have made the file smaller
+    WLOG(INFO) << "Size on the disk is less than the resized size for "
+               << fileName << " seq-id " << seqId << " disk-size "
+               << chunksInfo.getFileSize() << " resized-size " << fileSize;
+    fileInfoMap_.erase(it);
+    seqIdToSizeMap_.erase(sizeIt);
+    invalidSeqIds_.insert(seqId);
+    return OK;
   }
   sizeIt->second = fileSize;
   return OK;
@@ -969,7 +973,14 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
                 << " file size in disk " << chunksInfo.getFileSize();
-    return INVALID_LOG;
+    if (options_.shouldPreallocateFiles()) {
+      return INVALID_LOG;
+    }
+    // only known by the blocks: a later session may have made the file smaller
+    fileInfoMap_.erase(it);
+    seqIdToSizeMap_.erase(seqId);
+    invalidSeqIds_.insert(seqId);
+    return OK;
   }
   chunksInfo.addChunk(Interval(offset, offset + blockSize));
   return OK;
-- 
2.43.0


From 965c91e826cba61629b0bf9c4b9d9237fb3cd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 42/58] fix: resizing a file which is not preallocated to less
 than first announced does not invalidate the log

---
 util/TransferLogManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index af40305..2d1be43 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -910,7 +910,8 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
   const string& fileName = chunksInfo.getFileName();
   auto sizeIt = seqIdToSizeMap_.find(seqId);
   WDT_CHECK(sizeIt != seqIdToSizeMap_.end());
-  if (fileSize < sizeIt->second) {
+  if (options_.shouldPreallocateFiles() && fileSize < sizeIt->second) {
+    // a file which is not preallocated can still be smaller on the disk
     WLOG(ERROR) << "File size can not reduce during resizing " << fileName
                 << " " << seqId << " " << fileSize << " " << sizeIt->second;
     return INVALID_LOG;
-- 
2.43.0


From 400901096382901ef83f073a8b7cdc14804fe322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 43/58] fix: the receiver refuses file names which lead out of
 its directory and blocks which do not fit their file

---
 ReceiverThread.cpp | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 84e63bd..f7257ac 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -78,6 +78,32 @@ int64_t readAtMost(IServerSocket& s, char* buf, int64_t max, int64_t atMost) {
   return n;
 }
 
+/**
+ * The name of a file must be that of something inside the destination
+ * directory, and of something else than the transfer log if there is one.
+ */
+static bool isValidFileName(const std::string& name, bool hasTransferLog) {
+  if (name.empty() || name.size() >= PATH_MAX || name.front() == '/' ||
+      name.back() == '/' || name.find('\0') != std::string::npos) {
+    return false;
+  }
+  std::string simplified;
+  size_t start = 0;
+  while (start <= name.size()) {
+    const size_t end = std::min(name.find('/', start), name.size());
+    const std::string component = name.substr(start, end - start);
+    if (component == "..") {
+      return false;
+    }
+    if (!component.empty() && component != ".") {
+      simplified += "/" + component;
+    }
+    start = end + 1;
+  }
+  return !hasTransferLog || (simplified != std::string("/") + kWdtLogName &&
+                             simplified != std::string("/") + kWdtBuggyLogName);
+}
+
 const ReceiverThread::StateFunction ReceiverThread::stateMap_[] = {
     &ReceiverThread::listen,
     &ReceiverThread::acceptFirstConnection,
@@ -477,6 +503,24 @@ ReceiverState ReceiverThread::processFileCmd() {
     return FINISH_WITH_ERROR;
   }
 
+  if (!isValidFileName(blockDetails.fileName,
+                       options_.enable_download_resumption)) {
+    WTLOG(ERROR) << "Invalid file name " << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
+  if (blockDetails.allocationStatus > TO_BE_DELETED ||
+      blockDetails.offset > blockDetails.fileSize ||
+      blockDetails.dataSize > blockDetails.fileSize - blockDetails.offset) {
+    WTLOG(ERROR) << "Invalid file header for " << blockDetails.fileName
+                 << ", file-size " << blockDetails.fileSize << " offset "
+                 << blockDetails.offset << " block-size "
+                 << blockDetails.dataSize << " allocation status "
+                 << blockDetails.allocationStatus;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
+
   // received a well formed file cmd, apply the pending checkpoint update
   checkpointIndex_ = pendingCheckpointIndex_;
   WTVLOG(1) << "Read id:" << blockDetails.fileName
-- 
2.43.0


From 8f903b17b081fc221c15f794656f56ca37d56c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 44/58] fix: sender timeouts which are not positive or too
 large for poll() do not crash the receiver

---
 ReceiverThread.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index f7257ac..ebbf7ec 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -233,8 +233,10 @@ ReceiverState ReceiverThread::acceptWithTimeout() {
   auto timeout = options_.accept_window_millis;
   if (senderReadTimeout_ > 0) {
     // transfer is in progress and we have already got sender settings
-    timeout = std::max(senderReadTimeout_, senderWriteTimeout_) +
-              kTimeoutBufferMillis;
+    timeout = std::min<int64_t>(
+        std::max(senderReadTimeout_, senderWriteTimeout_) +
+            kTimeoutBufferMillis,
+        std::numeric_limits<int>::max());
   }
   ErrorCode code =
       socket_->acceptNextConnection(timeout, curConnectionVerified_);
@@ -366,6 +368,12 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     threadStats_.setLocalErrorCode(ID_MISMATCH);
     return SEND_ABORT_CMD;
   }
+  if (settings.readTimeoutMillis <= 0) {
+    WTLOG(ERROR) << "Invalid sender read timeout "
+                 << settings.readTimeoutMillis;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   senderReadTimeout_ = settings.readTimeoutMillis;
   senderWriteTimeout_ = settings.writeTimeoutMillis;
   isBlockMode_ = !settings.blockModeDisabled;
-- 
2.43.0


From 6184317d66d21d72e3f8b5d6c323517c44ef6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 45/58] fix: the receiver has room for the next command at the
 end of its buffer

---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index ebbf7ec..7428e8d 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -284,6 +284,11 @@ ReceiverState ReceiverThread::sendLocalCheckpoint() {
 /***READ_NEXT_CMD***/
 ReceiverState ReceiverThread::readNextCmd() {
   WTVLOG(1) << "entered READ_NEXT_CMD state";
+  if (bufSize_ - off_ < Protocol::kMaxHeader) {
+    // a command may not fit in what is left of the buffer
+    memmove(buf_, buf_ + off_, numRead_);
+    off_ = 0;
+  }
   oldOffset_ = off_;
   // TODO: we shouldn't have off_ here and buffer/size inside buffer.
   numRead_ = readAtLeast(*socket_, buf_ + off_, bufSize_ - off_,
-- 
2.43.0


From b0c8b3f2790abf3d60b6985dda143dedc73cf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 46/58] fix: a connection has to start with the settings

---
 ReceiverThread.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 7428e8d..b7ee0ee 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -300,15 +300,20 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (cmd == Protocol::SETTINGS_CMD) {
+    return PROCESS_SETTINGS_CMD;
+  }
+  if (!curConnectionVerified_) {
+    WTLOG(ERROR) << "received cmd " << cmd << " before the settings";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
   if (cmd == Protocol::FILE_CMD) {
     return PROCESS_FILE_CMD;
   }
-  if (cmd == Protocol::SETTINGS_CMD) {
-    return PROCESS_SETTINGS_CMD;
-  }
   if (cmd == Protocol::SIZE_CMD) {
     return PROCESS_SIZE_CMD;
   }
-- 
2.43.0


From 085c934befb8686f55df62449abe3d927346a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 47/58] fix: settings which arrive in pieces are read to their
 end

---
 ReceiverThread.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index b7ee0ee..0d8c66e 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -362,9 +362,26 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     socket_->disableIvChange();
   }
 
-  success = Protocol::decodeSettings(
-      threadProtocolVersion_, buf_, off_,
-      oldOffset_ + Protocol::kMaxVersion + Protocol::kMaxSettings, settings);
+  const int64_t maxSettingsLen = Protocol::kMaxVersion + Protocol::kMaxSettings;
+  const int64_t settingsOffset = off_;
+  while (true) {
+    success = Protocol::decodeSettings(
+        threadProtocolVersion_, buf_, off_,
+        oldOffset_ + std::min(numRead_, maxSettingsLen), settings);
+    if (success || numRead_ >= maxSettingsLen) {
+      break;
+    }
+    // settings with a long transfer id may arrive in pieces
+    const int64_t numRead =
+        readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                    numRead_ + 1, numRead_);
+    if (numRead <= numRead_) {
+      break;
+    }
+    numRead_ = numRead;
+    off_ = settingsOffset;
+    settings = Settings();
+  }
   if (!success) {
     WTLOG(ERROR) << "Unable to decode settings cmd ";
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From fe182bbe9001283749bf18bf80bcdac8c15eebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 48/58] fix: a status the receiver does not know is an error

---
 ErrorCodes.cpp     | 2 +-
 ReceiverThread.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ErrorCodes.cpp b/ErrorCodes.cpp
index 87e7eb9..5070af1 100644
--- a/ErrorCodes.cpp
+++ b/ErrorCodes.cpp
@@ -16,7 +16,7 @@ namespace facebook {
 namespace wdt {
 std::string errorCodeToStr(ErrorCode code) {
   int numErrorCodes = sizeof(kErrorToStr) / sizeof(kErrorToStr[0]);
-  if (code < numErrorCodes) {
+  if (code >= 0 && code < numErrorCodes) {
     return kErrorToStr[code];
   }
   return folly::to<std::string>(code);
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 0d8c66e..d086747 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -471,7 +471,7 @@ ReceiverState ReceiverThread::processFileCmd() {
     }
   });
 
-  ErrorCode transferStatus = (ErrorCode)buf_[off_++];
+  ErrorCode transferStatus = (ErrorCode)(uint8_t)buf_[off_++];
   if (transferStatus != OK) {
     // TODO: use this status information to implement fail fast mode
     WTVLOG(1) << "sender entered into error state "
@@ -790,7 +790,7 @@ ReceiverState ReceiverThread::processDoneCmd() {
     return FINISH_WITH_ERROR;
   }
 
-  ErrorCode senderStatus = (ErrorCode)buf_[off_++];
+  ErrorCode senderStatus = (ErrorCode)(uint8_t)buf_[off_++];
   int64_t numBlocksSend = -1;
   int64_t totalSenderBytes = -1;
   bool success = Protocol::decodeDone(threadProtocolVersion_, buf_, off_,
-- 
2.43.0


From 22a84b63226df486e4a3d6039c100b2ed59d50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 49/58] fix: settings with a long transfer id are sent whole to
 a resuming receiver

---
 SenderThread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 96c88d1..696b388 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -233,7 +233,8 @@ SenderState SenderThread::sendSettings() {
   settings.enableHeartBeat = enableHeartBeat_;
   Protocol::encodeSettings(threadProtocolVersion_, buf_, off,
                            Protocol::kMaxSettings, settings);
-  int64_t toWrite = sendFileChunks ? Protocol::kMinBufLength : off;
+  int64_t toWrite =
+      sendFileChunks ? std::max(off, int64_t(Protocol::kMinBufLength)) : off;
   int64_t written = socket_->write(buf_, toWrite);
   if (written != toWrite) {
     WTLOG(ERROR) << "Socket write failure " << written << " " << toWrite;
-- 
2.43.0


From 31414e0b31a9997606c92064911d0d57d5d998bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 50/58] fix: a version that can not be negotiated does not
 crash the other sender threads

---
 SenderThread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 696b388..88c2f03 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -934,7 +934,13 @@ SenderState SenderThread::processVersionMismatch() {
             negotiatedProtocol = threadProtocolVersion;
           }
         }
-        WDT_CHECK_GT(negotiatedProtocol, 0);
+        if (negotiatedProtocol <= 0) {
+          // the thread that got the version mismatch does not support any
+          // version the receiver does
+          WTLOG(ERROR) << "No protocol version could be negotiated";
+          execFunnel->notifySuccess();
+          return END;
+        }
         WLOG_IF(INFO, negotiatedProtocol != threadProtocolVersion_)
             << *this << " Changing protocol version to " << negotiatedProtocol
             << ", previous version " << threadProtocolVersion_;
-- 
2.43.0


From c398efc6c8f9a7ed358abc75b913ea6baff0b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 51/58] fix: a sender thread does not wait for itself or for an
 impossible global checkpoint

---
 SenderThread.cpp               |  7 ++++++-
 util/ThreadTransferHistory.cpp | 31 ++++++++++++++++++++++++-------
 util/ThreadTransferHistory.h   | 12 ++++++++++--
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 88c2f03..f26817e 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -845,7 +845,12 @@ SenderState SenderThread::processErrCmd() {
   }
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
-    transferHistoryController_->handleGlobalCheckpoint(checkpoint);
+    const ErrorCode errCode = transferHistoryController_->handleGlobalCheckpoint(
+        checkpoint, [this]() { return getThreadAbortCode() != OK; });
+    if (errCode == INVALID_CHECKPOINT) {
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
   }
   return SEND_BLOCKS;
 }
diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 82c5df2..5578f64 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -54,14 +54,31 @@ ErrorCode ThreadTransferHistory::setLocalCheckpoint(
 }
 
 ErrorCode ThreadTransferHistory::setGlobalCheckpoint(
-    const Checkpoint& checkpoint) {
+    const Checkpoint& checkpoint, const std::function<bool()>& shouldStop) {
   std::unique_lock<std::mutex> lock(mutex_);
   ErrorCode status = setCheckpointAndReturnToQueue(checkpoint, true);
-  while (inUse_) {
+  if (status == INVALID_CHECKPOINT) {
+    // nothing was signalled to the thread, so there is nothing to wait for
+    return status;
+  }
+  if (inUse_) {
     // have to wait, error thread signalled through globalCheckpoint_ flag
     WLOG(INFO) << "Transfer history still in use, waiting, checkpoint "
                << checkpoint;
-    conditionInUse_.wait(lock);
+  }
+  while (inUse_) {
+    lock.unlock();
+    const bool stop = shouldStop && shouldStop();
+    lock.lock();
+    if (stop) {
+      // the waiting thread has to end itself. In particular, that thread could
+      // be waiting for this one, or even be this one
+      WLOG(WARNING) << "Not waiting any more, checkpoint " << checkpoint;
+      break;
+    }
+    if (inUse_) {
+      conditionInUse_.wait_for(lock, std::chrono::milliseconds(50));
+    }
   }
   return status;
 }
@@ -293,17 +310,17 @@ ErrorCode TransferHistoryController::handleVersionMismatch() {
   return OK;
 }
 
-void TransferHistoryController::handleGlobalCheckpoint(
-    const Checkpoint& checkpoint) {
+ErrorCode TransferHistoryController::handleGlobalCheckpoint(
+    const Checkpoint& checkpoint, const std::function<bool()>& shouldStop) {
   auto errPort = checkpoint.port;
   auto it = threadHistoriesMap_.find(errPort);
   if (it == threadHistoriesMap_.end()) {
     WLOG(ERROR) << "Invalid checkpoint " << checkpoint
                 << ". No sender thread running on port " << errPort;
-    return;
+    return OK;
   }
   WVLOG(1) << "received global checkpoint " << checkpoint;
-  it->second->setGlobalCheckpoint(checkpoint);
+  return it->second->setGlobalCheckpoint(checkpoint, shouldStop);
 }
 }  // namespace wdt
 }  // namespace facebook
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index c1d9e1b..e2ed48d 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -11,6 +11,7 @@
 #include <wdt/Reporting.h>
 #include <wdt/util/DirectorySourceQueue.h>
 
+#include <functional>
 #include <vector>
 
 namespace facebook {
@@ -94,10 +95,12 @@ class ThreadTransferHistory {
    * error thread to add current block to the history.
    *
    * @param checkpoint             checkpoint received
+   * @param shouldStop             the waiting stops early if this returns true
    *
    * @return                       status of the operation
    */
-  ErrorCode setGlobalCheckpoint(const Checkpoint& checkpoint);
+  ErrorCode setGlobalCheckpoint(const Checkpoint& checkpoint,
+                                const std::function<bool()>& shouldStop);
 
   /// @return   whether partial block info of the checkpoint is for this source
   bool checkpointApplies(const ByteSource& source,
@@ -163,7 +166,12 @@ class TransferHistoryController {
   ErrorCode handleVersionMismatch();
 
   /// Handle checkpoint that was sent by the receiver
-  void handleGlobalCheckpoint(const Checkpoint& checkpoint);
+  /// @param shouldStop   checked while waiting for the thread the checkpoint is
+  ///                     for, the waiting stops if it returns true
+  /// @return             INVALID_CHECKPOINT if the checkpoint is not possible
+  ErrorCode handleGlobalCheckpoint(
+      const Checkpoint& checkpoint,
+      const std::function<bool()>& shouldStop = nullptr);
 
  private:
   /// Reference to the directory queue being used by the sender
-- 
2.43.0


From 7c45bd15eccf2f34748328daa600495d3e5c7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 52/58] fix: a url which can not be parsed is not logged with
 its encryption secret

---
 WdtTransferRequest.cpp   | 23 +++++++++++------------
 util/EncryptionUtils.cpp | 10 +++++-----
 wdtCmdLine.cpp           |  4 ++--
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 0986702..cfe66c1 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -88,15 +88,14 @@ bool WdtUri::unescape(string& res, StringPiece escapedValue) {
     i += 2;
     // Make sure there room for both hex
     if (i >= escapedValue.size()) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" end with unfinished % sequence";
+      WLOG(ERROR) << "Can't decode value, end with unfinished % sequence";
       return false;
     }
     const int msb = fromHex(escapedValue[i - 1]);
     const int lsb = fromHex(escapedValue[i]);
     if (msb < 0 || lsb < 0) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" % sequence with non 0-9a-f characters";
+      WLOG(ERROR) << "Can't decode value, % sequence with non 0-9a-f "
+                  << "characters";
       return false;
     }
     res.push_back(msb << 4 | lsb);
@@ -135,12 +134,12 @@ ErrorCode WdtUri::process(const string& url) {
   StringPiece urlPiece(url, 0, WDT_URL_PREFIX.size());
   StringPiece wdtPrefix(WDT_URL_PREFIX);
   if (urlPiece != wdtPrefix) {
-    WLOG(ERROR) << "Url does not specify wdt protocol " << url;
+    WLOG(ERROR) << "Url does not specify wdt protocol";
     return URI_PARSE_ERROR;
   }
   urlPiece = StringPiece(url, WDT_URL_PREFIX.size());
   if (urlPiece.empty()) {
-    WLOG(ERROR) << "Empty host name " << url;
+    WLOG(ERROR) << "Empty host name in url";
     return URI_PARSE_ERROR;
   }
   ErrorCode status = OK;
@@ -149,7 +148,7 @@ ErrorCode WdtUri::process(const string& url) {
     urlPiece.advance(1);
     size_t hostNameEnd = urlPiece.find(']');
     if (hostNameEnd == string::npos) {
-      WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
+      WLOG(ERROR) << "Didn't find ] for ipv6 address in url";
       return URI_PARSE_ERROR;
     }
     hostName_.assign(urlPiece.data(), 0, hostNameEnd);
@@ -170,7 +169,7 @@ ErrorCode WdtUri::process(const string& url) {
 
   if (hostName_.empty()) {
     status = URI_PARSE_ERROR;
-    WLOG(ERROR) << "Empty hostname " << url;
+    WLOG(ERROR) << "Empty hostname in url";
   }
 
   if (urlPiece.empty()) {
@@ -189,7 +188,7 @@ ErrorCode WdtUri::process(const string& url) {
       portStr.assign(urlPiece.data(), 0, paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
-      WLOG(ERROR) << "Invalid port, can't be parsed " << url;
+      WLOG(ERROR) << "Invalid port in url, can't be parsed";
       status = URI_PARSE_ERROR;
     }
     urlPiece.advance(paramsIndex);
@@ -216,7 +215,7 @@ ErrorCode WdtUri::process(const string& url) {
     StringPiece value = keyValuePair;
     if (key.empty()) {
       // Value can be empty but key can't be empty
-      WLOG(ERROR) << "Errors parsing params, url = " << url;
+      WLOG(ERROR) << "Errors parsing params of url";
       status = URI_PARSE_ERROR;
       break;
     }
@@ -310,8 +309,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
   if (!encStr.empty()) {
     ErrorCode code = EncryptionParams::unserialize(encStr, encryptionData);
     if (code != OK) {
-      WLOG(ERROR) << "Unable to parse encryption data from \"" << encStr
-                  << "\" " << errorCodeToStr(code);
+      WLOG(ERROR) << "Unable to parse encryption data "
+                  << errorCodeToStr(code);
       errorCode = getMoreInterestingError(code, errorCode);
     }
   }
diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..7be50f7 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -131,7 +131,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
       // In type section (before ':')
       if (c == ':') {
         if (type == 0) {
-          WLOG(ERROR) << "Enc type still none when ':' reached " << input;
+          WLOG(ERROR) << "Enc type still none when ':' reached";
           return ERROR;
         }
         state = FIRST_HEX;
@@ -140,7 +140,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     }
     int v = WdtUri::fromHex(c);
     if (v < 0) {
-      WLOG(ERROR) << "Not hex found " << (int)c << " in " << input;
+      WLOG(ERROR) << "Not hex found " << (int)c << " in encryption data";
       return ERROR;
     }
     if (state == IN_TYPE) {
@@ -160,12 +160,12 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     byte = 0;  // not needed but safer
   }
   if (state == IN_TYPE) {
-    WLOG(ERROR) << "Missing ':' in encryption data " << input;
+    WLOG(ERROR) << "Missing ':' in encryption data";
     return ERROR;
   }
   if (state != LEFT_HEX) {
-    WLOG(ERROR) << "Odd number of hex in encryption data " << input
-                << " decoded up to: " << out.data_;
+    WLOG(ERROR) << "Odd number of hex in encryption data, decoded "
+                << out.data_.size() << " bytes";
     return ERROR;
   }
   if (type <= ENC_NONE || type >= NUM_ENC_TYPES) {
diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 600665e..ede55aa 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -281,8 +281,8 @@ int main(int argc, char* argv[]) {
   } else {
     reqPtr = std::make_unique<facebook::wdt::WdtTransferRequest>(connectUrl);
     if (reqPtr->errorCode != facebook::wdt::OK) {
-      WLOG(ERROR) << "Invalid url \"" << connectUrl
-                  << "\" : " << errorCodeToStr(reqPtr->errorCode);
+      // Not the url itself: it may have the encryption secret
+      WLOG(ERROR) << "Invalid url : " << errorCodeToStr(reqPtr->errorCode);
       return facebook::wdt::ERROR;
     }
     reqPtr->directory = FLAGS_directory;
-- 
2.43.0


From 533b3de699991233720e9df5a6bd8ee90ac2c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 53/58] fix: a manifest which can not be read or parsed is an
 error, not a transfer of nothing

---
 wdtCmdLine.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index ede55aa..8afaf6f 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -140,20 +140,36 @@ void cancelAbort() {
   std::this_thread::yield();
 }
 
-void readManifest(std::istream& fin, facebook::wdt::WdtTransferRequest& req,
+bool readManifest(std::istream& fin, facebook::wdt::WdtTransferRequest& req,
                   bool dfltDirect) {
+  if (!fin) {
+    WLOG(ERROR) << "Can not open manifest";
+    return false;
+  }
   std::string line;
   while (std::getline(fin, line)) {
     std::vector<std::string> fields;
     folly::split('\t', line, fields, true);
     if (fields.empty() || fields.size() > 3) {
-      WLOG(FATAL) << "Invalid input manifest: " << line;
+      WLOG(ERROR) << "Invalid input manifest: " << line;
+      return false;
+    }
+    try {
+      int64_t filesize = fields.size() > 1 ? folly::to<int64_t>(fields[1]) : -1;
+      bool odirect =
+          fields.size() > 2 ? folly::to<bool>(fields[2]) : dfltDirect;
+      req.fileInfo.emplace_back(fields[0], filesize, odirect);
+    } catch (std::exception& e) {
+      WLOG(ERROR) << "Invalid input manifest: " << line << " " << e.what();
+      return false;
     }
-    int64_t filesize = fields.size() > 1 ? folly::to<int64_t>(fields[1]) : -1;
-    bool odirect = fields.size() > 2 ? folly::to<bool>(fields[2]) : dfltDirect;
-    req.fileInfo.emplace_back(fields[0], filesize, odirect);
+  }
+  if (fin.bad()) {
+    WLOG(ERROR) << "Can not read manifest";
+    return false;
   }
   req.disableDirectoryTraversal = true;
+  return true;
 }
 
 namespace GFLAGS_NAMESPACE {
@@ -361,13 +377,17 @@ int main(int argc, char* argv[]) {
     if (!FLAGS_manifest.empty()) {
       // Each line should have the filename and optionally
       // the filesize separated by a single space
+      bool manifestOk;
       if (FLAGS_manifest == "-") {
-        readManifest(std::cin, req, options.odirect_reads);
+        manifestOk = readManifest(std::cin, req, options.odirect_reads);
       } else {
         std::ifstream fin(FLAGS_manifest);
-        readManifest(fin, req, options.odirect_reads);
+        manifestOk = readManifest(fin, req, options.odirect_reads);
         fin.close();
       }
+      if (!manifestOk) {
+        return facebook::wdt::ERROR;
+      }
       WLOG(INFO) << "Using files lists, number of files "
                  << req.fileInfo.size();
     }
-- 
2.43.0


From 7ece0bdd27924423faa577cec748f33dc1dd9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 54/58] fix: a receiver with fewer ports than wanted prints its
 url

---
 wdtCmdLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 8afaf6f..dd042c9 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -337,6 +337,8 @@ int main(int argc, char* argv[]) {
         return facebook::wdt::FEWER_PORTS;
       }
       retCode = facebook::wdt::OK;
+      // Or there would be "FEWER_PORTS" instead of a connection url
+      augmentedReq.errorCode = facebook::wdt::OK;
     } else if (augmentedReq.errorCode != facebook::wdt::OK) {
       WLOG(ERROR) << "Error setting up receiver " << errorCodeToStr(retCode);
       return retCode;
-- 
2.43.0


From 4467f1fa3736270eafc07ee9cb583399c68e972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:16 +0000
Subject: [PATCH 55/58] fix: the checkpoint of a receiver thread which can not
 listen names its port

---
 ReceiverThread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index d086747..d3eaa3b 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1132,11 +1132,14 @@ ErrorCode ReceiverThread::init() {
       break;
     }
   }
-  if (socket_->listen() != OK) {
+  const ErrorCode code = socket_->listen();
+  // Even if that failed: the checkpoint of this thread tells the sender that
+  // what it sent to this port is not received
+  checkpoint_.port = socket_->getPort();
+  if (code != OK) {
     WTLOG(ERROR) << "Couldn't listen on port " << socket_->getPort();
     return ERROR;
   }
-  checkpoint_.port = socket_->getPort();
   WTLOG(INFO) << "Listening on port " << socket_->getPort();
   return OK;
 }
-- 
2.43.0


From 7cb351a252ecc7f2bdab971ee102ec5e5b3ec11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:09 +0000
Subject: [PATCH 56/58] fix: a sender or receiver which could not be
 initialized kept its place

---
 Wdt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Wdt.cpp b/Wdt.cpp
index 0def6b7..1de2285 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -122,6 +122,7 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
+    releaseWdtSender(req);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
@@ -159,9 +160,14 @@ ErrorCode Wdt::wdtReceiveStart(const std::string& wdtNamespace,
   if (req.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init receiver with request for " << wdtNamespace
                 << " " << identifier;
+    // It will never run: do not keep its place (nor its ports)
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
     return req.errorCode;
   }
   errCode = receiver->transferAsync();
+  if (errCode != OK) {
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
+  }
   WLOG(INFO) << "wdtReceiveStart for " << wdtNamespace << " " << identifier
              << " : " << errorCodeToStr(errCode);
   req.errorCode = errCode;
-- 
2.43.0


From 374ab04078f01087ee737074c337970a39da83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:09 +0000
Subject: [PATCH 57/58] fix: a terminated wdtSend released the sender which
 took its place

---
 Wdt.cpp                   |  9 ++++++---
 WdtResourceController.cpp | 13 ++++++++++---
 WdtResourceController.h   | 10 +++++++---
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/Wdt.cpp b/Wdt.cpp
index 1de2285..5f20f53 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -89,7 +89,7 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
     }
     senderPtr->abort(ABORTED_BY_APPLICATION);
     // This may log an error too
-    resourceController_->releaseSender(wdtNamespace, secondKey);
+    resourceController_->releaseSender(wdtNamespace, secondKey, senderPtr);
     // Try#2
     errCode = resourceController_->createSender(wdtNamespace, secondKey, req,
                                                 senderPtr);
@@ -122,12 +122,15 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
-    releaseWdtSender(req);
+    resourceController_->releaseSender(wdtNamespace, getSenderIdentifier(req),
+                                       sender);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
   errCode = transferReport->getSummary().getErrorCode();
-  releaseWdtSender(req);
+  // The place may belong to the one that terminated this sender by now
+  resourceController_->releaseSender(wdtNamespace, getSenderIdentifier(req),
+                                     sender);
   WLOG(INFO) << "wdtSend for " << wdtNamespace << " " << req.hostName
              << " ended with " << errorCodeToStr(errCode);
   return errCode;
diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..5510d6d 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -136,7 +136,8 @@ ErrorCode WdtNamespaceController::releaseReceiver(
   return OK;
 }
 
-ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
+ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier,
+                                                const SenderPtr& expected) {
   SenderPtr sender = nullptr;
   {
     GuardLock lock(controllerMutex_);
@@ -146,6 +147,11 @@ ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
                   << " for " << controllerName_;
       return NOT_FOUND;
     }
+    if (expected != nullptr && it->second != expected) {
+      WLOG(INFO) << "Sender with id " << identifier << " for "
+                 << controllerName_ << " was replaced";
+      return NOT_FOUND;
+    }
     sender = std::move(it->second);
     sendersMap_.erase(it);
     --numSenders_;
@@ -457,7 +463,8 @@ ErrorCode WdtResourceController::createReceiver(
 }
 
 ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
-                                               const std::string& identifier) {
+                                               const std::string& identifier,
+                                               const SenderPtr& expected) {
   NamespaceControllerPtr controller = nullptr;
   {
     controller = getNamespaceController(wdtNamespace);
@@ -466,7 +473,7 @@ ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
       return ERROR;
     }
   }
-  if (controller->releaseSender(identifier) == OK) {
+  if (controller->releaseSender(identifier, expected) == OK) {
     GuardLock lock(controllerMutex_);
     --numSenders_;
     return OK;
diff --git a/WdtResourceController.h b/WdtResourceController.h
index de1e532..2d909d0 100644
--- a/WdtResourceController.h
+++ b/WdtResourceController.h
@@ -88,8 +88,10 @@ class WdtNamespaceController : public WdtControllerBase {
   /// Delete a receiver from this namespace
   ErrorCode releaseReceiver(const std::string& identifier);
 
-  /// Delete a sender from this namespace
-  ErrorCode releaseSender(const std::string& identifier);
+  /// Delete a sender from this namespace. If expected is given, only that
+  /// sender is: not another one created with the same identifier since
+  ErrorCode releaseSender(const std::string& identifier,
+                          const SenderPtr& expected = nullptr);
 
   /// Releases all senders in this namespace
   int64_t releaseAllSenders();
@@ -173,8 +175,10 @@ class WdtResourceController : public WdtControllerBase {
                            ReceiverPtr& receiver);
 
   /// Release a sender specified with namespace and identifier
+  /// (and only if it is the expected one, if that is given)
   ErrorCode releaseSender(const std::string& wdtNamespace,
-                          const std::string& identifier);
+                          const std::string& identifier,
+                          const SenderPtr& expected = nullptr);
 
   /// Release a receiver specified with namespace and identifier
   ErrorCode releaseReceiver(const std::string& wdtNamespace,
-- 
2.43.0


From e3839ee950ff26ecd46c775546997b4c3d745cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:56 +0000
Subject: [PATCH 58/58] fix: a protocol version nobody can speak in a
 connection url crashed the sender or was ignored

---
 Receiver.cpp |  3 +++
 WdtBase.cpp  | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index b1a1841..1bdc77f 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -125,6 +125,9 @@ const WdtTransferRequest& Receiver::init() {
     setTransferId(WdtBase::generateTransferId());
   }
   negotiateProtocol();
+  if (transferRequest_.errorCode != OK) {
+    return transferRequest_;
+  }
   auto numThreads = transferRequest_.ports.size();
   // This creates the destination directory (which is needed for transferLogMgr)
   fileCreator_.reset(new FileCreator(
diff --git a/WdtBase.cpp b/WdtBase.cpp
index 4147477..4b521c1 100644
--- a/WdtBase.cpp
+++ b/WdtBase.cpp
@@ -8,6 +8,7 @@
 #include <wdt/WdtBase.h>
 #include <wdt/WdtTransferRequest.h>
 
+#include <algorithm>
 #include <random>
 using namespace std;
 
@@ -83,9 +84,17 @@ void WdtBase::setTransferId(const std::string& transferId) {
 }
 
 void WdtBase::negotiateProtocol() {
-  int protocol = transferRequest_.protocolVersion;
-  WDT_CHECK(protocol > 0) << "Protocol version can't be <= 0 " << protocol;
-  int negotiatedPv = Protocol::negotiateProtocol(protocol);
+  // Can be anything: it comes from the connection url
+  const int64_t protocol = transferRequest_.protocolVersion;
+  const int negotiatedPv = Protocol::negotiateProtocol(
+      std::max<int64_t>(0, std::min<int64_t>(protocol, INT32_MAX)));
+  if (negotiatedPv <= 0) {
+    WLOG(ERROR) << "Unsupported protocol version " << protocol;
+    if (transferRequest_.errorCode == OK) {
+      transferRequest_.errorCode = VERSION_INCOMPATIBLE;
+    }
+    return;
+  }
   if (negotiatedPv != protocol) {
     WLOG(WARNING) << "Negotiated protocol version " << protocol << " -> "
                   << negotiatedPv;
-- 
2.43.0

