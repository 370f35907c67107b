From 68d9f62943f9b1a46b52e5b9353d5f3569376d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 01/55] fix: circular buffer repeats the start of a write that
 wraps around

After filling up to the end of the internal storage, the rest of the
written bytes went in from the start of the slice again.
---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From 7607d901bfce7c2101b309e818653b4072ed0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/55] fix: comparer overwrites its own window when reading
 the block after a match

The next block was read straight into the storage of the circular buffer,
so that after a match the window (and the bytes it later evicts) could hold
bytes that are not in the stream at that position.
---
 comparer/comparer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..1e67ec8 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From 3bd8e71b7d4668eb39b5dd85823e3eac6b9e3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/55] fix: comparer uses a stale block at block size one

---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 1e67ec8..8471cc1 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -179,8 +179,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From 17053c1de3d6961f5669d7ebaa93db188817a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 04/55] fix: comparer skips the last window if the reader
 returns it with io.EOF

---
 comparer/comparer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 8471cc1..494beca 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -170,7 +170,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
+			// ReadFull, since a Read may return the last byte and an error together
+			n, err = io.ReadFull(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
 			n, err = io.ReadFull(comparison, block)
-- 
2.43.0


From 3aa41f2c2e8ca82666a728db253cbc457bad2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 05/55] fix: comparer never stops when reading the comparison
 fails

---
 comparer/comparer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 494beca..aa4f7ec 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -179,6 +179,10 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			break
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(readBytes)
 			blockMemory.Write(readBytes)
-- 
2.43.0


From c55aacd7b4f53e1ea15dc5af4d0147771ac00d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 06/55] fix: merger does not merge a block with the following
 span if it does not continue the preceding one

---
 comparer/merger.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/comparer/merger.go b/comparer/merger.go
index f86b9e8..76f394a 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -197,7 +197,10 @@ func (merger *MatchMerger) StartMergeResultStream(
 				BlockSpanStart(*toBlockSpan(result)),
 			)
 
-			if preceeding != nil && following != nil {
+			// the span that the block is part of
+			current := asBlockSpan
+
+			if preceeding != nil {
 				a := itemToBlockSpan(preceeding)
 				merger.merge(
 					asBlockSpan,
@@ -205,24 +208,16 @@ func (merger *MatchMerger) StartMergeResultStream(
 					blockSize,
 				)
 
-				b := itemToBlockSpan(following)
-				merger.merge(
-					&a,
-					&b,
-					blockSize,
-				)
+				if a.EndBlock == blockID {
+					// they were bordering
+					current = &a
+				}
+			}
 
-			} else if preceeding != nil {
-				a := itemToBlockSpan(preceeding)
-				merger.merge(
-					asBlockSpan,
-					&a,
-					blockSize,
-				)
-			} else if following != nil {
+			if following != nil {
 				b := itemToBlockSpan(following)
 				merger.merge(
-					asBlockSpan,
+					current,
 					&b,
 					blockSize,
 				)
-- 
2.43.0


From e41cb826302abe0359c72262f54bdab85ca7f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 07/55] fix: index generation treats a read error as the end of
 the file

---
 filechecksum/filechecksum.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..b9dc802 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -170,13 +170,18 @@ func (check *FileChecksumGenerator) generate(
 		n, err := io.ReadFull(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			resultChan <- ChecksumResults{Err: err}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
 
 		// As hashes, the assumption is that they never error
-		// additionally, we assume that the only reason not
-		// to write a full block would be reaching the end of the file
+		// additionally, the only reason not to have read
+		// a full block is reaching the end of the file
 		fullChecksum.Write(section)
 		check.WeakRollingHash.SetBlock(section)
 		strongHash.Write(section)
-- 
2.43.0


From c5ed614b58bd9e80573a19afd9be893635e96506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 08/55] fix: index generation ignores errors of the compression
 function

---
 filechecksum/filechecksum.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index b9dc802..1519d3e 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -196,6 +196,11 @@ func (check *FileChecksumGenerator) generate(
 
 		if compressionFunction != nil {
 			blockSize, err = compressionFunction(section)
+
+			if err != nil {
+				resultChan <- ChecksumResults{Err: err}
+				return
+			}
 		}
 
 		results = append(
@@ -223,7 +228,7 @@ func (check *FileChecksumGenerator) generate(
 		// Reset the strong
 		strongHash.Reset()
 
-		if n != len(buffer) || err == io.EOF {
+		if n != len(buffer) {
 			break
 		}
 	}
-- 
2.43.0


From df5fd26ee10ab72a3982714dbe25ac234ad59896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 09/55] fix: GenerateChecksums ignores errors writing the
 checksums

---
 filechecksum/filechecksum.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 1519d3e..351c75c 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -101,20 +101,30 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // Potentially speaking, this might be better producing a channel of blocks, which would remove the need for io from
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
+	// always read all the results, so that the generator is not still in use on return
 	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
-		if chunkResult.Err != nil {
-			return nil, chunkResult.Err
+		if chunkResult.Err != nil && err == nil {
+			err = chunkResult.Err
 		} else if chunkResult.Filechecksum != nil {
-			return chunkResult.Filechecksum, nil
+			fileChecksum = chunkResult.Filechecksum
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if err == nil {
+				_, err = output.Write(chunk.WeakChecksum)
+			}
+
+			if err == nil {
+				_, err = output.Write(chunk.StrongChecksum)
+			}
 		}
 	}
 
-	return nil, nil
+	if err != nil {
+		return nil, err
+	}
+
+	return fileChecksum, nil
 }
 
 type ChecksumResults struct {
-- 
2.43.0


From 47acafb1f0d9c09d5e8ad7f41e2c79e5960c8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/55] fix: checksum generator resets its hashes after the
 last result, while it may be in use again

---
 filechecksum/filechecksum.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 351c75c..ddcdd09 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -168,10 +168,14 @@ func (check *FileChecksumGenerator) generate(
 	strongHash.Reset()
 	fullChecksum.Reset()
 
-	// We reset the hashes when done do we can reuse the generator
-	defer check.WeakRollingHash.Reset()
-	defer strongHash.Reset()
-	defer fullChecksum.Reset()
+	// We reset the hashes when done so we can reuse the generator. This must happen
+	// before the last result is sent, since the receiver may reuse it straight away.
+	sendLast := func(last ChecksumResults) {
+		check.WeakRollingHash.Reset()
+		strongHash.Reset()
+		fullChecksum.Reset()
+		resultChan <- last
+	}
 
 	results := make([]chunks.ChunkChecksum, 0, blocksPerResult)
 
@@ -181,7 +185,7 @@ func (check *FileChecksumGenerator) generate(
 		section := buffer[:n]
 
 		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-			resultChan <- ChecksumResults{Err: err}
+			sendLast(ChecksumResults{Err: err})
 			return
 		}
 
@@ -208,7 +212,7 @@ func (check *FileChecksumGenerator) generate(
 			blockSize, err = compressionFunction(section)
 
 			if err != nil {
-				resultChan <- ChecksumResults{Err: err}
+				sendLast(ChecksumResults{Err: err})
 				return
 			}
 		}
@@ -249,9 +253,9 @@ func (check *FileChecksumGenerator) generate(
 		}
 	}
 
-	resultChan <- ChecksumResults{
+	sendLast(ChecksumResults{
 		Filechecksum: fullChecksum.Sum(nil),
-	}
+	})
 
 	return
 }
-- 
2.43.0


From 644e65e06e5c5129461b976f3fc9c30e84f58f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 11/55] fix: HashVerifier rejects good data after a mismatch
 and skips the blocks after one without checksum

---
 filechecksum/verifier.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..dd7bd6c 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -31,17 +31,16 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 		)
 
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From b89e7247ef76a5903c022c4864987e09b2107f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 12/55] fix: block source stops delivering when a lower span is
 requested after a higher one

---
 blocksources/blocksourcebase.go | 35 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..c59181c 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -189,6 +189,19 @@ func (s *BlockSourceBase) loop() {
 			requestQueue = requestQueue[:len(requestQueue)-1]
 		}
 
+		// only the response to the lowest request in progress may be sent:
+		// anything started or completed since may have changed which one that is
+		pendingResponse.clear()
+
+		if len(responseOrdering) > 0 {
+			lowestResponse := responseOrdering[len(responseOrdering)-1]
+			lowestRequest := requestOrdering[len(requestOrdering)-1]
+
+			if lowestRequest == lowestResponse.StartBlock {
+				pendingResponse.setResponse(&lowestResponse)
+			}
+		}
+
 		select {
 		case newRequest := <-s.requestChannel:
 			requestQueue = append(
@@ -235,32 +248,10 @@ func (s *BlockSourceBase) loop() {
 			// sort high to low
 			sort.Sort(sort.Reverse(responseOrdering))
 
-			// if we just got the lowest requested block, we can set
-			// the response. Otherwise, wait.
-			lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-			if lowestRequest == result.startBlockID {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				pendingResponse.clear()
-				pendingResponse.setResponse(&lowestResponse)
-			}
-
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
-			pendingResponse.clear()
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
-			// check if there's another response to enqueue
-			if len(responseOrdering) > 0 {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-				if lowestRequest == lowestResponse.StartBlock {
-					pendingResponse.setResponse(&lowestResponse)
-
-				}
-			}
-
 		case pendingErrors.sendIfSet() <- pendingErrors.Err():
 			pendingErrors.clear()
 
-- 
2.43.0


From ceedf4497faacc2f40b2ec4820c42ac1e2387a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 13/55] fix: block source panics on a second failure and keeps
 fetching after a failure or close

---
 blocksources/blocksourcebase.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index c59181c..41ae1b9 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -151,10 +151,20 @@ func (s *BlockSourceBase) loop() {
 	requestOrdering := make(UintSlice, 0, s.ConcurrentRequests)
 	responseOrdering := make(PendingResponses, 0, s.ConcurrentRequests)
 
+	// give up after a failure, only the first one is reported
+	fail := func(err error) {
+		if state == STATE_RUNNING {
+			pendingErrors.setError(err)
+		}
+
+		responseOrdering = responseOrdering[:0]
+		state = STATE_EXITING
+	}
+
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
@@ -218,23 +228,24 @@ func (s *BlockSourceBase) loop() {
 			inflightRequests -= 1
 
 			if result.err != nil {
-				pendingErrors.setError(result.err)
-				pendingResponse.clear()
-				state = STATE_EXITING
+				fail(result.err)
 				break
 			}
 
 			s.bytesRequested += int64(len(result.data))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
-				pendingErrors.setError(
+				fail(
 					fmt.Errorf(
 						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
 						result.startBlockID, result.endBlockID,
 					),
 				)
-				pendingResponse.clear()
-				state = STATE_EXITING
+				break
+			}
+
+			// nothing is delivered any more
+			if state != STATE_RUNNING {
 				break
 			}
 
-- 
2.43.0


From 3861fda8b3e975e5f62467424a2e9065d695f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 14/55] fix: requesting from a closed block source panics

---
 blocksources/blocksourcebase.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 41ae1b9..25eee8d 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -51,6 +51,7 @@ func NewBlockSourceBase(
 		ConcurrentRequests:  concurrentRequestCount,
 		ConcurrentBytes:     concurrentBytes,
 		exitChannel:         make(chan bool),
+		quitChannel:         make(chan struct{}),
 		errorChannel:        make(chan error),
 		responseChannel:     make(chan patcher.BlockReponse),
 		requestChannel:      make(chan patcher.MissingBlockSpan),
@@ -80,6 +81,7 @@ type BlockSourceBase struct {
 
 	hasQuit         bool
 	exitChannel     chan bool
+	quitChannel     chan struct{} // closed when the loop has ended
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
@@ -97,8 +99,12 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
-	s.requestChannel <- block
-	return nil
+	select {
+	case s.requestChannel <- block:
+		return nil
+	case <-s.quitChannel:
+		return BlockSourceAlreadyClosedError
+	}
 }
 
 func (s *BlockSourceBase) GetResultChannel() <-chan patcher.BlockReponse {
@@ -113,27 +119,20 @@ func (s *BlockSourceBase) EncounteredError() <-chan error {
 var BlockSourceAlreadyClosedError = errors.New("Block source was already closed")
 
 func (s *BlockSourceBase) Close() (err error) {
-	// if it has already been closed, just recover
-	// however, let the caller know
-	defer func() {
-		if recover() != nil {
-			err = BlockSourceAlreadyClosedError
-		}
-	}()
-
-	if !s.hasQuit {
-		s.exitChannel <- true
+	select {
+	case s.exitChannel <- true:
+		return nil
+	case <-s.quitChannel:
+		// it has already been closed, let the caller know
+		return BlockSourceAlreadyClosedError
 	}
-
-	return
 }
 
 func (s *BlockSourceBase) loop() {
 	defer func() {
 		s.hasQuit = true
-		close(s.exitChannel)
+		close(s.quitChannel)
 		close(s.errorChannel)
-		close(s.requestChannel)
 		close(s.responseChannel)
 	}()
 
-- 
2.43.0


From d7d3ca0a1cf1f1940ce1880f5955f21868fbb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 15/55] fix: data race reading the byte count of a block source

---
 blocksources/blocksourcebase.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 25eee8d..563c983 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -68,6 +69,9 @@ func NewBlockSourceBase(
 // BlockSourceBase implements patcher.BlockSource, and if it's good enough,
 // perhaps nobody else ever will have to.
 type BlockSourceBase struct {
+	// accessed atomically, first in the struct to be 64 bit aligned
+	bytesRequested int64
+
 	Requester           BlockSourceRequester
 	BlockSourceResolver BlockSourceOffsetResolver
 	Verifier            BlockVerifier
@@ -85,8 +89,6 @@ type BlockSourceBase struct {
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
-
-	bytesRequested int64
 }
 
 const (
@@ -95,7 +97,7 @@ const (
 )
 
 func (s *BlockSourceBase) ReadBytes() int64 {
-	return s.bytesRequested
+	return atomic.LoadInt64(&s.bytesRequested)
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
@@ -231,7 +233,7 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
-			s.bytesRequested += int64(len(result.data))
+			atomic.AddInt64(&s.bytesRequested, int64(len(result.data)))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
 				fail(
-- 
2.43.0


From ed459d58dac392e4c22224049efe1bbf8357b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 16/55] fix: sequential patcher ignores failures to position or
 fully read the local file

---
 patcher/sequential/sequential.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..602050d 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,13 +57,28 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in the local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the end of the file may be shorter than its blocks
+			if copied < blockSizeToRead && firstMatched.EndBlock != maxBlock {
+				return fmt.Errorf(
+					"Unexpected end of the local file: got %v of %v bytes at %v",
+					copied,
+					blockSizeToRead,
+					firstMatched.MatchOffset,
+				)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
-- 
2.43.0


From 8d1073ee921cb42ed26725c19791316bfc619e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 17/55] fix: sequential patcher ignores errors requesting
 blocks and a closed block source

---
 patcher/sequential/sequential.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index 602050d..e224f4b 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -84,10 +84,22 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf(
+					"Failed to request blocks %v-%v: %v",
+					firstMissing.StartBlock,
+					firstMissing.EndBlock,
+					err,
+				)
+			}
 
 			select {
-			case result := <-reference.GetResultChannel():
+			case result, ok := <-reference.GetResultChannel():
+				if !ok {
+					return fmt.Errorf("The block source was closed")
+				}
+
 				if result.StartBlock == currentBlock {
 					if _, err := output.Write(result.Data); err != nil {
 						return fmt.Errorf(
@@ -119,7 +131,11 @@ func SequentialPatcher(
 						result.StartBlock,
 					)
 				}
-			case err := <-reference.EncounteredError():
+			case err, ok := <-reference.EncounteredError():
+				if !ok {
+					return fmt.Errorf("The block source was closed")
+				}
+
 				return fmt.Errorf(
 					"Failed to read from reference file: %v", 
 					err,
-- 
2.43.0


From f12431025db26e9596e36a55a9941b7124115c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 18/55] fix: sequential patcher rejects responses in several
 parts and accepts short ones

---
 patcher/sequential/sequential.go | 35 ++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index e224f4b..81c3f7a 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -50,6 +50,9 @@ func SequentialPatcher(
 
 	currentBlock := uint(0)
 
+	// whether the first missing span has been requested, the response may come in several parts
+	requested := false
+
 	// TODO: find a way to test this, since it seemed to be the cause of an issue
 	for currentBlock <= maxBlock {
 		// where is the next block supposed to come from?
@@ -85,13 +88,17 @@ func SequentialPatcher(
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
 
-			if err := reference.RequestBlocks(firstMissing); err != nil {
-				return fmt.Errorf(
-					"Failed to request blocks %v-%v: %v",
-					firstMissing.StartBlock,
-					firstMissing.EndBlock,
-					err,
-				)
+			if !requested {
+				if err := reference.RequestBlocks(firstMissing); err != nil {
+					return fmt.Errorf(
+						"Failed to request blocks %v-%v: %v",
+						firstMissing.StartBlock,
+						firstMissing.EndBlock,
+						err,
+					)
+				}
+
+				requested = true
 			}
 
 			select {
@@ -113,7 +120,13 @@ func SequentialPatcher(
 							firstMissing.BlockSize,
 						)
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
+						remaining := (firstMissing.EndBlock - currentBlock) + 1
+
+						// only the last block of the file may be shorter than the others
+						partial := int64(len(result.Data))%firstMissing.BlockSize != 0
+						last := completed == remaining && firstMissing.EndBlock == maxBlock
+
+						if completed == 0 || completed > remaining || (partial && !last) {
 							return fmt.Errorf(
 								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
 								firstMissing.StartBlock,
@@ -123,7 +136,11 @@ func SequentialPatcher(
 						}
 
 						currentBlock += completed
-						requiredRemoteBlocks = requiredRemoteBlocks[1:]
+
+						if completed == remaining {
+							requiredRemoteBlocks = requiredRemoteBlocks[1:]
+							requested = false
+						}
 					}
 				} else {
 					return fmt.Errorf(
-- 
2.43.0


From 367bdc1d073849d1d0a6aaeca9ac68bc5b8f8941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 19/55] fix: patching panics if the reference is empty

---
 rsync.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsync.go b/rsync.go
index 59db7c1..a652155 100644
--- a/rsync.go
+++ b/rsync.go
@@ -171,6 +171,16 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
+
+	// nothing to copy for an empty reference
+	if rsync.Summary.GetBlockCount() == 0 {
+		if size := rsync.Summary.GetFileSize(); size != 0 {
+			return fmt.Errorf("The index has no blocks for a file of %v bytes", size)
+		}
+
+		return nil
+	}
+
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
-- 
2.43.0


From 315ccfc3ba5aea219611da454b88b7ef86456c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 20/55] fix: patch sizes the sections of the local file by the
 reference, missing what lies beyond

---
 rsync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index a652155..b599638 100644
--- a/rsync.go
+++ b/rsync.go
@@ -181,7 +181,13 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+	inputSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return fmt.Errorf("Could not get the size of the input: %v", err)
+	}
+
+	sectionSize := inputSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From e48f3157da944f5295b7e34c7eb416aa1bda8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 21/55] fix: patch copies bytes following a short last block in
 the local file

---
 rsync.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index b599638..8e45525 100644
--- a/rsync.go
+++ b/rsync.go
@@ -216,16 +216,49 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
 
+	found := toPatcherFoundSpan(mergedBlocks, int64(blockSize))
+
 	return sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
-		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+		splitShortLastBlock(found, rsync.Summary),
 		20*megabyte,
 		rsync.Output,
 	)
 }
 
+// splitShortLastBlock gives the last block of the reference its own span with its
+// actual size, so that bytes following it in the local file are not copied
+func splitShortLastBlock(found []patcher.FoundBlockSpan, summary FileSummary) []patcher.FoundBlockSpan {
+	lastBlock := summary.GetBlockCount() - 1
+	lastSize := summary.GetFileSize() % int64(summary.GetBlockSize())
+
+	if len(found) == 0 || lastSize == 0 {
+		return found
+	}
+
+	last := &found[len(found)-1]
+
+	if last.EndBlock != lastBlock {
+		return found
+	}
+
+	if last.StartBlock == lastBlock {
+		last.BlockSize = lastSize
+		return found
+	}
+
+	last.EndBlock--
+
+	return append(found, patcher.FoundBlockSpan{
+		StartBlock:  lastBlock,
+		EndBlock:    lastBlock,
+		BlockSize:   lastSize,
+		MatchOffset: last.MatchOffset + int64(lastBlock-last.StartBlock)*last.BlockSize,
+	})
+}
+
 func getOutFile(filename string) (f io.WriteCloser, err error) {
 	if _, err = os.Stat(filename); os.IsNotExist(err) {
 		return os.Create(filename)
-- 
2.43.0


From 25a72e48aa3206bdf4abb7db9bfd0a9956c06a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 22/55] fix: patch reports success although the output does not
 have the size of the reference

---
 rsync.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 8e45525..7d54d31 100644
--- a/rsync.go
+++ b/rsync.go
@@ -217,15 +217,37 @@ func (rsync *RSync) Patch() (err error) {
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
 
 	found := toPatcherFoundSpan(mergedBlocks, int64(blockSize))
+	output := &countingWriter{w: rsync.Output}
 
-	return sequential.SequentialPatcher(
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		splitShortLastBlock(found, rsync.Summary),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
+
+	if err != nil {
+		return err
+	}
+
+	if size := rsync.Summary.GetFileSize(); output.written != size {
+		return fmt.Errorf("Patched %v bytes, expected %v", output.written, size)
+	}
+
+	return nil
+}
+
+type countingWriter struct {
+	w       io.Writer
+	written int64
+}
+
+func (c *countingWriter) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	c.written += int64(n)
+	return
 }
 
 // splitShortLastBlock gives the last block of the reference its own span with its
-- 
2.43.0


From 2c3399ef91327a3547ac665fa9f0d2fe846bdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 23/55] fix: uniform reader ends at a zero-length read

---
 util/readers/uniformreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/readers/uniformreader.go b/util/readers/uniformreader.go
index e6045da..8de697e 100644
--- a/util/readers/uniformreader.go
+++ b/util/readers/uniformreader.go
@@ -20,7 +20,7 @@ func (r *uniformReader) Read(p []byte) (n int, err error) {
 		read = readable
 	}
 
-	if read == 0 {
+	if readable == 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From c94435f9d455c70380a98bf2ae0ef1119952e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 24/55] fix: block source delivers responses that leave out
 requested blocks

---
 blocksources/blocksourcebase.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 563c983..7b793c4 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -148,6 +148,9 @@ func (s *BlockSourceBase) loop() {
 
 	requestQueue := make(QueuedRequestList, 0, s.ConcurrentRequests*2)
 
+	// the size of the blocks in the responses, if the requests tell
+	blockSize := int64(0)
+
 	// enable us to order responses for the active requests, lowest to highest
 	requestOrdering := make(UintSlice, 0, s.ConcurrentRequests)
 	responseOrdering := make(PendingResponses, 0, s.ConcurrentRequests)
@@ -215,6 +218,7 @@ func (s *BlockSourceBase) loop() {
 
 		select {
 		case newRequest := <-s.requestChannel:
+			blockSize = newRequest.BlockSize
 			requestQueue = append(
 				requestQueue,
 				s.BlockSourceResolver.SplitBlockRangeToDesiredSize(
@@ -245,6 +249,21 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
+			// a consumer would wait for blocks that are left out
+			if blockSize > 0 {
+				blockCount := (int64(len(result.data)) + blockSize - 1) / blockSize
+
+				if blockCount < int64(result.endBlockID-result.startBlockID)+1 {
+					fail(
+						fmt.Errorf(
+							"Unexpected response length for the block range (%v-%v): %v",
+							result.startBlockID, result.endBlockID, len(result.data),
+						),
+					)
+					break
+				}
+			}
+
 			// nothing is delivered any more
 			if state != STATE_RUNNING {
 				break
-- 
2.43.0


From 3ab0ed25417d88038b986b519b7e12ddfed59152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 25/55] fix: verifying a response that exceeds the file panics

---
 chunks/chunks.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chunks/chunks.go b/chunks/chunks.go
index aac4143..fa69390 100644
--- a/chunks/chunks.go
+++ b/chunks/chunks.go
@@ -83,5 +83,10 @@ func LoadChecksumsFromReader(
 type StrongChecksumGetter []ChunkChecksum
 
 func (s StrongChecksumGetter) GetStrongChecksumForBlock(blockID int) []byte {
+	// there is no checksum for blocks outside of the file
+	if blockID < 0 || blockID >= len(s) {
+		return nil
+	}
+
 	return s[blockID].StrongChecksum
 }
-- 
2.43.0


From 7e32e2d3134dd0b04bd187a7b6a6b1a264d307a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 26/55] fix: patching to an existing longer file leaves its end
 in place

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 7d54d31..3f091af 100644
--- a/rsync.go
+++ b/rsync.go
@@ -286,7 +286,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_TRUNC|os.O_WRONLY, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 339b8d125d6098b5a3970b48d6453b2ea4e06c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 27/55] fix: patching in place panics if the temporary file
 cannot be created

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 3f091af..de39ade 100644
--- a/rsync.go
+++ b/rsync.go
@@ -291,6 +291,11 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+
+	if err != nil {
+		return
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From a354fd0129b72c1107dcd1e20d0b9d5579e94ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 28/55] fix: errors copying the temporary file into place are
 dropped

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index de39ade..5720b0e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -374,7 +374,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -387,7 +387,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From c06f20c3812c7afafbb46cf3342ebf05af26af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 29/55] fix: patching in place leaves the temporary file behind

---
 rsync.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsync.go b/rsync.go
index 5720b0e..0d6d08e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -164,6 +164,11 @@ func MakeRSync(
 		},
 	}
 
+	// the temporary file is kept if it could not be copied
+	if useTempFile {
+		r.OnClose = append(r.OnClose, &fileRemover{outFilename})
+	}
+
 	return
 }
 
@@ -397,6 +402,14 @@ func (f *fileCopyCloser) Close() (err error) {
 	return
 }
 
+type fileRemover struct {
+	path string
+}
+
+func (f *fileRemover) Close() error {
+	return os.Remove(f.path)
+}
+
 func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.FoundBlockSpan {
 	result := make([]patcher.FoundBlockSpan, len(sl))
 
-- 
2.43.0


From e6d2016ea3c5fdf005c111a193ddcc085c525721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 30/55] fix: closing after a failed patch overwrites the file
 patched in place

---
 rsync.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/rsync.go b/rsync.go
index 0d6d08e..a5bf443 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// set when Patch has succeeded
+	patched bool
 }
 
 type closer interface {
@@ -157,11 +160,12 @@ func MakeRSync(
 		Output:  out,
 		Source:  source,
 		Summary: Summary,
-		OnClose: []closer{
-			&fileCloser{inputFile, InputFile},
-			&fileCloser{out, outFilename},
-			copier,
-		},
+	}
+
+	r.OnClose = []closer{
+		&fileCloser{inputFile, InputFile},
+		&fileCloser{out, outFilename},
+		&patchedCloser{r, copier},
 	}
 
 	// the temporary file is kept if it could not be copied
@@ -174,6 +178,8 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	rsync.patched = false
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 
@@ -183,6 +189,7 @@ func (rsync *RSync) Patch() (err error) {
 			return fmt.Errorf("The index has no blocks for a file of %v bytes", size)
 		}
 
+		rsync.patched = true
 		return nil
 	}
 
@@ -241,6 +248,7 @@ func (rsync *RSync) Patch() (err error) {
 		return fmt.Errorf("Patched %v bytes, expected %v", output.written, size)
 	}
 
+	rsync.patched = true
 	return nil
 }
 
@@ -365,6 +373,19 @@ func (n nullCloser) Close() error {
 	return nil
 }
 
+// patchedCloser does nothing unless the patch has succeeded
+type patchedCloser struct {
+	r *RSync
+	c closer
+}
+
+func (p *patchedCloser) Close() error {
+	if !p.r.patched {
+		return nil
+	}
+	return p.c.Close()
+}
+
 type fileCopyCloser struct {
 	from string
 	to   string
-- 
2.43.0


From 92ffb28b2408a0732aaefd6334bedd08e9ef2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 31/55] fix: patch command uses damaged and inconsistent
 indexes

---
 cmd/gosync/common.go | 11 +++++++++++
 cmd/gosync/patch.go  | 21 +++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..22f154b 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -205,6 +205,17 @@ func readHeadersAndCheck(
 	}
 
 	err = binary.Read(r, binary.LittleEndian, &blocksize)
+	if err != nil {
+		return
+	}
+
+	if filesize < 0 || blocksize == 0 {
+		err = fmt.Errorf(
+			"Invalid file size (%v) or block size (%v) in the gosync file",
+			filesize, blocksize,
+		)
+	}
+
 	return
 }
 
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..ba92c48 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -69,11 +69,32 @@ func Patch(c *cli.Context) error {
 			magicString,
 			majorVersion,
 		)
+		if e != nil {
+			return e
+		}
 
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
+		if err != nil {
+			return err
+		}
+
+		expectedCount := filesize / int64(blocksize)
+		if filesize%int64(blocksize) != 0 {
+			expectedCount++
+		}
+
+		if int64(blockCount) != expectedCount {
+			return fmt.Errorf(
+				"The index has %v blocks, but a file of %v bytes has %v blocks of %v bytes",
+				blockCount,
+				filesize,
+				expectedCount,
+				blocksize,
+			)
+		}
 
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
-- 
2.43.0


From 77297e1fa4c94236494dc1bc2791f5056df14d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 32/55] fix: reading the index header relies on a single read

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 22f154b..bc02833 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0


From 26e3465303c60dfb401e9ef81e8ff5ff6c1d7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 33/55] fix: patch command does not accept an index URL

---
 cmd/gosync/patch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index ba92c48..023927d 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -58,7 +58,7 @@ func Patch(c *cli.Context) error {
 			outFilename = c.Args().Get(3)
 		}
 
-		indexReader, e := os.Open(summaryFile)
+		indexReader, e := getLocalOrRemoteFile(summaryFile)
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 0f66d1bce0cfe4743db851f9c927cbe94e39bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 34/55] fix: build overwrites a file that is named like an
 index

---
 cmd/gosync/build.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..0dfd20b 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -54,6 +54,17 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	// don't overwrite the input with its own index
+	if existing, err := os.Stat(outfilePath); err == nil && os.SameFile(s, existing) {
+		fmt.Fprintf(
+			os.Stderr,
+			"The index would overwrite the file itself: %v\n",
+			outfilePath,
+		)
+		os.Exit(1)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From cfe8e79408d3c659ae95dc2127ff32f57acd3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 35/55] fix: build accepts invalid block sizes

---
 cmd/gosync/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 0dfd20b..196deab 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -31,6 +32,11 @@ func init() {
 
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
+
+	if b := int64(c.Int("blocksize")); b <= 0 || b > math.MaxUint32 {
+		return fmt.Errorf("Invalid block size: %v", b)
+	}
+
 	blocksize := uint32(c.Int("blocksize"))
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
-- 
2.43.0


From f90da7f2605271ad6f6d82d267c394b56ceee545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 36/55] fix: errors of commands do not affect the exit status

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 31c2b2e5f5a21a32620ce0af646f05100669df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 37/55] fix: diff misses blocks at the boundaries between
 streams

---
 cmd/gosync/common.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index bc02833..72bae65 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -265,12 +265,8 @@ func multithreadedMatching(
 		offset := sectionSize * i
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
-		if i > 0 {
-			offset -= int64(blocksize)
-		}
-
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From abe14595aa28df82925f699e307e92d48e9cb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 38/55] fix: a failed patch in place leaves its temporary file
 behind

---
 cmd/gosync/patch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 023927d..35c7dc9 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -118,6 +118,7 @@ func Patch(c *cli.Context) error {
 		err = rsync.Patch()
 
 		if err != nil {
+			rsync.Close()
 			return err
 		}
 
-- 
2.43.0


From d7cb98fe31c0617acef88c86950cb74d78ef75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 39/55] fix: patch does not accept a local path as the
 reference source

---
 rsync.go | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/rsync.go b/rsync.go
index a5bf443..70ffb40 100644
--- a/rsync.go
+++ b/rsync.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"runtime"
 
@@ -111,6 +112,17 @@ func MakeRSync(
 		return
 	}
 
+	// a source that isn't a url is a local file
+	var sourceFile *os.File
+
+	if !isURL(Source) {
+		sourceFile, err = os.Open(Source)
+
+		if err != nil {
+			return
+		}
+	}
+
 	var out io.WriteCloser
 	var outFilename = OutFile
 	var copier closer
@@ -136,24 +148,33 @@ func MakeRSync(
 		copier = nullCloser{}
 	}
 
-	// blocksource
-	var source *blocksources.BlockSourceBase
-
 	resolver := blocksources.MakeFileSizedBlockResolver(
 		uint64(Summary.GetBlockSize()),
 		Summary.GetFileSize(),
 	)
 
-	source = blocksources.NewHttpBlockSource(
-		Source,
-		DefaultConcurrency,
-		resolver,
-		&filechecksum.HashVerifier{
-			Hash:                md5.New(),
-			BlockSize:           Summary.GetBlockSize(),
-			BlockChecksumGetter: Summary,
-		},
-	)
+	verifier := &filechecksum.HashVerifier{
+		Hash:                md5.New(),
+		BlockSize:           Summary.GetBlockSize(),
+		BlockChecksumGetter: Summary,
+	}
+
+	// blocksource
+	var source *blocksources.BlockSourceBase
+	var sourceCloser closer = nullCloser{}
+
+	if sourceFile == nil {
+		source = blocksources.NewHttpBlockSource(
+			Source,
+			DefaultConcurrency,
+			resolver,
+			verifier,
+		)
+	} else {
+		source = blocksources.NewReadSeekerBlockSource(sourceFile, resolver)
+		source.Verifier = verifier
+		sourceCloser = &fileCloser{sourceFile, Source}
+	}
 
 	r = &RSync{
 		Input:   inputFile,
@@ -165,6 +186,7 @@ func MakeRSync(
 	r.OnClose = []closer{
 		&fileCloser{inputFile, InputFile},
 		&fileCloser{out, outFilename},
+		sourceCloser,
 		&patchedCloser{r, copier},
 	}
 
@@ -314,6 +336,11 @@ func getTempFile() (f io.WriteCloser, filename string, err error) {
 	return
 }
 
+func isURL(path string) bool {
+	u, err := url.Parse(path)
+	return err == nil && (u.Scheme == "http" || u.Scheme == "https")
+}
+
 // IsSameFile checks if two file paths are the same file
 func IsSameFile(path1, path2 string) (same bool, err error) {
 
-- 
2.43.0


From 60de0d9260455cb5c4448d78ce19220cb1d332fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 40/55] fix: patch takes a local index path with a colon for a
 URL

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 72bae65..9a4c7cd 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -93,7 +93,7 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 	switch {
 	case err != nil:
 		return os.Open(path)
-	case url.Scheme == "":
+	case url.Scheme != "http" && url.Scheme != "https":
 		return os.Open(path)
 	default:
 		response, err := http.Get(path)
-- 
2.43.0


From 4099f3bb0da3b14632427a27dc3e4bf91c76c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 41/55] fix: reading input that fails with io.ErrUnexpectedEOF
 is not the end of the input

---
 comparer/comparer.go         | 13 ++++++-------
 filechecksum/filechecksum.go | 21 +++++++++++++++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index aa4f7ec..1de9cce 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -102,7 +102,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 	}
 
-	_, err = io.ReadFull(comparison, block)
+	_, err = filechecksum.ReadBlock(comparison, block)
 
 	if err != nil {
 		ReportErr(
@@ -170,16 +170,16 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			// ReadFull, since a Read may return the last byte and an error together
-			n, err = io.ReadFull(comparison, singleByte)
+			// not Read, since it may return the last byte and io.EOF together
+			n, err = filechecksum.ReadBlock(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = filechecksum.ReadBlock(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
 
-		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		if err != nil && err != io.EOF {
 			break
 		}
 
@@ -198,8 +198,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += int64(n)
 		}
 
-		if next != READ_NONE && (err == io.EOF || err == io.ErrUnexpectedEOF) {
-			err = io.EOF
+		if next != READ_NONE && err == io.EOF {
 			next = READ_NONE
 		}
 
diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index ddcdd09..04420c4 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -127,6 +127,23 @@ func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, outpu
 	return fileChecksum, nil
 }
 
+// ReadBlock reads until the block is full, or the input ends. Unlike io.ReadFull, io.EOF is
+// the only error for an input that has ended, so that a reader that fails with
+// io.ErrUnexpectedEOF (its data was cut short) is not taken for one that has ended.
+func ReadBlock(r io.Reader, block []byte) (n int, err error) {
+	for n < len(block) && err == nil {
+		var read int
+		read, err = r.Read(block[n:])
+		n += read
+	}
+
+	if n == len(block) && err == io.EOF {
+		err = nil
+	}
+
+	return
+}
+
 type ChecksumResults struct {
 	// Return multiple chunks at once for performance
 	Checksums []chunks.ChunkChecksum
@@ -181,10 +198,10 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := ReadBlock(inputFile, buffer)
 		section := buffer[:n]
 
-		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		if err != nil && err != io.EOF {
 			sendLast(ChecksumResults{Err: err})
 			return
 		}
-- 
2.43.0


From a272a6f5665b65abd62d51130750baf018630938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 42/55] fix: a local source cut short by io.ErrUnexpectedEOF is
 not at its end

---
 blocksources/readseeker_blocksource.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blocksources/readseeker_blocksource.go b/blocksources/readseeker_blocksource.go
index 67958f6..921c285 100644
--- a/blocksources/readseeker_blocksource.go
+++ b/blocksources/readseeker_blocksource.go
@@ -1,6 +1,7 @@
 package blocksources
 
 import (
+	"bytes"
 	"io"
 )
 
@@ -34,19 +35,20 @@ type ReadSeekerRequester struct {
 
 func (r *ReadSeekerRequester) DoRequest(startOffset int64, endOffset int64) (data []byte, err error) {
 	read_length := endOffset - startOffset
-	buffer := make([]byte, read_length)
+	buffer := bytes.NewBuffer(make([]byte, 0, read_length))
 
 	if _, err = r.rs.Seek(startOffset, from_start); err != nil {
 		return
 	}
 
-	n, err := io.ReadFull(r.rs, buffer)
+	// the last block may be short
+	n, err := io.CopyN(buffer, r.rs, read_length)
 
-	if err != nil && err != io.ErrUnexpectedEOF {
-		return
+	if err != nil && (err != io.EOF || n == 0) {
+		return nil, err
 	}
 
-	return buffer[:n], nil
+	return buffer.Bytes(), nil
 }
 
 func (r *ReadSeekerRequester) IsFatal(err error) bool {
-- 
2.43.0


From 129677762f645f006c66728740f36e80a1b990a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 43/55] fix: a closed patch keeps its block source running, one
 that can't be set up its files open

---
 rsync.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/rsync.go b/rsync.go
index 70ffb40..976414c 100644
--- a/rsync.go
+++ b/rsync.go
@@ -106,12 +106,25 @@ func MakeRSync(
 		return nil, err
 	}
 
+	// close what has been opened if something else can't be
+	var opened []io.Closer
+
+	defer func() {
+		if err != nil {
+			for _, f := range opened {
+				f.Close()
+			}
+		}
+	}()
+
 	inputFile, err := os.Open(InputFile)
 
 	if err != nil {
 		return
 	}
 
+	opened = append(opened, inputFile)
+
 	// a source that isn't a url is a local file
 	var sourceFile *os.File
 
@@ -121,6 +134,8 @@ func MakeRSync(
 		if err != nil {
 			return
 		}
+
+		opened = append(opened, sourceFile)
 	}
 
 	var out io.WriteCloser
@@ -161,7 +176,7 @@ func MakeRSync(
 
 	// blocksource
 	var source *blocksources.BlockSourceBase
-	var sourceCloser closer = nullCloser{}
+	var sourceFileCloser closer = nullCloser{}
 
 	if sourceFile == nil {
 		source = blocksources.NewHttpBlockSource(
@@ -173,7 +188,7 @@ func MakeRSync(
 	} else {
 		source = blocksources.NewReadSeekerBlockSource(sourceFile, resolver)
 		source.Verifier = verifier
-		sourceCloser = &fileCloser{sourceFile, Source}
+		sourceFileCloser = &fileCloser{sourceFile, Source}
 	}
 
 	r = &RSync{
@@ -186,7 +201,8 @@ func MakeRSync(
 	r.OnClose = []closer{
 		&fileCloser{inputFile, InputFile},
 		&fileCloser{out, outFilename},
-		sourceCloser,
+		&sourceCloser{source},
+		sourceFileCloser,
 		&patchedCloser{r, copier},
 	}
 
@@ -394,6 +410,19 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
+type sourceCloser struct {
+	source *blocksources.BlockSourceBase
+}
+
+// Close - the source has already been closed if it has failed
+func (s *sourceCloser) Close() error {
+	err := s.source.Close()
+	if err == blocksources.BlockSourceAlreadyClosedError {
+		return nil
+	}
+	return err
+}
+
 type nullCloser struct{}
 
 func (n nullCloser) Close() error {
-- 
2.43.0


From 7301e599e186f33476ec946bb66ca3cefc3bd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 44/55] fix: a merger without any streams has no merged blocks,
 it panicked

---
 comparer/merger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/comparer/merger.go b/comparer/merger.go
index 76f394a..a99a8c7 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -248,6 +248,11 @@ func (merger *MatchMerger) GetMergedBlocks() (sorted BlockSpanList) {
 	// var smallestKey uint = 0
 	m := merger.startEndBlockMap
 
+	// nothing has been merged
+	if m == nil {
+		return
+	}
+
 	m.AscendGreaterOrEqual(m.Min(), func(item llrb.Item) bool {
 		switch block := item.(type) {
 		case BlockSpanStart:
-- 
2.43.0


From 7517766917fd65aa1d2688de01f1e3969a167ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 45/55] fix: diff crashed when asked for no or a negative
 number of streams

---
 cmd/gosync/diff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..ec3b3c1 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -82,6 +82,11 @@ func Diff(c *cli.Context) error {
 
 	num_matchers := int64(c.Int("p"))
 
+	if num_matchers < 1 {
+		fmt.Printf("Invalid number of streams: %v\n", num_matchers)
+		os.Exit(1)
+	}
+
 	localFile_size := fi.Size()
 
 	// Don't split up small files
-- 
2.43.0


From 42809b131661b175902f1706f4a1affb9b530c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 46/55] fix: MakeRSync verifies downloads with the strong hash
 that is configured as the default

---
 rsync.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 976414c..63b935f 100644
--- a/rsync.go
+++ b/rsync.go
@@ -2,7 +2,6 @@ package gosync
 
 import (
 	"bufio"
-	"crypto/md5"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -169,7 +168,7 @@ func MakeRSync(
 	)
 
 	verifier := &filechecksum.HashVerifier{
-		Hash:                md5.New(),
+		Hash:                filechecksum.DefaultStrongHashGenerator(),
 		BlockSize:           Summary.GetBlockSize(),
 		BlockChecksumGetter: Summary,
 	}
-- 
2.43.0


From 1c895db1e2828469c85e76a2f37ed629fa46182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 47/55] fix: do not truncate a local source that is the output
 as well

---
 rsync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsync.go b/rsync.go
index 63b935f..351fbe2 100644
--- a/rsync.go
+++ b/rsync.go
@@ -105,6 +105,13 @@ func MakeRSync(
 		return nil, err
 	}
 
+	// the source can be the output too, and must not be truncated either
+	if !useTempFile && !isURL(Source) {
+		if useTempFile, err = IsSameFile(Source, OutFile); err != nil {
+			return nil, err
+		}
+	}
+
 	// close what has been opened if something else can't be
 	var opened []io.Closer
 
-- 
2.43.0


From 4532670e7861f55967afbf3a6c9cae48719dab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 48/55] fix: BlockSourceBase keeps to ConcurrentBytes

At most ConcurrentBytes bytes are requested or pending delivery; a request that
is larger than that is done alone.
---
 blocksources/blocksourcebase.go | 34 ++++++++++++++++++++-------------
 blocksources/helpers.go         |  1 +
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 7b793c4..bf6d04c 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -140,7 +140,7 @@ func (s *BlockSourceBase) loop() {
 
 	state := STATE_RUNNING
 	inflightRequests := 0
-	//inflightBytes := int64(0)
+	inflightBytes := int64(0) // requested + pending delivery
 	pendingErrors := &errorWatcher{errorChannel: s.errorChannel}
 	pendingResponse := &pendingResponseHelper{responseChannel: s.responseChannel}
 	resultChan := make(chan asyncResult)
@@ -169,23 +169,28 @@ func (s *BlockSourceBase) loop() {
 
 		// Start any pending work that we can
 		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
-			inflightRequests += 1
-
 			nextRequest := requestQueue[len(requestQueue)-1]
 
-			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
-			sort.Sort(sort.Reverse(requestOrdering))
-			go func() {
-				resolver := s.BlockSourceResolver
+			startOffset := s.BlockSourceResolver.GetBlockStartOffset(
+				nextRequest.StartBlockID,
+			)
 
-				startOffset := resolver.GetBlockStartOffset(
-					nextRequest.StartBlockID,
-				)
+			endOffset := s.BlockSourceResolver.GetBlockEndOffset(
+				nextRequest.EndBlockID,
+			)
 
-				endOffset := resolver.GetBlockEndOffset(
-					nextRequest.EndBlockID,
-				)
+			// a request that is larger than what may be in flight is done on its own
+			if s.ConcurrentBytes > 0 && inflightBytes > 0 &&
+				inflightBytes+endOffset-startOffset > s.ConcurrentBytes {
+				break
+			}
+
+			inflightRequests += 1
+			inflightBytes += endOffset - startOffset
 
+			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
+			sort.Sort(sort.Reverse(requestOrdering))
+			go func() {
 				result, err := s.Requester.DoRequest(
 					startOffset,
 					endOffset,
@@ -194,6 +199,7 @@ func (s *BlockSourceBase) loop() {
 				resultChan <- asyncResult{
 					startBlockID: nextRequest.StartBlockID,
 					endBlockID:   nextRequest.EndBlockID,
+					requested:    endOffset - startOffset,
 					data:         result,
 					err:          err,
 				}
@@ -231,6 +237,7 @@ func (s *BlockSourceBase) loop() {
 
 		case result := <-resultChan:
 			inflightRequests -= 1
+			inflightBytes += int64(len(result.data)) - result.requested
 
 			if result.err != nil {
 				fail(result.err)
@@ -280,6 +287,7 @@ func (s *BlockSourceBase) loop() {
 			sort.Sort(sort.Reverse(responseOrdering))
 
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
+			inflightBytes -= int64(len(pendingResponse.Response().Data))
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index 204c484..4efdfe2 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -87,6 +87,7 @@ func (r UintSlice) Less(i, j int) bool {
 type asyncResult struct {
 	startBlockID uint
 	endBlockID   uint
+	requested    int64 // bytes
 	data         []byte
 	err          error
 }
-- 
2.43.0


From d20b7f42c5f787dd3089669a798cbe1afeebb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 49/55] fix: MakeRSync fetches long spans in parts

A missing span was fetched in one request, and so held in memory as a whole.
---
 rsync.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsync.go b/rsync.go
index 351fbe2..74e31f4 100644
--- a/rsync.go
+++ b/rsync.go
@@ -169,10 +169,12 @@ func MakeRSync(
 		copier = nullCloser{}
 	}
 
-	resolver := blocksources.MakeFileSizedBlockResolver(
-		uint64(Summary.GetBlockSize()),
-		Summary.GetFileSize(),
-	)
+	// long spans are fetched in parts, which need not all be in memory at once
+	resolver := &blocksources.FixedSizeBlockResolver{
+		BlockSize:             uint64(Summary.GetBlockSize()),
+		FileSize:              Summary.GetFileSize(),
+		MaxDesiredRequestSize: megabyte,
+	}
 
 	verifier := &filechecksum.HashVerifier{
 		Hash:                filechecksum.DefaultStrongHashGenerator(),
-- 
2.43.0


From a49a64572f9b18243e4664f16f34eefcc898bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 50/55] fix: HttpRequester stops reading a response that is too
 long

A response that does not end was read until memory ran out.
---
 blocksources/httpblocksource.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..c2afbc0 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"strings"
 )
@@ -79,7 +80,9 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 		return nil, ResponseFromServerWasGZiped
 	} else {
 		buf := bytes.NewBuffer(make([]byte, 0, endOffset-startOffset))
-		_, err = buf.ReadFrom(rangedResponse.Body)
+
+		// a response that is too long is an error, however long it is
+		_, err = buf.ReadFrom(io.LimitReader(rangedResponse.Body, endOffset-startOffset+1))
 
 		if err != nil {
 			err = fmt.Errorf(
-- 
2.43.0


From 773a02d601a4966d96ba39bc629edbc7ca7f41c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 51/55] fix: split block ranges for very large request sizes

Adding the number of blocks per request could wrap around.
---
 blocksources/fixed_size_block_resolver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blocksources/fixed_size_block_resolver.go b/blocksources/fixed_size_block_resolver.go
index d81573e..38407b6 100644
--- a/blocksources/fixed_size_block_resolver.go
+++ b/blocksources/fixed_size_block_resolver.go
@@ -46,9 +46,8 @@ func (r *FixedSizeBlockResolver) SplitBlockRangeToDesiredSize(startBlockID, endB
 	currentBlockID := startBlockID
 
 	for {
-		maxEndBlock := currentBlockID + blockCountPerRequest
-
-		if maxEndBlock > endBlockID {
+		// compared like this since adding a very large count would wrap around
+		if blockCountPerRequest > endBlockID-currentBlockID {
 			requests = append(
 				requests,
 				QueuedRequest{
@@ -59,6 +58,8 @@ func (r *FixedSizeBlockResolver) SplitBlockRangeToDesiredSize(startBlockID, endB
 
 			return requests
 		} else {
+			maxEndBlock := currentBlockID + blockCountPerRequest
+
 			requests = append(
 				requests,
 				QueuedRequest{
-- 
2.43.0


From 7dd2ed082a6cd2253885530da6fd7d68ea61f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 52/55] fix: use the number of streams given to the patch
 command

---
 cmd/gosync/patch.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 35c7dc9..67360ab 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -49,6 +49,13 @@ func Patch(c *cli.Context) error {
 			)
 		}
 
+		streams := c.Int("p")
+		if streams < 1 {
+			return fmt.Errorf("Invalid number of streams: %v", streams)
+		}
+
+		gosync_main.DefaultConcurrency = streams
+
 		localFilename := c.Args().Get(0)
 		summaryFile := c.Args().Get(1)
 		referencePath := c.Args().Get(2)
-- 
2.43.0


From de877a1b9068dccc176eb5b68c1d4317d572f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:05 +0000
Subject: [PATCH 53/55] fix: fail to build an index when the file is not as
 long as its header says

---
 cmd/gosync/build.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 196deab..33c458f 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"path/filepath"
@@ -110,6 +111,17 @@ func Build(c *cli.Context) error {
 		os.Exit(2)
 	}
 
+	// the index is of no use if what was read is not what the header says
+	if read, err := inputFile.Seek(0, io.SeekCurrent); err != nil || read != file_size {
+		fmt.Fprintf(
+			os.Stderr,
+			"The file was not %v bytes long when it was read: %v\n",
+			file_size,
+			filename,
+		)
+		os.Exit(2)
+	}
+
 	inputFileInfo, err := os.Stat(filename)
 	if err != nil {
 		fmt.Fprintf(
-- 
2.43.0


From f01dc218d7ff5765cb4398c5152515b194570c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:17 +0000
Subject: [PATCH 54/55] fix: start the output again when a patch is repeated

---
 rsync.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/rsync.go b/rsync.go
index 74e31f4..155ffdc 100644
--- a/rsync.go
+++ b/rsync.go
@@ -51,6 +51,10 @@ type RSync struct {
 
 	// set when Patch has succeeded
 	patched bool
+
+	// the output that MakeRSync has opened, and whether Patch has been started on it
+	outFile   *os.File
+	attempted bool
 }
 
 type closer interface {
@@ -144,7 +148,7 @@ func MakeRSync(
 		opened = append(opened, sourceFile)
 	}
 
-	var out io.WriteCloser
+	var out *os.File
 	var outFilename = OutFile
 	var copier closer
 
@@ -204,6 +208,7 @@ func MakeRSync(
 		Output:  out,
 		Source:  source,
 		Summary: Summary,
+		outFile: out,
 	}
 
 	r.OnClose = []closer{
@@ -226,6 +231,19 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	rsync.patched = false
 
+	// start again after an earlier attempt
+	if rsync.attempted && rsync.Output == io.Writer(rsync.outFile) {
+		if _, err = rsync.outFile.Seek(0, io.SeekStart); err != nil {
+			return fmt.Errorf("Could not start the output again: %v", err)
+		}
+
+		if err = rsync.outFile.Truncate(0); err != nil {
+			return fmt.Errorf("Could not start the output again: %v", err)
+		}
+	}
+
+	rsync.attempted = true
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 
@@ -340,7 +358,7 @@ func splitShortLastBlock(found []patcher.FoundBlockSpan, summary FileSummary) []
 	})
 }
 
-func getOutFile(filename string) (f io.WriteCloser, err error) {
+func getOutFile(filename string) (f *os.File, err error) {
 	if _, err = os.Stat(filename); os.IsNotExist(err) {
 		return os.Create(filename)
 	}
@@ -348,7 +366,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 	return os.OpenFile(filename, os.O_TRUNC|os.O_WRONLY, 0)
 }
 
-func getTempFile() (f io.WriteCloser, filename string, err error) {
+func getTempFile() (f *os.File, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
 
 	if err != nil {
-- 
2.43.0


From 1bda5171cda5dd7611b809c669b48f2243dc6876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:22 +0000
Subject: [PATCH 55/55] fix: report in diff that the local file could not be
 read

---
 cmd/gosync/diff.go   |  5 +++++
 comparer/comparer.go |  2 +-
 comparer/merger.go   | 28 ++++++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index ec3b3c1..cd5d853 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -104,6 +104,11 @@ func Diff(c *cli.Context) error {
 
 	mergedBlocks := merger.GetMergedBlocks()
 
+	if err := merger.Err(); err != nil {
+		fmt.Printf("Could not read %v: %v\n", localFilename, err)
+		os.Exit(1)
+	}
+
 	fmt.Println("\nMatched:")
 	totalMatchingSize := uint64(0)
 	matchedBlockCountAfterMerging := uint(0)
diff --git a/comparer/comparer.go b/comparer/comparer.go
index 1de9cce..331ae89 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -106,7 +106,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 	if err != nil {
 		ReportErr(
-			fmt.Errorf("Error reading first block in comparison: %v", err),
+			fmt.Errorf("Error reading first block in comparison: %w", err),
 		)
 		return
 	}
diff --git a/comparer/merger.go b/comparer/merger.go
index a99a8c7..3cc3d6a 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -1,6 +1,8 @@
 package comparer
 
 import (
+	"errors"
+	"io"
 	"sort"
 	"sync"
 
@@ -19,6 +21,9 @@ type MatchMerger struct {
 	startEndBlockMap *llrb.LLRB
 
 	blockCount uint
+
+	// the first failure to read what is compared
+	err error
 }
 
 // a span of multiple blocks, from start to end, which match the blocks
@@ -145,6 +150,7 @@ func (merger *MatchMerger) StartMergeResultStream(
 
 		for result := range resultStream {
 			if result.Err != nil {
+				merger.fail(result.Err)
 				return
 			}
 
@@ -228,6 +234,28 @@ func (merger *MatchMerger) StartMergeResultStream(
 	}()
 }
 
+// fail remembers the first error. A comparison that is too short for
+// a block is not one.
+func (merger *MatchMerger) fail(err error) {
+	if errors.Is(err, io.EOF) {
+		return
+	}
+
+	merger.Lock()
+	defer merger.Unlock()
+
+	if merger.err == nil {
+		merger.err = err
+	}
+}
+
+// Err waits for the streams like GetMergedBlocks, and returns the first error that one
+// of them ended with: blocks after it can't have been found
+func (merger *MatchMerger) Err() error {
+	merger.wait.Wait()
+	return merger.err
+}
+
 type BlockSpanList []BlockSpan
 
 func (l BlockSpanList) Len() int {
-- 
2.43.0

