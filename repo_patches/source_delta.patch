From 6dc64bc4f840d53e6e5f2fe3ba358be4a1647a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 01/12] fix: gen-lookup dropped the last partial row of the
 size tables

The committed tables held 2045 entries while the clients announce 2048,
so epochs 2045-2047 indexed past the end. Emit the partial row and
regenerate the four tables.
---
 cmd/gen-lookup/main.go    | 8 ++++----
 ethash/ethash_lookup.go   | 2 ++
 firopow/firopow_lookup.go | 2 ++
 kawpow/kawpow_lookup.go   | 2 ++
 octopus/octopus_lookup.go | 2 ++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..3f5389b 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
@@ -55,13 +55,13 @@ func formatLookupTable(lookupTable []uint64, rowSize int) string {
 		for j := 0; j < rowSize; j++ {
 			index := (i * rowSize) + j
 			if index >= len(lookupTable) {
-				continue
+				break
 			}
 
-			row += fmt.Sprintf("%d,", lookupTable[index])
-			if j < rowSize-1 {
+			if j > 0 {
 				row += " "
 			}
+			row += fmt.Sprintf("%d,", lookupTable[index])
 		}
 
 		formatted += fmt.Sprintf("\t%s\n", row)
diff --git a/ethash/ethash_lookup.go b/ethash/ethash_lookup.go
index 30722e3..5adcf20 100644
--- a/ethash/ethash_lookup.go
+++ b/ethash/ethash_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/firopow/firopow_lookup.go b/firopow/firopow_lookup.go
index 90af954..bcad4f7 100644
--- a/firopow/firopow_lookup.go
+++ b/firopow/firopow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18639486848, 18647874688, 18656262784, 18664651648, 18673037696,
 	18681429376, 18689814656, 18698201728, 18706594688, 18714980224,
 	18723370112, 18731761024, 18740150144, 18748538752, 18756927104,
+	18765314944, 18773701504, 18782091392,
 }
diff --git a/kawpow/kawpow_lookup.go b/kawpow/kawpow_lookup.go
index 00e4e58..ec90e03 100644
--- a/kawpow/kawpow_lookup.go
+++ b/kawpow/kawpow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/octopus/octopus_lookup.go b/octopus/octopus_lookup.go
index ea6d295..38f6bfa 100644
--- a/octopus/octopus_lookup.go
+++ b/octopus/octopus_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	149814976, 149880128, 149943616, 150010688, 150076352,
 	150142144, 150208064, 150272704, 150338624, 150404416,
 	150470464, 150535232, 150600256, 150666688, 150732224,
+	150798016, 150862784, 150927808,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	38352710912, 38369479424, 38386267904, 38403044096, 38419820288,
 	38436601088, 38453377792, 38470155008, 38486933248, 38503693568,
 	38520487168, 38537264384, 38554037504, 38570818304, 38587595008,
+	38604372736, 38621145344, 38637924608,
 }
-- 
2.43.0


From 9c797b9024c2acac72e6b732dcb2530c19278a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 02/12] fix: set MixBytes for Ethereum Classic

Without it the dataset size of any epoch past the lookup table divides by
zero.
---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From 7a49ecfdef0bf604c0baf490590f6acaaeb5cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 03/12] fix: require ascending edges in cuckoo and cuckaroo
 proofs

The order check tested n < 0 and so never ran: any permutation of a valid
proof was accepted.
---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 4ee813e8840895cfbf30f31844c44c0371fe26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 04/12] fix: refuse the all-zero hash in heavyhash

xoshiro256++ never leaves the all-zero state, so the search for a full
rank matrix looped forever.
---
 heavyhash/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heavyhash/client.go b/heavyhash/client.go
index d9643b9..76bd04d 100644
--- a/heavyhash/client.go
+++ b/heavyhash/client.go
@@ -1,6 +1,7 @@
 package heavyhash
 
 import (
+	"bytes"
 	"fmt"
 )
 
@@ -19,6 +20,10 @@ func NewKaspa() *Client {
 func (c *Client) Compute(hash []byte, timestamp int64, nonce uint64) ([]byte, error) {
 	if len(hash) != 32 {
 		return nil, fmt.Errorf("hash must be 32 bytes")
+	} else if bytes.Equal(hash, make([]byte, 32)) {
+		// the generator that fills the matrix only yields zeros for the
+		// all-zero seed, so no full rank matrix exists for it
+		return nil, fmt.Errorf("hash must not be zero")
 	}
 
 	digest := heavyHash(hash, timestamp, nonce)
-- 
2.43.0


From af730becd449502bf0dda4e394b5909c9c1f6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 05/12] fix: hash the autolykos2 element sum as 32 padded bytes

The reference hashes the sum as a fixed 32-byte number; a sum with leading
zero bytes was hashed short.
---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 89d284e..8c0e8d4 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -84,7 +84,7 @@ func compute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
 		f2.Add(f2, new(big.Int).SetBytes(elemHash))
 	}
 
-	ha := crypto.Blake2b256(f2.Bytes())
+	ha := crypto.Blake2b256(f2.FillBytes(make([]byte, 32)))
 
 	return ha
 }
-- 
2.43.0


From 6344f0d036421a92f304603fe80422deaa8f4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 06/12] fix: only load cache files that have the complete size

A file shorter than the magic panicked, and a truncated or extended file
with an intact magic was used as if it were complete, which crashed or
gave wrong hashes. Check that the file is regular and has exactly the
expected size, otherwise generate it again.
---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 24 +++++++++++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..83af3ce 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,15 +38,33 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// has to be a regular file that holds exactly size bytes of data after the magic.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
+	// Opening anything but a regular file could block
+	info, err := os.Stat(path)
+	if err != nil {
+		return df, err
+	} else if !info.Mode().IsRegular() {
+		return df, errors.New("dump is not a regular file")
+	}
+
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
 	if err != nil {
 		return df, err
 	}
 
+	info, err = file.Stat()
+	if err != nil {
+		file.Close()
+		return df, err
+	} else if uint64(info.Size()) != uint64(len(dumpMagic))*4+size {
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	mem, buffer, err := memoryMapFile(file, false)
 	if err != nil {
 		file.Close()
@@ -160,5 +178,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From 4a6ff52872690486e8850da20417c610e693405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 07/12] fix: reserve disk space before generating a cache file

The file was only truncated to its size, so on a full disk writing to the
mapping killed the process with SIGBUS. Use fallocate on linux, so that a
full disk is an error and the cache is generated in memory instead.
---
 internal/dag/mmap.go            | 12 ----------
 internal/dag/mmap_size_linux.go | 41 +++++++++++++++++++++++++++++++++
 internal/dag/mmap_size_other.go | 30 ++++++++++++++++++++++++
 3 files changed, 71 insertions(+), 12 deletions(-)
 create mode 100644 internal/dag/mmap_size_linux.go
 create mode 100644 internal/dag/mmap_size_other.go

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 83af3ce..45f2402 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -118,18 +118,6 @@ func memoryMapFile(file *os.File, write bool) (mmap.MMap, []uint32, error) {
 	return mem, view, nil
 }
 
-// ensureSize expands the file to the given size. This is to prevent runtime
-// errors later on, if the underlying file expands beyond the disk capacity,
-// even though it ostensibly is already expanded, but due to being sparse
-// does not actually occupy the full declared size on disk.
-func ensureSize(f *os.File, size int64) error {
-	// On systems which do not support fallocate, we merely truncate it.
-	// More robust alternatives  would be to
-	// - Use posix_fallocate, or
-	// - explicitly fill the file with zeroes.
-	return f.Truncate(size)
-}
-
 // memoryMapAndGenerate tries to memory map a temporary file of uint32s for write
 // access, fill it with the data from a generator and then move it into the final
 // path requested.
diff --git a/internal/dag/mmap_size_linux.go b/internal/dag/mmap_size_linux.go
new file mode 100644
index 0000000..51729a3
--- /dev/null
+++ b/internal/dag/mmap_size_linux.go
@@ -0,0 +1,41 @@
+// Copyright 2017 The go-ethereum Authors
+// This file is part of the go-ethereum library.
+//
+// The go-ethereum library is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Lesser General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// The go-ethereum library is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
+// GNU Lesser General Public License for more details.
+//
+// You should have received a copy of the GNU Lesser General Public License
+// along with the go-ethereum library. If not, see <http://www.gnu.org/licenses/>.
+
+package dag
+
+import (
+	"os"
+	"syscall"
+)
+
+// ensureSize expands the file to the given size and reserves its blocks. This is to
+// prevent runtime errors later on, if the underlying file expands beyond the disk
+// capacity, even though it ostensibly is already expanded, but due to being sparse
+// does not actually occupy the full declared size on disk.
+func ensureSize(f *os.File, size int64) error {
+	for {
+		err := syscall.Fallocate(int(f.Fd()), 0, 0, size)
+		switch err {
+		case syscall.EINTR:
+			continue
+		case syscall.EOPNOTSUPP, syscall.ENOSYS:
+			// the file system can't reserve blocks
+			return f.Truncate(size)
+		default:
+			return err
+		}
+	}
+}
diff --git a/internal/dag/mmap_size_other.go b/internal/dag/mmap_size_other.go
new file mode 100644
index 0000000..0b4c4d3
--- /dev/null
+++ b/internal/dag/mmap_size_other.go
@@ -0,0 +1,30 @@
+// Copyright 2017 The go-ethereum Authors
+// This file is part of the go-ethereum library.
+//
+// The go-ethereum library is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Lesser General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// The go-ethereum library is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
+// GNU Lesser General Public License for more details.
+//
+// You should have received a copy of the GNU Lesser General Public License
+// along with the go-ethereum library. If not, see <http://www.gnu.org/licenses/>.
+
+//go:build !linux
+// +build !linux
+
+package dag
+
+import (
+	"os"
+)
+
+// ensureSize expands the file to the given size. There is no portable way to reserve
+// its blocks, so we merely truncate it.
+func ensureSize(f *os.File, size int64) error {
+	return f.Truncate(size)
+}
-- 
2.43.0


From c8bda6818e50a6214bae607f5fb65eaa2c2375e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 08/12] fix: remove the temporary file when a generated cache
 can't be stored

Every failed attempt left a cache-sized file behind, which nothing ever
removes.
---
 internal/dag/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 45f2402..9a5bdc0 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -155,14 +155,18 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	generator(data)
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From fb8cf25e0a37283b5895f1e756d84ceb728649a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 09/12] fix: never share a temporary cache file with another
 process

---
 internal/dag/mmap.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 9a5bdc0..cc70b77 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -129,9 +129,18 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	// Create a huge temporary empty file to fill with data
-	temp := path + "." + strconv.Itoa(rand.Int())
-	dump, err := os.Create(temp)
+	// Create a huge temporary empty file to fill with data. Another process may draw
+	// the same name, so it must not exist yet.
+	var temp string
+	var dump *os.File
+	var err error
+	for try := 0; try < 1000; try++ {
+		temp = path + "." + strconv.Itoa(rand.Int())
+		dump, err = os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			break
+		}
+	}
 	if err != nil {
 		return df, err
 	}
-- 
2.43.0


From 5e68818387093f9943be8db1c1c972c534c8f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 10/12] fix: compute cache offsets in the width of int

Rows of caches of 4 GiB and more were looked up at offsets that had
wrapped around in 32 bits, while generating (from 2^26 rows on) and while
deriving dataset items (from 2^28 rows on).
---
 internal/dag/generate.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/dag/generate.go b/internal/dag/generate.go
index d8493a0..6884fe7 100644
--- a/internal/dag/generate.go
+++ b/internal/dag/generate.go
@@ -59,7 +59,7 @@ func (d *DAG) generateCache(dest []uint32, epoch uint64, seed []byte) {
 			var (
 				srcOff = ((j - 1 + rows) % rows) * hashBytes
 				dstOff = j * hashBytes
-				xorOff = (binary.LittleEndian.Uint32(cache[dstOff:]) % uint32(rows)) * hashBytes
+				xorOff = int(binary.LittleEndian.Uint32(cache[dstOff:])%uint32(rows)) * hashBytes
 			)
 			bitutil.XORBytes(temp, cache[srcOff:srcOff+hashBytes], cache[xorOff:xorOff+hashBytes])
 			keccak512Hasher(cache[dstOff:], temp)
@@ -89,13 +89,14 @@ func (d *DAG) generateL1Cache(dest []uint32, cache []uint32) {
 func (d *DAG) generateDatasetItem(cache []uint32, index uint32, keccak512Hasher crypto.Hasher) []byte {
 	// Calculate the number of theoretical rows (we use one buffer nonetheless)
 	rows := uint32(len(cache) / hashWords)
+	row := int(index%rows) * hashWords
 
 	// Initialize the mix
 	mix := make([]byte, hashBytes)
 
-	binary.LittleEndian.PutUint32(mix, cache[(index%rows)*hashWords]^index)
+	binary.LittleEndian.PutUint32(mix, cache[row]^index)
 	for i := 1; i < hashWords; i++ {
-		binary.LittleEndian.PutUint32(mix[i*4:], cache[(index%rows)*hashWords+uint32(i)])
+		binary.LittleEndian.PutUint32(mix[i*4:], cache[row+i])
 	}
 
 	keccak512Hasher(mix, mix)
@@ -109,7 +110,7 @@ func (d *DAG) generateDatasetItem(cache []uint32, index uint32, keccak512Hasher
 	// fnv it with a lot of random cache nodes based on index
 	for i := uint32(0); i < d.DatasetParents; i++ {
 		parent := crypto.Fnv1(index^i, intMix[i%16]) % rows
-		crypto.FnvHash(intMix, cache[parent*hashWords:])
+		crypto.FnvHash(intMix, cache[int(parent)*hashWords:])
 	}
 
 	// Flatten the uint32 mix into a binary one and return
-- 
2.43.0


From 25b2cb4ad7877ed1b120c35442d317926a0c3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 11/12] fix: decode Equihash fields of more than 26 bits

The accumulator of expandArray had 32 bits, but up to bitLen+7 are needed:
indices and collision segments of 27 bits and more lost their upper bits,
so valid solutions for such parameters, (104,3) say, were refused.
---
 equihash/equihash.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 656a1db..976daec 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -52,11 +52,13 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 	}
 
 	output := make([]byte, outputLen)
-	var bitLenMask uint32 = (1 << bitLen) - 1
+	var bitLenMask uint64 = (1 << bitLen) - 1
 
-	var accBits, accValue, j uint32
+	// up to bitLen+7 bits are held at a time, which may be more than 32
+	var accValue uint64
+	var accBits, j uint32
 	for i := range input {
-		accValue = (accValue << 8) | uint32(input[i])
+		accValue = (accValue << 8) | uint64(input[i])
 		accBits += 8
 
 		if accBits >= bitLen {
-- 
2.43.0


From 916454f598e6c4b908ec63e6e5a07995c1038799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 12/12] fix: refuse Equihash solutions of 4 GiB and more

Their length was compared in 32 bits, so a solution of 2^32 bytes more than
the right length was taken for one of the right length and the call crashed.
---
 equihash/equihash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 976daec..5fd420a 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -78,9 +78,9 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 
 func indicesFromMinimal(n, k uint32, minimal []byte) ([]uint32, error) {
 	cBitLen := collisionBitLength(n, k)
-	minimalLen := uint32(len(minimal))
+	minimalLen := uint64(len(minimal))
 
-	if minimalLen != ((1<<k)*(cBitLen+1))/8 {
+	if minimalLen != uint64(((1<<k)*(cBitLen+1))/8) {
 		return nil, fmt.Errorf("invalid minimal for parameters")
 	} else if (((cBitLen + 1) + 7) / 8) > 4 {
 		return nil, fmt.Errorf("invalid n, k parameters")
-- 
2.43.0

