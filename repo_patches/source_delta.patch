From ee09556867a72ac5e090b08faf1e3e47f4a1827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:25 +0000
Subject: [PATCH 01/19] fix: dos3: detect cyclic catalog sector chains

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From 8cd279ae56be62203fd0384ce0a27fa51388eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:54 +0000
Subject: [PATCH 02/19] fix: dos3: reading a text file of zeros must not panic

---
 dos3/dos3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..9402544 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -623,7 +623,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
-- 
2.43.0


From 128033a76e6fba37e63fbbf1f7b18ec64f43baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:54 +0000
Subject: [PATCH 03/19] fix: dos3: an empty last track/sector list holds no
 sectors

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 9402544..271cb68 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
-- 
2.43.0


From e688d1fb8d058c5b41d231b90d7c442d4bf1fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:54 +0000
Subject: [PATCH 04/19] fix: dos3: refuse a recorded length larger than the
 file's data

---
 dos3/dos3.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 271cb68..93ded75 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -638,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a start address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q has a length of %d, but only %d bytes of data", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From 1771a09c0aeef69f703418e2e5b11428f3226de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:45 +0000
Subject: [PATCH 05/19] fix: prodos: IndexBlock.Set must change the block it is
 called on

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..94c0d97 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From d9bf196e29dc5e35b3153385ad01608669881ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:45 +0000
Subject: [PATCH 06/19] fix: prodos: NewVolumeBitMap must not overflow for more
 than 61440 blocks

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 94c0d97..af1ba74 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From c0c1d3cd6024de8feaa65c69d4b94b4213f30244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:19 +0000
Subject: [PATCH 07/19] fix: prodos: detect loops in directory block chains and
 parent pointers

---
 prodos/prodos.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index af1ba74..f50d47c 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -692,7 +692,12 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// 	fmt.Fprintf(os.Stderr, "volume bitmap: %#v\n", v.bitmap)
 	// }
 
+	seen := map[uint16]bool{keyBlock: true}
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if seen[block] {
+			return v, fmt.Errorf("volume directory contains a loop: block %d appears twice", block)
+		}
+		seen[block] = true
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,6 +719,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
+		if v.subdirsByBlock[sdd.KeyPointer] != nil {
+			return v, fmt.Errorf("subdirectory %q (block %d) has more than one directory entry", sdd.Name(), sdd.KeyPointer)
+		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
 			return v, err
@@ -739,7 +747,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, len(v.subdirsByBlock))
 		if err != nil {
 			return v, err
 		}
@@ -784,7 +792,7 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 }
 
 // parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, maxDepth int) (string, error) {
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
@@ -799,7 +807,11 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	if maxDepth <= 0 {
+		return "", fmt.Errorf("the parents of the subdirectory at block %d form a loop", parentDirectoryBlock)
+	}
+
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, maxDepth-1)
 	if err != nil {
 		return "", err
 	}
@@ -821,7 +833,12 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
+	seen := map[uint16]bool{fd.KeyPointer: true}
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q contains a loop: block %d appears twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From 4bc4a41b616f0621aa295ad5370a495643afb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:26 +0000
Subject: [PATCH 08/19] fix: supermon: refuse to write an empty file instead of
 crashing

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..30cfa24 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -188,6 +188,9 @@ func (sm SectorMap) Delete(file byte) {
 // WriteFile writes the contents of a file. It returns true if the
 // file already existed.
 func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, overwrite bool) (bool, error) {
+	if len(contents) == 0 {
+		return len(sm.SectorsForFile(file)) > 0, fmt.Errorf("cannot write empty contents to file %d", file)
+	}
 	sectorsNeeded := (len(contents) + 255) / 256
 	cts := make([]byte, 256*sectorsNeeded)
 	copy(cts, contents)
-- 
2.43.0


From 040ddf331c777c4a6f6dafe39905cd0bb5b00e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:02 +0000
Subject: [PATCH 09/19] fix: supermon: refuse symbol names with characters that
 cannot be encoded

---
 supermon/supermon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 30cfa24..381d79b 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -298,6 +298,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 27a54728035ac65637bd766f61dcddf13ef36330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:16 +0000
Subject: [PATCH 10/19] fix: supermon: notice a full symbol table before
 writing the file

---
 supermon/supermon.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 381d79b..fa8b7b3 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -775,14 +775,20 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 			return false, fmt.Errorf("all files already used")
 		}
 	}
+	needSymbol := namedFile != numFile && symbol != ""
+	newST := append(SymbolTable{}, o.ST...)
+	if needSymbol {
+		// Do this before writing anything: the symbol table may be full.
+		if err := newST.AddSymbol(symbol, 0xDF00+uint16(numFile)); err != nil {
+			return false, err
+		}
+	}
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
 	if err != nil {
 		return existed, err
 	}
-	if namedFile != numFile && symbol != "" {
-		if err := o.ST.AddSymbol(symbol, 0xDF00+uint16(numFile)); err != nil {
-			return existed, err
-		}
+	if needSymbol {
+		copy(o.ST, newST)
 		if err := o.SM.WriteSymbolTable(o.data, o.ST); err != nil {
 			return existed, err
 		}
-- 
2.43.0


From 9a4381634946f4f241e0677adcb6114e73eab8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 11/19] fix: supermon: unused symbol table entries are not
 members of any chain

---
 supermon/supermon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index fa8b7b3..09c01f0 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -460,7 +460,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 				if i == j {
 					continue
 				}
-				if st[j].Link == i {
+				if st[j].Address != 0 && st[j].Link == i {
 					st[j].Link = sym.Link
 					break
 				}
@@ -499,7 +499,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 52ffe2bc7cea0b991a72a8980b9634bfcebbd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 12/19] fix: supermon: ParseCompoundSymbol accepts valid symbol
 names, not invalid ones

---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 09c01f0..64e3838 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -584,8 +584,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From 78fa75a33ddf88071636c496e5c339b2e3a5f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 13/19] fix: applesoft: a next-line address just below the
 program is outside the input

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..9bb9e41 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -151,7 +151,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	next := int(location)
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
-- 
2.43.0


From 2241757b24d31306481448fffadf1fe0fa37d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:00 +0000
Subject: [PATCH 14/19] fix: applesoft: detect programs whose next-line
 addresses form a loop

---
 basic/applesoft/applesoft.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 9bb9e41..bf8ad17 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,7 +149,12 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
+	seen := map[int]bool{} // addresses of lines already read
 	for next != 0 {
+		if seen[next] {
+			return nil, fmt.Errorf("line %d has next line at $%X, which has already been listed", last, next)
+		}
+		seen[next] = true
 		ofs := calcOffset(next)
 		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
-- 
2.43.0


From aa4b61c3dae0e25660de824fa56bee7ca0f54e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:31 +0000
Subject: [PATCH 15/19] fix: integer: refuse lines too short to hold their own
 header

---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..c425a91 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has a length of %d bytes; the minimum is 4", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 4565b76416c572ff6959d5c4d696263879bcfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:28 +0000
Subject: [PATCH 16/19] fix: mksd: the load address, not the start address,
 limits the length

---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From d0b8071aa0e891a1e963632072a76e67ddcbec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:02 +0000
Subject: [PATCH 17/19] fix: rm -f: a missing symbolic name is not an error

---
 cmd/delete.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/delete.go b/cmd/delete.go
index 2d4a7f2..04c8a7e 100644
--- a/cmd/delete.go
+++ b/cmd/delete.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 
 	"github.com/zellyn/diskii/disk"
+	"github.com/zellyn/diskii/errors"
 	"github.com/zellyn/diskii/types"
 )
 
@@ -34,7 +35,7 @@ func (d *DeleteCmd) Run(globals *types.Globals) error {
 	}
 
 	deleted, err := op.Delete(d.Filename)
-	if err != nil {
+	if err != nil && !(d.MissingOk && errors.IsFileNotFound(err)) {
 		return err
 	}
 	if !deleted && !d.MissingOk {
-- 
2.43.0


From fe1eac216223ee1782cdeba245717c9ac5cd1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 18/19] fix: types: the empty name is not the name of a file
 type

---
 types/filetype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..23dd200 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -179,6 +179,10 @@ func (f Filetype) String() string {
 // FiletypeForName returns the filetype for a full, three-letter, or
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
+	if name == "" {
+		// Most types have no three-letter or one-letter name.
+		return 0, fmt.Errorf("empty Filetype name")
+	}
 	for _, info := range filetypeInfos {
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
-- 
2.43.0


From 96f1a99c5ce59d187940e6a8b277f8188213c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:15 +0000
Subject: [PATCH 19/19] fix: prodos: times are stored minute first, so validate
 the hour and minute in that order

---
 prodos/prodos.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index f50d47c..1b88ca5 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -154,11 +154,12 @@ func (dt *DateTime) fromBytes(b []byte) {
 
 // Validate checks a DateTime for problems, returning a slice of errors.
 func (dt DateTime) Validate(fieldDescription string) (errors []error) {
-	if dt.HM[0] >= 24 {
-		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
+	// The time is stored as a little-endian word: minute first, then hour.
+	if dt.HM[1] >= 24 {
+		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[1]))
 	}
-	if dt.HM[1] >= 60 {
-		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
+	if dt.HM[0] >= 60 {
+		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[0]))
 	}
 	return errors
 }
-- 
2.43.0

