// Package hprodos has the harnesses for ProDOS volumes.
package hprodos

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zzverif/vrt"
)

func le(d []byte, i int) uint16 { return uint16(d[i]) | uint16(d[i+1])<<8 }

func dt(b []byte) prodos.DateTime {
	return prodos.DateTime{YMD: [2]byte{b[0], b[1]}, HM: [2]byte{b[2], b[3]}}
}

// file decodes a directory entry as Beneath Apple ProDOS documents it.
func file(b []byte) prodos.FileDescriptor {
	f := prodos.FileDescriptor{TypeAndNameLength: b[0], FileType: b[0x10], KeyPointer: le(b, 0x11), BlocksUsed: le(b, 0x13),
		EOF: [3]byte{b[0x15], b[0x16], b[0x17]}, Creation: dt(b[0x18:]), Version: b[0x1c], MinVersion: b[0x1d],
		Access: prodos.Access(b[0x1e]), AuxType: le(b, 0x1f), LastMod: dt(b[0x21:]), HeaderPointer: le(b, 0x25)}
	copy(f.FileName[:], b[1:16])
	return f
}

func volHeader(b []byte) prodos.VolumeDirectoryHeader {
	h := prodos.VolumeDirectoryHeader{TypeAndNameLength: b[0], Creation: dt(b[0x18:]), Version: b[0x1c], MinVersion: b[0x1d],
		Access: prodos.Access(b[0x1e]), EntryLength: b[0x1f], EntriesPerBlock: b[0x20], FileCount: le(b, 0x21),
		BitMapPointer: le(b, 0x23), TotalBlocks: le(b, 0x25)}
	copy(h.VolumeName[:], b[1:16])
	copy(h.Unused1[:], b[0x10:0x18])
	return h
}

func subHeader(b []byte) prodos.SubdirectoryHeader {
	h := prodos.SubdirectoryHeader{TypeAndNameLength: b[0], SeventyFive: b[0x10], Creation: dt(b[0x18:]), Version: b[0x1c],
		MinVersion: b[0x1d], Access: prodos.Access(b[0x1e]), EntryLength: b[0x1f], EntriesPerBlock: b[0x20],
		FileCount: le(b, 0x21), ParentPointer: le(b, 0x23), ParentEntry: b[0x25], ParentEntryLength: b[0x26]}
	copy(h.SubdirectoryName[:], b[1:16])
	copy(h.Unused1[:], b[0x11:0x18])
	return h
}

func block(name string) (b disk.Block, raw []byte) {
	raw = vrt.Bytes(name, 512)
	copy(b[:], raw)
	return b, raw
}

func C10_volumeKey() {
	b, raw := block("d")
	var k prodos.VolumeDirectoryKeyBlock
	k.Prev, k.Extra = 7, 7
	vrt.Assert(k.FromBlock(b) == nil, "512 bytes decode")
	out, err := k.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "decoding and encoding a volume directory key block gives the same bytes")
	vrt.Assert(vrt.All(k.Prev == le(raw, 0), k.Next == le(raw, 2), k.Extra == raw[511]), "links")
	vrt.Assert(k.Header == volHeader(raw[4:]), "volume header")
	want := prodos.VolumeDirectoryKeyBlock{Prev: le(raw, 0), Next: le(raw, 2), Header: volHeader(raw[4:]), Extra: raw[511]}
	for i := range k.Descriptors {
		want.Descriptors[i] = file(raw[0x2b+0x27*i:])
		vrt.Assert(k.Descriptors[i] == want.Descriptors[i], "file entry")
	}
	// any structure, encoded and decoded
	out, err = want.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "encoding puts every field at its place")
	var k2 prodos.VolumeDirectoryKeyBlock
	vrt.Assert(k2.FromBlock(out) == nil && k2 == want, "encoding and decoding gives the structure back")
	vrt.ObserveBytes("out", out[:])
}

func C10_volume() {
	b, raw := block("d")
	var k prodos.VolumeDirectoryBlock
	k.Prev, k.Extra = 7, 7
	vrt.Assert(k.FromBlock(b) == nil, "512 bytes decode")
	out, err := k.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "decoding and encoding a volume directory block gives the same bytes")
	vrt.Assert(vrt.All(k.Prev == le(raw, 0), k.Next == le(raw, 2), k.Extra == raw[511]), "links")
	want := prodos.VolumeDirectoryBlock{Prev: le(raw, 0), Next: le(raw, 2), Extra: raw[511]}
	for i := range k.Descriptors {
		want.Descriptors[i] = file(raw[4+0x27*i:])
		vrt.Assert(k.Descriptors[i] == want.Descriptors[i], "file entry")
	}
	out, err = want.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "encoding puts every field at its place")
	var k2 prodos.VolumeDirectoryBlock
	vrt.Assert(k2.FromBlock(out) == nil && k2 == want, "encoding and decoding gives the structure back")
}

func C10_subKey() {
	b, raw := block("d")
	var k prodos.SubdirectoryKeyBlock
	k.Prev, k.Extra = 7, 7
	vrt.Assert(k.FromBlock(b) == nil, "512 bytes decode")
	out, err := k.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "decoding and encoding a subdirectory key block gives the same bytes")
	vrt.Assert(vrt.All(k.Prev == le(raw, 0), k.Next == le(raw, 2), k.Extra == raw[511]), "links")
	vrt.Assert(k.Header == subHeader(raw[4:]), "subdirectory header")
	want := prodos.SubdirectoryKeyBlock{Prev: le(raw, 0), Next: le(raw, 2), Header: subHeader(raw[4:]), Extra: raw[511]}
	for i := range k.Descriptors {
		want.Descriptors[i] = file(raw[0x2b+0x27*i:])
		vrt.Assert(k.Descriptors[i] == want.Descriptors[i], "file entry")
	}
	out, err = want.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "encoding puts every field at its place")
	var k2 prodos.SubdirectoryKeyBlock
	vrt.Assert(k2.FromBlock(out) == nil && k2 == want, "encoding and decoding gives the structure back")
}

func C10_sub() {
	b, raw := block("d")
	var k prodos.SubdirectoryBlock
	k.Prev, k.Extra = 7, 7
	vrt.Assert(k.FromBlock(b) == nil, "512 bytes decode")
	out, err := k.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "decoding and encoding a subdirectory block gives the same bytes")
	vrt.Assert(vrt.All(k.Prev == le(raw, 0), k.Next == le(raw, 2), k.Extra == raw[511]), "links")
	want := prodos.SubdirectoryBlock{Prev: le(raw, 0), Next: le(raw, 2), Extra: raw[511]}
	for i := range k.Descriptors {
		want.Descriptors[i] = file(raw[4+0x27*i:])
		vrt.Assert(k.Descriptors[i] == want.Descriptors[i], "file entry")
	}
	out, err = want.ToBlock()
	vrt.Assert(err == nil && vrt.Eq(out[:], raw), "encoding puts every field at its place")
	var k2 prodos.SubdirectoryBlock
	vrt.Assert(k2.FromBlock(out) == nil && k2 == want, "encoding and decoding gives the structure back")
}

// Through a device: the block is read from and written to its own place.
func C10_device() {
	dev := vrt.Bytes("dev", 4*512)
	keep := vrt.Clone(dev)
	n := uint16(vrt.Pick("block", 4))
	a := int(n) * 512
	var k prodos.VolumeDirectoryKeyBlock
	vrt.Assert(disk.UnmarshalBlock(dev, &k, n) == nil, "the block is read")
	vrt.Assert(k.GetBlock() == n && k.Header == volHeader(keep[a+4:]), "it is the addressed one")
	for i := range dev {
		dev[i] = 0
	}
	vrt.Assert(disk.MarshalBlock(dev, k) == nil, "the block is written")
	vrt.Assert(vrt.Eq(dev[a:a+512], keep[a:a+512]), "the block is written back as it was")
	vrt.Assert(vrt.Eq(dev[:a], make([]byte, a)) && vrt.Eq(dev[a+512:], make([]byte, len(dev)-a-512)), "no other block is written")
}

// Names and types are the parts of the first byte and the name field.
func C10_names() {
	raw := vrt.Bytes("d", 0x27)
	b := make([]byte, 512)
	copy(b[4:], raw)
	copy(b[0x2b:], raw)
	var blk disk.Block
	copy(blk[:], b)
	var k prodos.SubdirectoryKeyBlock
	vrt.Assert(k.FromBlock(blk) == nil, "512 bytes decode")
	n := vrt.Conc(int(raw[0] & 15))
	vrt.Assert(k.Header.Name() == string(raw[1:1+n]), "a subdirectory's name has the length given")
	f := k.Descriptors[0]
	vrt.Assert(f.Name() == string(raw[1:1+n]), "a file's name has the length given")
	vrt.Assert(f.Type() == raw[0]>>4, "the storage type is the upper half byte")
	vrt.ObserveBytes("name", []byte(f.Name()))
}
