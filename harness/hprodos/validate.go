package hprodos

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// irregular counts the times out of range in the 4 bytes of a timestamp, whose
// third is the minute and fourth the hour.
func irregular(b []byte) int {
	return vrt.If(b[2] >= 60, 1, 0) + vrt.If(b[3] >= 24, 1, 0)
}

// times sets all timestamps of a block to midnight but for the entries kept, and
// the lengths of all names to 3 to 15.

func times(b []byte, keep ...int) {
	for e := 0; e < 13; e++ {
		o := 4 + 0x27*e
		b[o] = b[o]&0xf0 | byte(e+3)
		kept := false
		for _, k := range keep {
			kept = kept || k == e
		}
		if !kept {
			copy(b[o+0x18:], []byte{0, 0, 0, 0})
			copy(b[o+0x21:], []byte{0, 0, 0, 0})
		}
	}
}

// first is the first byte of the kept entry, if not negative.
var first = -1

// validate checks one kind of block, with arbitrary times in up to two entries
// and anything in all other fields.
func validate(kind int, keep ...int) {
	b := vrt.Bytes("d", 512)
	times(b, keep...)
	if first >= 0 {
		b[4+0x27*keep[0]] = byte(first)
	}
	if len(keep) > 1 {
		b[0], b[1], b[511] = 0, 0, 0
	}
	want := vrt.If(b[511] != 0, 1, 0)
	if kind < 2 {
		want += vrt.If(le(b, 0) != 0, 1, 0)
	}
	if kind == 1 {
		want += vrt.If(b[4+0x10] != 0x75, 1, 0)
	}
	done := map[int]bool{}
	for _, e := range keep {
		if done[e] {
			continue
		}
		done[e] = true
		o := 4 + 0x27*e
		want += irregular(b[o+0x18:])
		if e > 0 || kind >= 2 {
			// a header has other fields in place of a second time
			want += irregular(b[o+0x21:])
		}
	}
	var blk disk.Block
	copy(blk[:], b)
	var errs []error
	switch kind {
	case 0:
		var k prodos.VolumeDirectoryKeyBlock
		vrt.Assert(k.FromBlock(blk) == nil, "512 bytes decode")
		errs = k.Validate()
	case 1:
		var k prodos.SubdirectoryKeyBlock
		vrt.Assert(k.FromBlock(blk) == nil, "512 bytes decode")
		errs = k.Validate()
	case 2:
		var k prodos.VolumeDirectoryBlock
		vrt.Assert(k.FromBlock(blk) == nil, "512 bytes decode")
		errs = k.Validate()
	default:
		var k prodos.SubdirectoryBlock
		vrt.Assert(k.FromBlock(blk) == nil, "512 bytes decode")
		errs = k.Validate()
	}
	vrt.Assert((len(errs) > 0) == (want > 0), "a block is regular exactly if every field is")
	vrt.Assert(len(errs) == want, "each irregular field is reported once")
	for _, e := range errs {
		vrt.Assert(e != nil, "as an error")
	}
	if len(errs) == 0 {
		vrt.Reach("regular")
	} else {
		vrt.Reach("irregular")
	}
}

// Any block of each kind, with arbitrary times in any one entry.
func C35_one() { validate(vrt.Pick("kind", 4), vrt.Pick("e", 13)) }

// In any entry and the first or last.
func C35T_two() { validate(vrt.Pick("kind", 4), vrt.Pick("e", 13), 12*vrt.Pick("f", 2)) }

// Entries that are deleted, have no name, or are subdirectories.
func C35_kinds() {
	first = []int{0, 0x0c, 0x20, 0xd3, 0xf0}[vrt.Pick("first", 5)]
	validate(vrt.Pick("kind", 4), []int{0, 1, 6, 12}[vrt.Pick("e", 4)])
}
