package hprodos

import (
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// A new bitmap of any of these sizes has every block free and nothing else.
func C13_new() {
	n := []int{0, 1, 7, 8, 9, 280, 4095, 4096, 4097, 1600, 65535, 61440, 61441}[vrt.Pick("n", 13)]
	fresh(n)
}

// Any size up to 600.
func C13T_new() { fresh(vrt.Pick("n", 600)) }

// Sizes around every bitmap block boundary.
func C13T_edges() { fresh(4096*(1+vrt.Pick("k", 15)) - 1 + vrt.Pick("d", 3)) }

func fresh(n int) {
	vbm := prodos.NewVolumeBitMap(6, uint16(n))
	vrt.Assert(len(vbm)*4096 >= n, "the bitmap has room for every block")
	if n > 0 {
		b := vrt.Int("b", 0, n-1)
		vrt.Assert(vbm.IsFree(uint16(b)), "every block is free")
	}
	dev := make([]byte, 30*512)
	want := make([]byte, 30*512)
	end := 6*512 + (n+4095)/4096*512
	for i := range dev {
		dev[i] = 0xA7 // what was there before
		if i < 6*512 || i >= end {
			want[i] = 0xA7
		}
	}
	vrt.Assert(vbm.Write(dev) == nil, "the bitmap is written")
	for i := 0; i < n; i++ {
		want[6*512+i/8] |= 0x80 >> uint(i%8)
	}
	vrt.Assert(vrt.Eq(dev[:6*512+(n+7)/8], want[:6*512+(n+7)/8]), "each block's bit is at its place, most significant first")
	vrt.Assert(vrt.Eq(dev[end:], want[end:]), "nothing beyond the bitmap is written")
	vrt.Observe("len", len(vbm))
}

// Marking any block of a floppy's bitmap with any other block marked before.
func C13_mark() {
	n := 280
	mark(n, vrt.Int("a", 0, n-1), vrt.Int("b", 0, n-1), vrt.Int("c", 0, n-1))
}

// The same across bitmap blocks, for the blocks at both ends of each.
func C13_markLarge() { mark(3*4096, end("a", 3), end("b", 3), end("c", 3)) }

// end is one of the first or last 64 blocks of the first n bitmap blocks.
func end(name string, n int) int {
	return vrt.Pick(name, n)<<12 | 4032*vrt.Pick(name, 2) | int(vrt.Byte(name)&0x3f)
}

// in is any block of the first n bitmap blocks.
func in(name string, n int) int {
	return vrt.Pick(name, n)<<12 | int(vrt.U16(name)&0xfff)
}

func mark(n, a, b, c int) {
	vbm := prodos.NewVolumeBitMap(2, uint16(n))
	used := vrt.Bool("used")
	vbm.MarkUsed(uint16(a))
	before := vbm.IsFree(uint16(c))
	vrt.Assert(before == (c != a), "marking a block used changes that block alone")
	if used {
		vbm.MarkUsed(uint16(b))
		vrt.Assert(!vbm.IsFree(uint16(b)), "a block marked used is not free")
	} else {
		vbm.MarkUnused(uint16(b))
		vrt.Assert(vbm.IsFree(uint16(b)), "a block marked free is free")
	}
	vrt.Assert(vrt.Imp(c != b, vbm.IsFree(uint16(c)) == before), "the state of no other block changes")
	dev := make([]byte, 6*512)
	vrt.Assert(vbm.Write(dev) == nil, "the bitmap is written")
	part := 2*512 + vrt.Conc(c>>12)*512
	bit := vrt.Clone(dev[part : part+512])[(c&0xfff)/8] >> uint(7-c%8) & 1
	vrt.Assert((bit == 1) == vbm.IsFree(uint16(c)), "the written bit is the block's state")
}

// Writing to a device too small for the bitmap is an error.
func C13_write() {
	start := vrt.Pick("start", 4)
	nb := vrt.Pick("blocks", 4)
	vbm := prodos.NewVolumeBitMap(uint16(start), 5000)
	u := in("u", 2)
	vrt.Assume(u < 5000)
	vbm.MarkUsed(uint16(u))
	dev := vrt.Bytes("dev", nb*512)
	keep := vrt.Clone(dev)
	err := vbm.Write(dev)
	vrt.Assert((err == nil) == (start+2 <= nb), "writing fails exactly when the device is too small")
	if err == nil {
		vrt.Assert(vrt.Eq(dev[:start*512], keep[:start*512]) && vrt.Eq(dev[start*512+1024:], keep[start*512+1024:]), "only the bitmap's blocks are written")
		i := in("i", 2)
		part := start*512 + vrt.Conc(i>>12)*512
		bit := vrt.Clone(dev[part : part+512])[(i&0xfff)/8] >> uint(7-i%8) & 1
		vrt.Assume(i < 5000)
		vrt.Assert((bit == 1) == (i != u), "each block's bit is at its place")
	}
}

// Index blocks of any contents.
func C13_index() {
	raw := vrt.Bytes("d", 512)
	var ib prodos.IndexBlock
	copy(ib[:], raw)
	i, j := vrt.Byte("i"), vrt.Byte("j")
	v := vrt.U16("v")
	vrt.Assert(ib.Get(j) == uint16(raw[j])|uint16(raw[256+int(j)])<<8, "low bytes come first, high bytes in the second half")
	old := ib.Get(j)
	ib.Set(i, v)
	vrt.Assert(ib.Get(i) == v, "an entry that was set is read back")
	vrt.Assert(vrt.Imp(i != j, ib.Get(j) == old), "the other entries stay")
	k := int(i)
	vrt.Assert(vrt.All(ib[k] == byte(v), ib[256+k] == byte(v>>8)), "the entry is stored low byte, high byte")
	n := vrt.Int("n", 0, 511)
	vrt.Assert(vrt.Any(n == k, n == 256+k, ib[n] == raw[n]), "no other byte changes")
}

// A bitmap with no block free, or none in one of its parts, is written whole.
func C13_full() {
	n := []int{8, 4096, 5000, 8192}[vrt.Pick("n", 4)]
	vbm := prodos.NewVolumeBitMap(1, uint16(n))
	from, to := 0, n
	switch vrt.Pick("what", 3) {
	case 1:
		to = n / 2
	case 2:
		from = n / 2
	}
	for b := from; b < to; b++ {
		vbm.MarkUsed(uint16(b))
	}
	c := from + vrt.Pick("free again", 3)
	if c < from+2 && c < to {
		vbm.MarkUnused(uint16(c))
	} else {
		c = -1
	}
	dev, want := vrt.Bytes("dev", 4*512), make([]byte, 4*512)
	keep := vrt.Clone(dev)
	for i := 0; i < n; i++ {
		if i < from || i >= to || i == c {
			want[512+i/8] |= 0x80 >> uint(i%8)
		}
	}
	vrt.Assert(vbm.Write(dev) == nil, "the bitmap is written")
	vrt.Assert(vrt.Eq(dev[512:512+n/8], want[512:512+n/8]), "each block's bit is at its place")
	end := 512 + (n+4095)/4096*512
	vrt.Assert(vrt.Eq(dev[:512], keep[:512]) && vrt.Eq(dev[end:], keep[end:]), "only the bitmap's blocks are written")
	vrt.Reach("full")
}
