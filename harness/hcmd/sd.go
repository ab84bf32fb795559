package hcmd

import (
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// place is where the boot loader finds the i-th page of a binary: physical
// sectors 0,2,..,14,1,3,..,15 of track after track, the boot sector being the
// very first.
func place(i int) (track, sector int) {
	n := i + 1
	track, n = n/16, n%16
	if n < 8 {
		return track, 2 * n
	}
	return track, 2*(n-8) + 1
}

func sdRun(n int, order types.DiskOrder, name string, full bool) {
	addr := vrt.U16("addr")
	start := vrt.U16("start")
	if !full {
		// a binary that fits: only the contents are of interest
		vrt.Assume(addr == 0x0900)
		vrt.Assume(start == 0xFFFF)
	}
	bin := vrt.Bytes("bin", n)
	src := vrt.Path("bin.o")
	vrt.WriteFile(src, bin)
	dst := vrt.Path(name)
	old := vrt.Bytes("old", 3)
	exists := vrt.Pick("exists", 2) == 1
	if exists {
		vrt.WriteFile(dst, old)
	}
	c := &cmd.SDCmd{Order: order, DiskImage: dst, Binary: vrt.OpenFile(src), Address: addr, Start: start}
	err := c.Run(globals())
	jump := vrt.If(start == 0xFFFF, int(addr), int(start))
	a := int(addr)
	ok := vrt.All(addr&0xff == 0, jump >= a, jump < a+n, a+n <= 0xC000, n <= 176*256)
	vrt.Assert((err == nil) == ok, "a binary is accepted exactly when it is page aligned, holds its start address, ends at or below C000 and its page table fits")
	vrt.Assert(same(src, bin), "the binary is left alone")
	if err != nil {
		if exists {
			vrt.Assert(same(dst, old), "a refused binary leaves an existing file alone")
		} else {
			_, there := vrt.ReadFile(dst)
			vrt.Assert(!there, "a refused binary writes nothing")
		}
		vrt.Reach("refused")
		return
	}
	img, there := vrt.ReadFile(dst)
	vrt.Assert(there && len(img) == size, "a floppy image is written")
	o := order
	if o == "auto" {
		o = "do"
		if len(name) >= 3 && name[len(name)-3:] == ".po" {
			o = "po"
		}
	}
	phys := convert(img, o, "raw")
	pages := (n + 255) / 256
	boot := phys[:256]
	vrt.Assert(boot[0] == 1, "the boot ROM loads one sector")
	vrt.Assert(boot[76] == 0x4c, "the loader ends with a jump")
	vrt.Assert(vrt.All(int(boot[77]) == jump&0xff, int(boot[78]) == jump>>8), "to the start address")
	used := make([]bool, 560)
	used[0] = true
	padded := make([]byte, pages*256)
	copy(padded, bin)
	for i := 0; i < pages; i++ {
		vrt.Assert(int(boot[79+i]) == a>>8+i, "the table names the page each sector belongs to")
		t, s := place(i)
		used[t*16+s] = true
		vrt.Assert(vrt.Eq(phys[(t*16+s)*256:(t*16+s)*256+256], padded[i*256:i*256+256]), "each page of the binary is where the loader reads it")
	}
	vrt.Assert(boot[79+pages] == 0xc0, "the table ends with C0")
	for i := 80 + pages; i < 256; i++ {
		vrt.Assert(boot[i] == 0, "the rest of the boot sector is zero")
	}
	zero := make([]byte, 256)
	for i, u := range used {
		if !u {
			vrt.Assert(vrt.Eq(phys[i*256:i*256+256], zero), "every other sector is zero")
		}
	}
	// The 6502 code of the boot loader.
	vrt.Assert(vrt.Eq(boot[:76], loader), "the loader is the Standard Delivery one")
	vrt.Reach("written")
}

// The loader of github.com/peterferrie/standard-delivery.
var loader = []byte{
	0x01, 0xa8, 0xee, 0x06, 0x08, 0xad, 0x4e, 0x08, 0xc9, 0xc0, 0xf0, 0x40, 0x85, 0x27, 0xc8,
	0xc0, 0x10, 0x90, 0x09, 0xf0, 0x05, 0x20, 0x2f, 0x08, 0xa8, 0x2c, 0xa0, 0x01, 0x84, 0x3d,
	0xc8, 0xa5, 0x27, 0xf0, 0xdf, 0x8a, 0x4a, 0x4a, 0x4a, 0x4a, 0x09, 0xc0, 0x48, 0xa9, 0x5b,
	0x48, 0x60, 0xe6, 0x41, 0x06, 0x40, 0x20, 0x37, 0x08, 0x18, 0x20, 0x3c, 0x08, 0xe6, 0x40,
	0xa5, 0x40, 0x29, 0x03, 0x2a, 0x05, 0x2b, 0xa8, 0xb9, 0x80, 0xc0, 0xa9, 0x30, 0x4c, 0xa8,
	0xfc,
}

var sdSizes = []int{0, 1, 255, 256, 257, 7 * 256, 8 * 256, 15 * 256, 15*256 + 1, 16 * 256, 31*256 + 9, 100*256 - 1, 176*256 - 1, 176 * 256, 176*256 + 1, 177 * 256}

// Every load and start address, for binaries of many sizes.
func C27_addresses() {
	sdRun(sdSizes[vrt.Pick("n", len(sdSizes))], "do", "a.dsk", true)
}

// The order of the image comes from the flag or the name.
func C27_order() {
	n := []int{300, 17 * 256}[vrt.Pick("n", 2)]
	i := vrt.Pick("name", 6)
	name := []string{"a.dsk", "a.do", "a.po", "a", "a.img", "b.po"}[i]
	sdRun(n, flags[vrt.Pick("order", 3)], name, false)
}

// Every number of pages.
func C27T_pages() {
	sdRun(vrt.Pick("n", 177)*256+vrt.Pick("r", 2), flags[1+vrt.Pick("order", 2)], "a.dsk", true)
}
