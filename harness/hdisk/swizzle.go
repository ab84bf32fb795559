// Package hdisk has the harnesses for sector order, image opening and sector access.
package hdisk

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const size = 35 * 16 * 256

// The documented interleave (Understanding the Apple II, 9-42 and 9-43):
// physical sector of each logical sector.
var dosPhys = [16]int{0x0, 0xD, 0xB, 0x9, 0x7, 0x5, 0x3, 0x1, 0xE, 0xC, 0xA, 0x8, 0x6, 0x4, 0x2, 0xF}
var proPhys = [16]int{0x0, 0x2, 0x4, 0x6, 0x8, 0xA, 0xC, 0xE, 0x1, 0x3, 0x5, 0x7, 0x9, 0xB, 0xD, 0xF}
var rawPhys = [16]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}

var orders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO, types.DiskOrderRaw}

func phys(o types.DiskOrder) [16]int {
	switch o {
	case types.DiskOrderDO:
		return dosPhys
	case types.DiskOrderPO:
		return proPhys
	}
	return rawPhys
}

// convert is the specification: the image in order b that has the same
// physical sectors as img has in order a.
func convert(img []byte, a, b types.DiskOrder) []byte {
	pa, pb := phys(a), phys(b)
	out := make([]byte, size)
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			for q := 0; q < 16; q++ {
				if pb[q] == pa[s] {
					copy(out[(t*16+q)*256:(t*16+q+1)*256], img[(t*16+s)*256:(t*16+s+1)*256])
				}
			}
		}
	}
	return out
}

// Converting between any two of the three orders gives the specified image,
// converting back gives the original, and the input keeps its contents.
func C01_convert() {
	from := orders[vrt.Pick("from", 3)]
	to := orders[vrt.Pick("to", 3)]
	img := vrt.Bytes("img", size)
	keep := vrt.Clone(img)
	p, err := disk.Swizzle(img, disk.LogicalToPhysicalByName[from])
	vrt.Assert(err == nil, "a floppy image converts to physical order")
	vrt.Assert(vrt.Eq(p, convert(keep, from, types.DiskOrderRaw)), "physical order follows the interleave table")
	q, err := disk.Swizzle(p, disk.PhysicalToLogicalByName[to])
	vrt.Assert(err == nil, "a physical image converts to logical order")
	vrt.Assert(vrt.Eq(q, convert(keep, from, to)), "each sector is where the tables put it")
	r, err := disk.Swizzle(q, disk.LogicalToPhysicalByName[to])
	vrt.Assert(err == nil, "converts back")
	r, err = disk.Swizzle(r, disk.PhysicalToLogicalByName[from])
	vrt.Assert(err == nil, "converts back")
	vrt.Assert(vrt.Eq(r, keep), "converting back restores the image")
	vrt.Assert(vrt.Eq(img, keep), "the input is not modified")
	// results share no memory with the input
	img[0] = img[0] ^ 0xff
	vrt.Assert(p[0] == keep[0], "the result is a copy")
	vrt.Reach("converted")
	vrt.ObserveBytes("head", q[0:600])
}

// Any order list of 16 with two arbitrary entries is accepted exactly when it
// is a permutation, and then moves each sector where it says.
func C01_anyOrder() {
	i := vrt.Pick("i", 16)
	anyOrder(dosPhys, i, (i+5)%16)
}

// The same for every pair of entries and both orders.
func C01T_anyOrder() {
	i := vrt.Pick("i", 16)
	j := vrt.Pick("j", 16)
	vrt.Assume(i < j)
	anyOrder(phys(orders[vrt.Pick("base", 2)]), i, j)
}

func anyOrder(base [16]int, i, j int) {
	order := make([]int, 16)
	copy(order, base[:])
	order[i] = vrt.Int("x", -300, 300)
	order[j] = vrt.Int("y", -300, 300)
	perm := vrt.Any(
		vrt.All(order[i] == base[i], order[j] == base[j]),
		vrt.All(order[i] == base[j], order[j] == base[i]))
	img := make([]byte, size)
	sec := vrt.Bytes("sector", 256)
	copy(img[(7*16+i)*256:], sec)
	img[(7*16+j)*256] = 0x55
	out, err := disk.Swizzle(img, order)
	vrt.Assert((err == nil) == perm, "an order is accepted exactly when it is a permutation of 0..15")
	if err != nil {
		return
	}
	vrt.Reach("accepted")
	p := vrt.Conc(order[i])
	q := vrt.Conc(order[j])
	vrt.Assert(len(out) == size, "the size is kept")
	vrt.Assert(vrt.Eq(out[(7*16+p)*256:(7*16+p+1)*256], sec), "the sector moves to the given place")
	vrt.Assert(out[(7*16+q)*256] == 0x55, "the sector moves to the given place")
}

// Lists of other lengths, and images of other sizes, are refused.
func C01_refuse() {
	n := vrt.Pick("n", 21)
	order := make([]int, n)
	for i := range order {
		order[i] = i % 16
	}
	if vrt.Bool("nil") {
		order = nil
	}
	img := make([]byte, size)
	_, err := disk.Swizzle(img, order)
	vrt.Assert((err == nil) == (len(order) == 16), "only orders of 16 sectors are accepted")
	l := vrt.Int("len", 0, 400000)
	vrt.Assume(l != size)
	img = vrt.ImageLen("img", 400000, l)
	for _, o := range orders {
		_, err = disk.Swizzle(img, disk.LogicalToPhysicalByName[o])
		vrt.Assert(err != nil, "an image of another size is refused")
		_, err = disk.Swizzle(img, disk.PhysicalToLogicalByName[o])
		vrt.Assert(err != nil, "an image of another size is refused")
	}
	vrt.Reach("refused")
}

// Results are independent of one another.
func C01_twice() {
	a, b := vrt.Bytes("a", size), vrt.Bytes("b", size)
	o1, o2 := orders[vrt.Pick("o1", 3)], orders[vrt.Pick("o2", 3)]
	p, err := disk.Swizzle(a, disk.LogicalToPhysicalByName[o1])
	vrt.Assert(err == nil, "an image converts")
	q, err := disk.Swizzle(b, disk.PhysicalToLogicalByName[o2])
	vrt.Assert(err == nil, "another image converts")
	vrt.Assert(vrt.Eq(q, convert(b, types.DiskOrderRaw, o2)), "as it would alone")
	vrt.Assert(vrt.Eq(p, convert(a, o1, types.DiskOrderRaw)), "the first result stays as it was")
	p[0]++
	vrt.Assert(vrt.Eq(q, convert(b, types.DiskOrderRaw, o2)), "whatever becomes of the other")
	vrt.Reach("twice")
}
