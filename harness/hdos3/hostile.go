package hdos3

import (
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/zzverif/vrt"
)

func validVTOC(v []byte) bool {
	ok := vrt.All(v[6] != 255, v[3] == 3, vrt.Any(v[0x31] == 1, v[0x31] == 255), v[0x34] == 35,
		vrt.Any(v[0x35] == 13, v[0x35] == 16), v[0x36] == 0, v[0x37] == 1, v[0x27] == 122)
	for i := 0x38; i < 256; i += 4 {
		ok = vrt.All(ok, v[i+2] == 0, v[i+3] == 0)
	}
	return ok
}

// tryAll lists the disk in every way there is; it reports whether all, and
// whether none, of them succeeded.
func tryAll(img []byte) (all, none bool) {
	keep := vrt.Clone(img)
	op, err := dos3.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, _, e1 := dos3.ReadCatalog(img, 0)
	_, e2 := op.Catalog("")
	m := dos3.OperatorFactory{}.SeemsToMatch(img, 0)
	vrt.Assert(vrt.Eq(img, keep), "listing changes nothing")
	return e1 == nil && e2 == nil && m, e1 != nil && e2 != nil && !m
}

// walk follows the catalog chain of an image for at most max sectors and says
// whether it is sound. Paths whose chain is longer are not considered. Entries
// are assumed unused, except that one of the first sector may be anything.
func walk(img []byte, max int, free bool) bool {
	ns := img[at(17, 0)+0x35]
	t, s := img[at(17, 0)+1], img[at(17, 0)+2]
	var ts, ss []byte
	for i := 0; ; i++ {
		if vrt.All(t == 0, s == 0) {
			vrt.Reach("chain ends")
			return true
		}
		dup := false
		for j := range ts {
			dup = vrt.Any(dup, vrt.All(ts[j] == t, ss[j] == s))
		}
		if dup {
			vrt.Reach("chain repeats")
			return false
		}
		if vrt.Any(t >= 35, s >= ns) {
			vrt.Reach("chain leaves the disk")
			return false
		}
		base := at(int(t), int(s))
		if base+256 > len(img) {
			vrt.Reach("chain leaves the image")
			return false
		}
		vrt.Assume(i < max)
		l := img[base : base+256]
		for k := 0; k < 7; k++ {
			if !free || i > 0 || k != 3 {
				vrt.Assume(l[11+35*k] == 0)
			}
		}
		ts, ss = append(ts, t), append(ss, s)
		t, s = l[1], l[2]
	}
}

func chainFrom(max int, free bool) {
	img := vrt.Image("img", size)
	vrt.Assume(validVTOC(img[at(17, 0) : at(17, 0)+256]))
	sound := walk(img, max, free)
	all, none := tryAll(img)
	vrt.Assert(vrt.Imp(!sound, none), "a damaged catalog chain is an error")
	vrt.Assert(vrt.Imp(sound, all), "a sound catalog chain is listed")
	vrt.Observe("all", b2i(all))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Any image whose VTOC is valid and whose catalog chain has at most 2 different
// sectors before it ends, leaves the disk or returns to itself.
func C07_chain() { chainFrom(2, true) }

// The same for 4 catalog sectors, with no other entry in use.
func C07_long() { chainFrom(4, false) }

// The same for 8 catalog sectors.
func C07T_chain() { chainFrom(8, false) }

// Any VTOC at all.
func C07_vtoc() {
	img := make([]byte, size)
	v := vrt.Bytes("vtoc", 256)
	copy(img[at(17, 0):], v)
	vrt.Assume(vrt.All(v[1] == 0, v[2] == 0))
	all, none := tryAll(img)
	vrt.Assert(vrt.Imp(!validVTOC(v), none), "an invalid VTOC is an error")
	vrt.Assert(vrt.Imp(validVTOC(v), all), "a valid VTOC is accepted")
}

// Images of any size up to a full disk, with any content in the VTOC and at
// most 1 catalog sector.
func C07_sizes() {
	n := vrt.Int("n", 0, size)
	img := vrt.ImageLen("img", size, n)
	if n < at(17, 1) {
		_, none := tryAll(img)
		vrt.Assert(none, "an image without a VTOC is an error")
		return
	}
	vrt.Assume(validVTOC(img[at(17, 0) : at(17, 0)+256]))
	sound := walk(img, 1, false)
	all, none := tryAll(img)
	vrt.Assert(vrt.Imp(!sound, none), "a damaged catalog chain is an error")
	vrt.Assert(vrt.Imp(sound, all), "a sound catalog chain is listed")
}

// Long catalogs whose last sector links back to any of the others, or off the
// disk, or nowhere.
func C07_back() {
	img := make([]byte, size)
	n := []int{9, 40, 558}[vrt.Pick("sectors", 3)]
	ts := far(img, n)
	putVTOC(img, ts[0][0], ts[0][1])
	last := at(int(ts[n-1][0]), int(ts[n-1][1]))
	k := vrt.Pick("back", 8)
	t, s := byte(0), byte(0)
	switch k {
	case 6:
		t, s = vrt.Byte("t"), vrt.Byte("s")
		vrt.Assume(vrt.Any(t >= 35, s >= 16))
	case 7:
	default:
		p := ts[[]int{0, 1, n / 3, n / 2, n - 2, n - 1}[k]]
		t, s = p[0], p[1]
	}
	img[last+1], img[last+2] = t, s
	all, none := tryAll(img)
	vrt.Assert(k == 7 || none, "a damaged catalog chain is an error")
	vrt.Assert(k != 7 || all, "a sound catalog chain is listed")
	vrt.Reach("listed")
}
