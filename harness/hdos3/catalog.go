package hdos3

import (
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const size = 35 * 16 * 256

func at(t, s int) int { return t*4096 + s*256 }

// putVTOC writes a valid VTOC whose catalog starts at t, s.
func putVTOC(img []byte, t, s byte) {
	v := img[at(17, 0) : at(17, 0)+256]
	for i := range v {
		v[i] = 0
	}
	v[1], v[2], v[3], v[6], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = t, s, 3, 254, 122, 1, 35, 16, 1
}

func name30(s string) []byte {
	b := make([]byte, 30)
	for i := range b {
		b[i] = 0xA0
		if i < len(s) {
			b[i] = s[i] | 0x80
		}
	}
	return b
}

// entry writes catalog entry k of the sector at base.
func entry(img []byte, base, k int, t, s, typ byte, name []byte, count uint16) {
	e := img[base+11+35*k : base+11+35*k+35]
	e[0], e[1], e[2] = t, s, typ
	copy(e[3:33], name)
	e[33], e[34] = byte(count), byte(count>>8)
}

func fileType(b byte) types.Filetype {
	switch b & 0x7f {
	case 0:
		return types.FiletypeASCIIText
	case 1:
		return types.FiletypeIntegerBASIC
	case 2:
		return types.FiletypeApplesoftBASIC
	case 4:
		return types.FiletypeBinary
	case 8:
		return types.FiletypeS
	case 16:
		return types.FiletypeRelocatable
	case 32:
		return types.FiletypeNewA
	case 64:
		return types.FiletypeNewB
	}
	return 0
}

func known(b byte) bool {
	t := b & 0x7f
	return vrt.Any(t == 0, t == 1, t == 2, t == 4, t == 8, t == 16, t == 32, t == 64)
}

// sameName states that got is the stored name without high bits and trailing spaces.
func sameName(got string, raw []byte) bool {
	n := len(got)
	if n > len(raw) {
		return false
	}
	ok := true
	for i := range raw {
		if i < n {
			ok = vrt.All(ok, got[i] == raw[i]&0x7f)
		} else {
			ok = vrt.All(ok, raw[i] == 0xA0)
		}
	}
	if n > 0 {
		ok = vrt.All(ok, got[n-1] != ' ')
	}
	return ok
}

// chain places n catalog sectors and links them; it returns their bases.
func chain(img []byte, n int) []int {
	ts := [][2]int{{17, 15}, {17, 1}, {34, 12}, {1, 0}}[:n]
	var bases []int
	for i, p := range ts {
		b := at(p[0], p[1])
		bases = append(bases, b)
		if i+1 < n {
			img[b+1], img[b+2] = byte(ts[i+1][0]), byte(ts[i+1][1])
		}
	}
	if n == 0 {
		putVTOC(img, 0, 0)
	} else {
		putVTOC(img, byte(ts[0][0]), byte(ts[0][1]))
	}
	return bases
}

// A catalog of up to four sectors in which two entries, anywhere, are arbitrary
// and the others are a mix of live, deleted and unused ones.
func C06_list() { list(2, 1) }

// The same for three sectors, with every distance between the two entries.
func C06T_list() { list(4, 13) }

func list(maxSec, dist int) {
	img := make([]byte, size)
	n := vrt.Pick("sectors", maxSec+1)
	bases := chain(img, n)
	var want [][]byte
	a := vrt.Pick("a", 7*n+1)
	b := a + 1 + vrt.Pick("b", dist)
	for k := 0; k < 7*n; k++ {
		base, e := bases[k/7], k%7
		switch {
		case k == a || k == b:
			nm := name30("A")
			if k == a {
				copy(nm, vrt.Bytes("name", 3))
				for i := 0; i < 3; i++ {
					vrt.Assume(nm[i] >= 0x80)
				}
			}
			entry(img, base, e, vrt.Byte("t"), vrt.Byte("s"), vrt.Byte("type"), nm, vrt.U16("count"))
		case k%3 == 0:
			entry(img, base, e, byte(k+1), 3, 0x84, name30("FILE "+string(rune('A'+k))), uint16(k*100))
		case k%3 == 1:
			entry(img, base, e, 0xff, 3, 2, name30("OLD"), 7)
		default:
			entry(img, base, e, 0, 0, 0, name30(""), 0)
		}
		raw := vrt.Clone(img[base+11+35*e : base+11+35*e+35])
		want = append(want, raw)
	}
	keep := vrt.Clone(img)
	op, err := dos3.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil && op.Name() == "dos3", "the disk opens")
	vrt.Assert(dos3.OperatorFactory{}.SeemsToMatch(img, 0), "the disk is recognised")
	descs, err := op.Catalog("")
	vrt.Assert(err == nil, "the catalog can be listed")
	live, dead, err := dos3.ReadCatalog(img, 0)
	vrt.Assert(err == nil, "the catalog can be read")
	vrt.Assert(vrt.Eq(img, keep), "listing changes nothing")
	i, j := 0, 0
	for _, w := range want {
		if w[0] == 0 {
			continue
		}
		if w[0] == 0xff {
			vrt.Assert(j < len(dead) && vrt.Eq(dead[j].ToBytes(), w), "each deleted entry is reported, in order")
			if j < len(dead) {
				vrt.Assert(sameName(dead[j].FilenameString(), w[3:32]), "a deleted name lacks its last character")
			}
			j++
			continue
		}
		vrt.Assert(i < len(descs) && i < len(live), "every live entry is listed")
		if i < len(descs) && i < len(live) {
			d := descs[i]
			vrt.Assert(vrt.Eq(live[i].ToBytes(), w), "live entries come in catalog order")
			vrt.Assert(sameName(d.Name, w[3:33]), "the name is the stored one without high bits and trailing spaces")
			vrt.Assert(d.Sectors == int(le(w, 33)), "the sector count is the stored one")
			vrt.Assert(d.Locked == (w[2]&0x80 != 0), "the locked flag is the top bit of the type")
			vrt.Assert(vrt.Imp(known(w[2]), d.Type == fileType(w[2])), "the type is the stored one")
		}
		i++
	}
	vrt.Assert(i == len(descs) && i == len(live), "only live entries are listed")
	vrt.Assert(j == len(dead), "only deleted entries are reported as deleted")
	vrt.Reach("listed")
	vrt.Observe("live", len(live))
	vrt.Observe("dead", len(dead))
}

// One entry with an arbitrary name of 30 characters.
func C06_name() {
	img := make([]byte, size)
	b := chain(img, 1)[0]
	nm := vrt.Bytes("name", 30)
	for i := range nm {
		vrt.Assume(nm[i] >= 0x80)
	}
	t := vrt.Byte("t")
	vrt.Assume(t != 0)
	entry(img, b, 4, t, 1, 0, nm, 1)
	live, dead, err := dos3.ReadCatalog(img, 0)
	vrt.Assert(err == nil && len(live)+len(dead) == 1, "the entry is read")
	if t == 0xff {
		vrt.Assert(len(dead) == 1 && sameName(dead[0].FilenameString(), nm[:29]), "a deleted name lacks its last character")
		return
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog("")
	vrt.Assert(err == nil && len(ds) == 1, "the entry is listed")
	vrt.Assert(sameName(ds[0].Name, nm), "the name is the stored one without high bits and trailing spaces")
	vrt.ObserveBytes("name", []byte(ds[0].Name))
}

// Every type byte.
func C06_types() {
	img := make([]byte, size)
	b := chain(img, 1)[0]
	ty := vrt.Byte("type")
	entry(img, b, 0, 18, 1, ty, name30("X"), vrt.U16("n"))
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog("")
	vrt.Assert(err == nil && len(ds) == 1, "the entry is listed")
	vrt.Assert(ds[0].Locked == (ty >= 0x80), "the locked flag is the top bit of the type")
	vrt.Assert(ds[0].Sectors == int(le(img, b+11+33)), "the sector count is the stored one")
	vrt.Assert(vrt.Imp(known(ty), ds[0].Type == fileType(ty)), "the type is the stored one")
}

// far places n sectors all over the disk and links them, first to last; it
// returns where they are. None is the boot sector or the VTOC.
func far(img []byte, n int) (ts [][2]byte) {
	for i := 0; len(ts) < n; i++ {
		p := (i*37 + 5) % 560
		if p != 0 && p != 17*16 {
			ts = append(ts, [2]byte{byte(p / 16), byte(p % 16)})
		}
	}
	for i := 0; i+1 < n; i++ {
		b := at(int(ts[i][0]), int(ts[i][1]))
		img[b+1], img[b+2] = ts[i+1][0], ts[i+1][1]
	}
	return ts
}

// Long catalogs: up to every sector of the disk.
func C06_long() {
	img := make([]byte, size)
	n := []int{16, 105, 558}[vrt.Pick("sectors", 3)]
	ts := far(img, n)
	putVTOC(img, ts[0][0], ts[0][1])
	for i, p := range ts {
		entry(img, at(int(p[0]), int(p[1])), i%7, 1+byte(i%34), 3, 4, name30("FILE"), uint16(i))
	}
	last := at(int(ts[n-1][0]), int(ts[n-1][1]))
	entry(img, last, (n-1)%7, vrt.Byte("t"), vrt.Byte("s"), 4, name30("FILE"), uint16(n-1))
	t := img[last+11+35*((n-1)%7)]
	vrt.Assume(vrt.All(t != 0, t != 0xff))
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog("")
	vrt.Assert(err == nil && len(ds) == n, "every live entry is listed")
	for i, d := range ds {
		vrt.Assert(d.Sectors == i && d.Name == "FILE", "live entries come in catalog order")
	}
	vrt.Reach("listed")
}

// A second catalog sector anywhere on the disk.
func C06_link() {
	img := vrt.Image("img", size)
	v, b := make([]byte, size), at(17, 15)
	putVTOC(v, 17, 15)
	for i := 0; i < 256; i++ {
		vrt.Assume(img[at(17, 0)+i] == v[at(17, 0)+i])
	}
	t, s := img[b+1], img[b+2]
	vrt.Assume(inDisk(t, s))
	vrt.Assume(vrt.Any(t != 0, s != 0))
	vrt.Assume(vrt.Any(t != 17, vrt.All(s != 15, s != 0)))
	c := at(int(t), int(s))
	vrt.Assume(vrt.All(img[c+1] == 0, img[c+2] == 0))
	for k := 0; k < 7; k++ {
		if k != 2 {
			vrt.Assume(img[b+11+35*k] == 0)
		}
		if k != 3 {
			vrt.Assume(img[c+11+35*k] == 0)
		}
	}
	x, y := img[b+11+70], img[c+11+105]
	vrt.Assume(vrt.All(x != 0, x != 0xff))
	vrt.Assume(vrt.All(y != 0, y != 0xff))
	live, dead, err := dos3.ReadCatalog(img, 0)
	vrt.Assert(err == nil && len(live) == 2 && len(dead) == 0, "every live entry is listed")
	vrt.Assert(vrt.Eq(live[0].ToBytes(), img[b+11+70:b+11+105]), "live entries come in catalog order")
	vrt.Assert(vrt.Eq(live[1].ToBytes(), img[c+11+105:c+11+140]), "live entries come in catalog order")
	vrt.Reach("listed")
}

// What is listed is what is there at the time, on the disk that was asked.
func C06_again() {
	img, img2 := make([]byte, size), make([]byte, size)
	var op [2]types.Operator
	var b []int
	for i, m := range [][]byte{img, img2} {
		b = chain(m, 2)
		entry(m, b[0], 0, 20, 3, 0, name30("FIRST"), 4)
		entry(m, b[i], 2, 20, 3, 4, name30("SECOND"), 5)
		op[i], _ = dos3.OperatorFactory{}.Operator(m, 0)
	}
	look := func(o types.Operator, want ...string) {
		ds, err := o.Catalog("")
		vrt.Assert(err == nil, "the catalog can be listed")
		vrt.Assert(len(ds) == len(want), "every live entry is listed")
		for i, w := range want {
			vrt.Assert(ds[i].Name == w, "with its name")
		}
	}
	look(op[1], "FIRST", "SECOND")
	look(op[0], "FIRST", "SECOND")
	// an entry anywhere changes
	k := vrt.Pick("change", 5)
	nm := []byte{vrt.Byte("ch") | 0x80}
	vrt.Assume(nm[0] > 0xa0)
	switch k {
	case 0:
		entry(img, b[0], 0, 20, 3, 0, name30("RENAMED"), 4)
		look(op[0], "RENAMED", "SECOND")
	case 1:
		entry(img, b[0], 0, 0xff, 3, 0, name30("FIRST"), 4)
		look(op[0], "SECOND")
	case 2:
		entry(img, b[1], 6, 20, 3, 0, name30("THIRD"), 4)
		look(op[0], "FIRST", "SECOND", "THIRD")
	case 3:
		img[b[0]+1], img[b[0]+2] = 0, 0
		entry(img, b[0], 5, 20, 3, 0, append(nm, name30("")[:29]...), 4)
		look(op[0], "FIRST", "SECOND", string([]byte{nm[0] - 0x80}))
	default:
		img[at(17, 0)+1], img[at(17, 0)+2] = 0, 0
		look(op[0])
	}
	look(op[1], "FIRST", "SECOND")
	// and a new disk where the first was
	copy(img, img2)
	look(op[0], "FIRST", "SECOND")
	entry(img, b[1], 2, 20, 3, 0, name30("OTHER"), 4)
	o, _ := dos3.OperatorFactory{}.Operator(img, 0)
	look(o, "FIRST", "OTHER")
	vrt.Reach("again")
}
