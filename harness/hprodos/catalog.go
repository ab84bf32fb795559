package hprodos

import (
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const blocks = 280

// dir is a directory under construction.
type dir struct {
	img   []byte
	at    []int // its blocks; the first is the key block
	count int
	raws  [][]byte
}

func newDir(img []byte, at ...int) *dir {
	for i, b := range at {
		if i > 0 {
			img[b*512], img[b*512+1] = byte(at[i-1]), byte(at[i-1]>>8)
		}
		if i+1 < len(at) {
			img[b*512+2], img[b*512+3] = byte(at[i+1]), byte(at[i+1]>>8)
		}
	}
	return &dir{img: img, at: at}
}

// volume makes the root directory of a volume.
func volume(img []byte, at ...int) *dir {
	h := img[2*512+4:]
	h[0] = 0xf4
	copy(h[1:], "DISK")
	h[0x1f], h[0x20] = 0x27, 0x0d
	h[0x23], h[0x25], h[0x26] = 6, byte(blocks&0xff), byte(blocks>>8)
	return newDir(img, append([]int{2}, at...)...)
}

// sub makes a subdirectory whose entry is in block parent.
func sub(img []byte, name string, parent int, at ...int) *dir {
	h := img[at[0]*512+4:]
	h[0] = 0xe0 | byte(len(name))
	copy(h[1:], name)
	h[0x10], h[0x1f], h[0x20] = 0x75, 0x27, 0x0d
	h[0x23], h[0x24] = byte(parent), byte(parent>>8)
	return newDir(img, at...)
}

// room is the number of entries the directory has.
func (d *dir) room() int { return 12 + 13*(len(d.at)-1) }

// place returns the bytes of entry k and the block it is in.
func (d *dir) place(k int) ([]byte, int) {
	b, o := d.at[0], 0x2b+0x27*k
	if k >= 12 {
		b, o = d.at[1+(k-12)/13], 4+0x27*((k-12)%13)
	}
	return d.img[b*512+o : b*512+o+0x27], b
}

// put writes entry k.
func (d *dir) put(k int, storage byte, name string, typ byte, key int, used uint16, eof int) int {
	e, b := d.place(k)
	e[0] = storage<<4 | byte(len(name))
	copy(e[1:], name)
	e[0x10] = typ
	e[0x11], e[0x12] = byte(key), byte(key>>8)
	e[0x13], e[0x14] = byte(used), byte(used>>8)
	e[0x15], e[0x16], e[0x17] = byte(eof), byte(eof>>8), byte(eof>>16)
	return b
}

// check compares a listing with the directory's entries. Whether an entry is
// deleted must be concrete or is decided here.
func (d *dir) check(ds []types.Descriptor, err error) {
	vrt.Assert(err == nil, "the directory is listed")
	i := 0
	for k := 0; k < d.room(); k++ {
		e, _ := d.place(k)
		if e[0]>>4 == 0 {
			continue
		}
		vrt.Assert(i < len(ds), "every live entry is listed")
		if i < len(ds) {
			f := ds[i]
			n := vrt.Conc(int(e[0] & 15))
			vrt.Assert(f.Name == string(e[1:1+n]), "entries come in directory order with their names")
			vrt.Assert(f.Blocks == int(le(e, 0x13)), "blocks used are the entry's")
			vrt.Assert(f.Length == int(e[0x15])|int(e[0x16])<<8|int(e[0x17])<<16, "the length is the entry's 24-bit length")
			vrt.Assert(int(f.Type) == int(e[0x10]), "the type is the entry's")
		}
		i++
	}
	vrt.Assert(i == len(ds), "only live entries are listed")
	vrt.Reach("listed")
	vrt.Observe("n", i)
}

func (d *dir) fill() {
	for k := 0; k < d.room(); k++ {
		switch k % 3 {
		case 0:
			d.put(k, 2, "FILE."+string(rune('A'+k)), byte(k+4), 100+k, uint16(k*300), k*70000)
		case 1:
			d.put(k, 0, "GONE", 4, 77, 1, 1)
		}
	}
}

// A volume directory of up to 3 blocks in which one entry, anywhere, is
// arbitrary but for its storage type not being that of a subdirectory.
func C11_volume() { oneVolume(2, 4) }

// The same for up to 5 blocks.
func C11T_volume() { oneVolume(4, 1) }

func oneVolume(more, step int) {
	img := make([]byte, blocks*512)
	at := []int{3, 5, 279, 9}[:vrt.Pick("more", more+1)]
	v := volume(img, at...)
	v.fill()
	k := vrt.Pick("k", (v.room()+step-1)/step) * step
	e, _ := v.place(k)
	copy(e, vrt.Bytes("entry", 0x27))
	vrt.Assume(e[0]>>4 != 0xd)
	keep := vrt.Clone(img)
	op, err := prodos.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil && op.Name() == "prodos", "the volume opens")
	ds, err := op.Catalog("")
	v.check(ds, err)
	vrt.Assert(prodos.OperatorFactory{}.SeemsToMatch(img, 0), "the volume is recognised")
	vrt.Assert(vrt.Eq(img, keep), "listing changes nothing")
	_, err = op.Catalog("NONE")
	vrt.Assert(err != nil, "a path that names no subdirectory is an error")
}

// Every combination of live and deleted entries in one block.
func C11_mix() {
	img := make([]byte, blocks*512)
	v := volume(img, 3)
	for k := 0; k < v.room(); k++ {
		st := byte(1)
		if k < 5 {
			st = byte(vrt.Pick("storage", 3)) // deleted, seedling, sapling
		} else if k%4 == 2 {
			st = 0
		}
		v.put(k, st, "F"+string(rune('A'+k)), vrt.Byte("type"), 50, vrt.U16("used"), k)
	}
	op, _ := prodos.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog("")
	v.check(ds, err)
}

// A tree of subdirectories, three deep, whose entries are anywhere in their
// directories, and any of them listed.
func C11_tree() {
	img := make([]byte, blocks*512)
	v := volume(img, 3)
	v.fill()
	pos := []int{1, 13}[vrt.Pick("pos", 2)]
	key := vrt.Bool("parent pointer to the key block")
	n1, n2, n3 := "ONE", "TWO", "THREE"
	mid := []byte(n2)
	mid[1] = vrt.Byte("letter")
	vrt.Assume(vrt.All(mid[1] >= 'A', mid[1] <= 'Z'))
	n2 = string(mid)
	par := func(d *dir, b int) int {
		if key {
			return d.at[0]
		}
		return b
	}
	d1 := sub(img, n1, par(v, v.put(pos, 0xd, n1, 0x0f, 20, 2, 1024)), 20, 33)
	d1.fill()
	d2 := sub(img, n2, par(d1, d1.put(pos, 0xd, n2, 0x0f, 40, 1, 512)), 40, 50, 41)
	d2.fill()
	d3 := sub(img, n3, par(d2, d2.put(2*pos, 0xd, n3, 0x0f, 278, 1, 512)), 278)
	d3.fill()
	d3.put(4, 3, "DEEP", vrt.Byte("type"), 9, vrt.U16("used"), int(vrt.U16("eof"))<<8)
	// a second subdirectory of the root, beside the first
	d4 := sub(img, n2, par(v, v.put(pos+2, 0xd, n2, 0x0f, 60, 1, 512)), 60)
	d4.put(0, 1, "SIDE", 6, 9, 1, 1)
	op, _ := prodos.OperatorFactory{}.Operator(img, 0)
	switch vrt.Pick("which", 8) {
	case 0:
		ds, err := op.Catalog("")
		v.check(ds, err)
	case 1:
		ds, err := op.Catalog(n1)
		d1.check(ds, err)
	case 2:
		ds, err := op.Catalog(n1 + "/" + n2)
		d2.check(ds, err)
	case 3:
		ds, err := op.Catalog(n1 + "/" + n2 + "/" + n3)
		d3.check(ds, err)
	case 4:
		ds, err := op.Catalog(n2)
		d4.check(ds, err)
	case 5:
		ask := []byte(n1 + "/TWO")
		ask[5] = vrt.Byte("asked")
		ds, err := op.Catalog(string(ask))
		if ask[5] == mid[1] {
			d2.check(ds, err)
		} else {
			vrt.Assert(err != nil, "a path that names no subdirectory is an error")
			vrt.Reach("not found")
		}
	case 6:
		_, err := op.Catalog(n3)
		vrt.Assert(err != nil, "a nested subdirectory is not found without its parent")
	case 7:
		_, err := op.Catalog(n2 + "/" + n3)
		vrt.Assert(err != nil, "a path through the wrong parent is an error")
	}
	vrt.Assert(prodos.OperatorFactory{}.SeemsToMatch(img, 0), "the volume is recognised")
}

// Long directories, of the volume and of a subdirectory.
func C11_long() {
	img := make([]byte, blocks*512)
	var at [2][]int
	for j := range at {
		for i := []int{0, 3, 7, 19}[vrt.Pick("more", 4)]; i > 0; i-- {
			at[j] = append(at[j], 50+100*j+(i*7)%40)
		}
	}
	v := volume(img, at[0]...)
	v.fill()
	p := v.put(v.room()-2, 0xd, "SUB", 0x0f, 30, 9, 512)
	d := sub(img, "SUB", p, append([]int{30}, at[1]...)...)
	d.fill()
	d.put(d.room()-1, 1+byte(vrt.Pick("storage", 3)), "LAST", vrt.Byte("type"), 9, vrt.U16("used"), int(vrt.U16("eof"))<<8)
	op, _ := prodos.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog("")
	v.check(ds, err)
	ds, err = op.Catalog("SUB")
	d.check(ds, err)
}

// Many subdirectories: beside one another or one in the other.
func C11_many() {
	img := make([]byte, blocks*512)
	v := volume(img, 3, 4, 5, 200, 201, 202, 203, 204, 205, 206, 207, 208)
	n := []int{1, 17, 33, 60, 150}[vrt.Pick("n", 5)]
	deep := vrt.Pick("deep", 2) == 1
	ask := []int{0, n / 2, n - 1}[vrt.Pick("ask", 3)]
	cur, path, want := v, "", ""
	var which *dir
	for i := 0; i < n; i++ {
		nm := "D" + string(rune('A'+i/26)) + string(rune('A'+i%26))
		k := i
		if deep {
			k = i % 12
		}
		d := sub(img, nm, cur.put(k, 0xd, nm, 0x0f, 10+i, 1, 512), 10+i)
		d.put(11, 2, "FILE", vrt.Byte("type"), 200, uint16(i), i)
		if deep {
			cur, path = d, path+"/"+nm
		} else {
			path = "/" + nm
		}
		if i == ask {
			which, want = d, path[1:]
		}
	}
	op, _ := prodos.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog(want)
	which.check(ds, err)
	ds, err = op.Catalog("")
	v.check(ds, err)
}

// Subdirectories with the same names, below and beside one another.
func C11_same() {
	img := make([]byte, blocks*512)
	v := volume(img, 3)
	n := []string{"AB", "VOL", "A.LONGER.NAME15", "A.", "..", "9", " A "}[vrt.Pick("name", 7)]
	d1 := sub(img, n, v.put(vrt.Pick("pos", 9), 0xd, n, 0x0f, 20, 1, 512), 20)
	d2 := sub(img, n, d1.put(3, 0xd, n, 0x0f, 30, 1, 512), 30)
	d3 := sub(img, n, d2.put(0, 0xd, n, 0x0f, 40, 1, 512), 40)
	d4 := sub(img, "Z", d1.put(1, 0xd, "Z", 0x0f, 50, 1, 512), 50)
	d5 := sub(img, n, d4.put(1, 0xd, n, 0x0f, 60, 1, 512), 60)
	all := []*dir{v, d1, d2, d3, d4, d5}
	for i, d := range all {
		d.put(9, 1, n, vrt.Byte("type"), 9, uint16(i), i)
	}
	i := vrt.Pick("which", 8)
	op, _ := prodos.OperatorFactory{}.Operator(img, 0)
	ds, err := op.Catalog([]string{"", n, n + "/" + n, n + "/" + n + "/" + n, n + "/Z", n + "/Z/" + n, "Z", n + "/" + n + "/Z"}[i])
	if i >= 6 {
		vrt.Assert(err != nil, "a path that names no subdirectory is an error")
		return
	}
	all[i].check(ds, err)
	vrt.Reach("same")
}

// What is listed is what is there at the time, on the volume that was asked.
func C11_again() {
	img, img2 := make([]byte, blocks*512), make([]byte, blocks*512)
	var v, d [2]*dir
	for i, m := range [][]byte{img, img2} {
		v[i] = volume(m, 3)
		v[i].put(0, 1, "FIRST", vrt.Byte("type"), 9, 1, i)
		d[i] = sub(m, "SUB", v[i].put(5, 0xd, "SUB", 0x0f, 20+i, 1, 512), 20+i)
		d[i].put(2, 2, "IN", 4, 9, vrt.U16("used"), 77)
	}
	var op [2]types.Operator
	look := func(i int) {
		ds, err := op[i].Catalog("")
		v[i].check(ds, err)
		ds, err = op[i].Catalog("SUB")
		d[i].check(ds, err)
	}
	op[0], _ = prodos.OperatorFactory{}.Operator(img, 0)
	op[1], _ = prodos.OperatorFactory{}.Operator(img2, 0)
	look(1)
	look(0)
	switch vrt.Pick("change", 4) {
	case 0:
		v[0].put(0, 0, "FIRST", 4, 9, 1, 1)
	case 1:
		v[0].put(13, 2, "LATER", vrt.Byte("type"), 9, 1, 1)
	case 2:
		d[0].put(2, 2, "IN", 6, 9, vrt.U16("new"), 5)
	default:
		copy(img, img2)
		d[0].at[0] = 21
	}
	look(0)
	look(1)
	look(0)
	vrt.Reach("again")
}
