package hsuper

import (
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// Any sector map at all: it is recognised exactly if it is sane.
func C20_accept() {
	img := vrt.Bytes("img", size)
	old := vrt.Clone(img)
	m := mapOf(img)
	good := true
	for i := range m {
		good = vrt.All(good, m[i] != 0)
		if i < 12 {
			good = vrt.All(good, m[i] == 0xfe)
		}
	}
	sm, err := supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map loads")
	vrt.Assert(vrt.Eq(sm, m), "the map is the one at sector 9 byte D0")
	err = sm.Verify()
	vrt.Assert((err == nil) == good, "a map verifies exactly if it is sane")
	match := supermon.OperatorFactory{}.SeemsToMatch(img, 0)
	vrt.Assert(match == good, "a disk is recognised exactly if its map is sane")
	if !match {
		_, err := supermon.OperatorFactory{}.Operator(img, 0)
		vrt.Assert(err != nil, "a disk that is not recognised does not open")
		vrt.Reach("not recognised")
	} else {
		vrt.Reach("recognised")
	}
	vrt.Assert(vrt.Eq(img, old), "looking at a disk changes nothing")
}

// An image of any length, with any owner of some places and of all others.
func C20_length() {
	n := vrt.Int("n", 0, size)
	img := vrt.ImageLen("img", size, n)
	if n < 0xc00 {
		vrt.Assert(!supermon.OperatorFactory{}.SeemsToMatch(img, 0), "an image too short for a map is not recognised")
		_, err := supermon.OperatorFactory{}.Operator(img, 0)
		vrt.Assert(err != nil, "an image too short for a map does not open")
		vrt.Reach("too short")
		return
	}
	m := mapOf(img)
	f := []int{7, 3}[vrt.Pick("file", 2)]
	for i := range m {
		switch {
		case i < 12:
			m[i] = 0xfe
		case i == 100 || i == 101:
			m[i] = byte(f)
		default:
			m[i] = 5
		}
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	fi, err := op.GetFile([]string{"DF07", "DF03"}[vrt.Conc(b2i(f == 3))])
	vrt.Assert((err == nil) == (n >= 102*256), "a file reads exactly if its sectors exist")
	if err == nil {
		vrt.Assert(vrt.Eq(fi.Data, img[100*256:102*256]), "and holds them")
		vrt.Reach("read")
	} else {
		vrt.Reach("cut off")
	}
	_, err = op.Catalog("")
	vrt.Assert(err == nil, "the disk lists")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Any owner of 3 places and of all others; every file reads or is an error.
func C20_owners() { owners(3) }

// 6 places.
func C20T_owners() { owners(6) }

func owners(k int) {
	bg := vrt.Byte("bg")
	img := blank(bg)
	m := mapOf(img)
	set := vrt.Pick("set", 3)
	for i := 0; i < k; i++ {
		m[places[set][i]] = vrt.Byte("owner")
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	if err != nil {
		vrt.Reach("not opened")
		return
	}
	f := []string{"DF01", "3", "DF04", "FD", "DFFE", "FF", "0", "DF00", "SYM", ""}[vrt.Pick("file", 10)]
	n := map[string]int{"DF01": 1, "3": 3, "DF04": 4, "FD": 0xfd}[f]
	fi, err := op.GetFile(f)
	var want []byte
	for i := range m {
		if n != 0 && int(m[i]) == n {
			want = append(want, sec(img, i)...)
		}
	}
	vrt.Assert((err == nil) == (len(want) > 0), "a file reads exactly if it has sectors")
	vrt.Assert(vrt.Eq(fi.Data, want), "and holds them")
	vrt.Reach("opened")
}

// A damaged symbol table: two entries of arbitrary bytes, links that lead
// nowhere, to each other or to another entry. Files still list and read.
func C20_symbols() { damaged(1) }

// Both entries arbitrary.
func C20T_symbols() { damaged(2) }

func damaged(k int) {
	img := blank(5)
	symbols(img, 64, 80, table)
	mapOf(img)[100] = 9
	for j := 0; j < k; j++ {
		at := []int{0, 818, 40}[vrt.Pick("at", 3)]
		e := vrt.Bytes("entry", 10)
		copy(img[64*256+at*5:], e[:5])
		copy(img[80*256+at*5:], e[5:])
		t := img[64*256+at*5:]
		switch vrt.Pick("link", 4) {
		case 0:
			t[2], t[3] = 0, 0
		case 1:
			t[2], t[3] = 0x0a, 0xd0 // entry 2
		case 2:
			t[2], t[3] = 0xfa, 0xdf // entry 818
		case 3:
			l := int(t[2]) + int(t[3])<<8
			vrt.Assume(vrt.Any(l < 0xd000, l >= 0xdfff))
		}
	}
	if vrt.Pick("missing", 2) == 1 {
		mapOf(img)[64] = 0xff // one sector of the table is missing
	}
	old := vrt.Clone(img)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "a damaged symbol table does not keep the disk from opening")
	if op.(supermon.Operator).ST == nil {
		vrt.Reach("no symbols")
	} else {
		vrt.Reach("symbols")
	}
	ds, err := op.Catalog("")
	vrt.Assert(err == nil && len(ds) == 4, "every file is listed")
	fi, err := op.GetFile("DF09")
	vrt.Assert(err == nil, "a file reads by number")
	vrt.Assert(vrt.Eq(fi.Data, sec(img, 100)), "with its contents")
	_, _ = op.GetFile("NINE9")
	_, _ = op.GetFile("NOSUCH")
	vrt.Assert(vrt.Eq(img, old), "reading changes nothing")
}

// Symbol table files of every size up to one sector too many.
func C20_sizes() {
	img := blank(5)
	symbols(img, 64, 96, table)
	m := mapOf(img)
	m[200] = 9
	n := []int{16, 15, 17, 0, 1, 32}
	a, b := n[vrt.Pick("first", 6)], n[vrt.Pick("second", 6)]
	for i := 0; i < 32; i++ {
		m[64+i], m[96+i] = 5, 5
		if i < a {
			m[64+i] = 3
		}
		if i < b {
			m[96+i] = 4
		}
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "a damaged symbol table does not keep the disk from opening")
	st := op.(supermon.Operator).ST
	vrt.Assert((st != nil) == (a == 16 && b == 16), "symbols are available exactly if both files have their size")
	fi, err := op.GetFile("DF09")
	vrt.Assert(err == nil && vrt.Eq(fi.Data, sec(img, 200)), "a file reads by number")
	for i, k := range []int{a, b} {
		fi, err = op.GetFile("DF0" + string(rune('3'+i)))
		vrt.Assert((err == nil) == (k > 0), "a symbol table file reads exactly if it exists")
		if err == nil {
			vrt.Assert(vrt.Eq(fi.Data, img[(64+32*i)*256:(64+32*i+k)*256]), "as all of its sectors")
		}
	}
	_, err = op.GetFile("NINE9")
	vrt.Assert((err == nil) == (st != nil), "a symbol resolves exactly if symbols are available")
	_, err = op.Catalog("")
	vrt.Assert(err == nil, "the disk lists")
	vrt.Reach("opened")
}

// A symbol table that is plainly damaged has no symbols at all, neither before
// nor after the place of the damage.
func C20_unavailable() {
	img := blank(5)
	at := []int{1, 2, 7, 400, 818}[vrt.Pick("at", 5)]
	symbols(img, 64, 80, []sym{table[0], table[1], table[2], {at: 600, link: -1, addr: 0xdf0a, name: "LATER"}})
	mapOf(img)[100], mapOf(img)[101] = 9, 10
	e := img[64*256+5*at:]
	addr := vrt.U16("addr")
	vrt.Assume(addr != 0)
	vrt.Assume(hash(addr) != hash(0x5a80))
	e[0], e[1] = byte(addr), byte(addr>>8)
	link := 0
	switch vrt.Pick("damage", 6) {
	case 0:
		link = 0xd000 + 5*at // to itself
	case 1:
		link = 0xd000 + 5*3 // to another hash
	case 2:
		link = 0xd001 + 5*vrt.Pick("entry", 2) // between entries
	case 3:
		link = 0xdfff
	case 4:
		link = 0xcffb
	default:
		mapOf(img)[[]int{64, 79, 80, 95}[vrt.Pick("sector", 4)]] = 5
	}
	e[2], e[3] = byte(link), byte(link>>8)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "a damaged symbol table does not keep the disk from opening")
	ds, err := op.Catalog("")
	vrt.Assert(err == nil && len(ds) == 5, "every file is listed")
	for i, n := range []string{"DF03", "DF04", "DF05", "DF09", "DF0A"} {
		vrt.Assert(ds[i].Name == n && ds[i].Fullname == n, "by its number")
	}
	for _, n := range []string{"NINE9", "LATER"} {
		_, err = op.GetFile(n)
		vrt.Assert(err != nil, "no file has another name")
	}
	fi, err := op.GetFile("DF09")
	vrt.Assert(err == nil && vrt.Eq(fi.Data, sec(img, 100)), "a file reads by number")
	vrt.Reach("unavailable")
}
