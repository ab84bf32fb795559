package hsuper

import (
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// storable is the specification of the names that fit a symbol table entry, and
// the name as it is stored.
func storable(name string) (ok bool, stored string) {
	up := make([]byte, len(name))
	good := true
	bits := 0
	for i := range up {
		c := name[i]
		lower := vrt.All(c >= 'a', c <= 'z')
		c = byte(vrt.If(lower, int(c)-32, int(c)))
		letter := vrt.All(c >= 'A', c <= 'Z')
		digit := vrt.All(c >= '0', c <= '9')
		good = vrt.All(good, vrt.Any(letter, digit))
		bits += vrt.If(letter, 5, 6)
		up[i] = c
	}
	return vrt.All(good, bits <= 48, len(name) >= 3, len(name) <= 9), string(up)
}

func tableDisk() ([]byte, supermon.SectorMap) {
	img := blank(5)
	symbols(img, 64, 80, nil)
	sm, err := supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map loads")
	return img, sm
}

// Names of up to 10 arbitrary ASCII characters, at any address.
func C17_names() { nameRoundTrip(vrt.Str("name", 1+vrt.Pick("len", 10))) }

func nameRoundTrip(name string) {
	for i := 0; i < len(name); i++ {
		vrt.Assume(name[i] < 0x80)
	}
	img, sm := tableDisk()
	old := vrt.Clone(img)
	addr := vrt.U16("addr")
	vrt.Assume(addr != 0)
	const at = 3
	st := make(supermon.SymbolTable, 819)
	st[at] = supermon.Symbol{Address: addr, Name: name, Link: -1}
	ok, up := storable(name)
	err := sm.WriteSymbolTable(img, st)
	vrt.Assert((err == nil) == ok, "a name is accepted exactly if it can be stored")
	if err != nil {
		vrt.Assert(vrt.Eq(img, old), "a refused table changes nothing")
		vrt.Reach("refused")
		return
	}
	got, err := sm.ReadSymbolTable(img)
	vrt.Assert(err == nil, "the table reads back")
	vrt.Assert(len(got) == 819, "the table has 819 entries")
	vrt.Assert(got[at].Name == up, "the name reads back upper-cased and otherwise exact")
	vrt.Assert(vrt.All(got[at].Address == addr, got[at].Link == -1), "the address and the end of the chain read back")
	for i, e := range got {
		if i != at {
			vrt.Assert(e.Address == 0, "an unused entry stays unused")
		}
	}
	vrt.Reach("stored")
}

// A chain of three symbols at any three of several positions, with any
// addresses of one hash, written and read back.
func C17_table() {
	pos := []int{0, 1, 50, 51, 409, 410, 817, 818}
	i := vrt.Pick("i", len(pos))
	j := vrt.Pick("j", len(pos))
	vrt.Assume(i != j)
	p, q := pos[i], pos[j]
	r := 400
	img, sm := tableDisk()
	a, b, c := vrt.U16("a"), vrt.U16("b"), vrt.U16("c")
	vrt.Assume(a != 0)
	vrt.Assume(b != 0)
	vrt.Assume(c != 0)
	vrt.Assume(hash(a) == hash(b))
	vrt.Assume(hash(c) == hash(b))
	st := make(supermon.SymbolTable, 819)
	st[p] = supermon.Symbol{Address: a, Name: "FIRST1", Link: q}
	st[q] = supermon.Symbol{Address: b, Name: "SECOND", Link: r}
	st[r] = supermon.Symbol{Address: c, Name: "987", Link: -1}
	err := sm.WriteSymbolTable(img, st)
	vrt.Assert(err == nil, "the table is written")
	sm, err = supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map loads")
	got, err := sm.ReadSymbolTable(img)
	vrt.Assert(err == nil, "the table reads back")
	vrt.Assert(len(got) == 819, "the table has 819 entries")
	for k := range got {
		if st[k].Address != 0 {
			vrt.Assert(got[k].Name == st[k].Name, "the name reads back")
			vrt.Assert(vrt.All(got[k].Address == st[k].Address, got[k].Link == st[k].Link), "address and link read back")
		} else {
			vrt.Assert(got[k].Address == 0, "an unused entry stays unused")
		}
	}
	vrt.Reach("read back")
}

func hash(a uint16) uint16 { return (a ^ a>>8) & 0x7f }

// Any stored entry: any six name bytes, any address and any link that does not
// lead to another entry.
func C17_link() {
	img := blank(5)
	at := []int{0, 7, 818}[vrt.Pick("at", 3)]
	symbols(img, 64, 80, []sym{{at: 200, link: -1, addr: 0x1234, name: "TARGET"}})
	addr := vrt.U16("addr")
	link := vrt.U16("link")
	k := vrt.Pick("kind", 5)
	good := false
	switch k {
	case 0: // none
		link = 0
		good = true
	case 1: // outside or between entries
		vrt.Assume(link != 0)
		vrt.Assume(vrt.Any(link < 0xd000, link >= 0xdfff, (link-0xd000)%5 != 0))
	case 2: // itself
		link = uint16(0xd000 + 5*at)
	case 3: // a symbol of the same hash
		link = 0xd000 + 5*200
		vrt.Assume(hash(addr) == hash(0x1234))
		good = true
	case 4: // a symbol of another hash
		link = 0xd000 + 5*200
		vrt.Assume(hash(addr) != hash(0x1234))
	}
	t1 := img[64*256+at*5:]
	t1[0], t1[1], t1[2], t1[3] = byte(addr), byte(addr>>8), byte(link), byte(link>>8)
	sm, err := supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map loads")
	st, err := sm.ReadSymbolTable(img)
	if addr == 0 {
		vrt.Assert(err == nil, "an unused entry is not looked at")
		vrt.Assert(st[at].Address == 0, "address zero means unused")
		vrt.Reach("unused")
		return
	}
	vrt.Assert((err == nil) == good, "a link is accepted exactly if it leads to a symbol of the same hash")
	if good {
		want := -1
		if k == 3 {
			want = 200
		}
		vrt.Assert(vrt.All(st[at].Address == addr, st[at].Link == want), "address and link are as stored")
		vrt.Reach("good link")
	} else {
		vrt.Assert(st == nil, "a table with a bad link is not used")
		vrt.Reach("bad link")
	}
}
