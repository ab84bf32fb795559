package hsuper

import (
	"strings"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/zzverif/vrt"
)

var names = []string{"ALPHA", "BETA2", "GAMMA", "DELTA", "EPS99"}

// wellFormed asserts that the live symbols of each hash form one chain.
func wellFormed(st supermon.SymbolTable) {
	into := make([]int, len(st))
	for i, e := range st {
		if e.Address == 0 || e.Link == -1 {
			continue
		}
		l := e.Link
		vrt.Assert(l >= 0 && l < len(st), "a link leads into the table")
		vrt.Assert(l != i, "no symbol links to itself")
		vrt.Assert(st[l].Address != 0, "no link leads to an unused entry")
		vrt.Assert(hash(st[l].Address) == hash(e.Address), "a link leads to a symbol of the same hash")
		into[l]++
	}
	for i, e := range st {
		if e.Address == 0 {
			continue
		}
		vrt.Assert(into[i] <= 1, "no symbol is on two chains")
		k := i
		n := 0
		for ; st[k].Link != -1 && n <= len(st); n++ {
			k = st[k].Link
		}
		vrt.Assert(n < len(st), "a chain ends")
		if e.Link == -1 {
			for j := 0; j < i; j++ {
				if st[j].Address != 0 && st[j].Link == -1 {
					vrt.Assert(hash(st[j].Address) != hash(e.Address), "all symbols of one hash are on one chain")
				}
			}
		}
	}
}

// anyTable is an arbitrary well-formed table of n entries as read from a disk.
func anyTable(n int) supermon.SymbolTable {
	st := make(supermon.SymbolTable, n)
	tails := []int{}
	used := make([]bool, n)
	for i := range st {
		k := vrt.Pick("link", n+2)
		if k == n+1 {
			continue // unused
		}
		st[i] = supermon.Symbol{Name: names[i], Link: k - 1}
		if k > 0 {
			vrt.Assume(k-1 != i)
			vrt.Assume(!used[k-1])
			used[k-1] = true
		} else {
			tails = append(tails, i)
		}
	}
	for i := range st {
		if st[i].Name == "" {
			continue
		}
		k, c := i, 0
		for ; st[k].Name != "" && st[k].Link != -1 && c <= n; c++ {
			k = st[k].Link
		}
		vrt.Assume(st[k].Name != "" && c <= n)
		a := vrt.U16("addr")
		vrt.Assume(a != 0)
		st[i].Address = a
	}
	for i := range st {
		if st[i].Name != "" && st[i].Link >= 0 {
			vrt.Assume(hash(st[i].Address) == hash(st[st[i].Link].Address))
		}
	}
	for x, i := range tails {
		for _, j := range tails[:x] {
			vrt.Assume(hash(st[i].Address) != hash(st[j].Address))
		}
	}
	return st
}

// edit applies one arbitrary addition or deletion and asserts its effect.
func edit(st supermon.SymbolTable, n int) { editOf(st, names[:n]) }

func editOf(st supermon.SymbolTable, names []string) {
	k := vrt.Pick("name", len(names)+1)
	name := "NEW"
	if k < len(names) {
		name = names[k]
	}
	if vrt.Pick("case", 2) == 1 {
		name = strings.ToLower(name)
	}
	old := append(supermon.SymbolTable{}, st...)
	had, room := false, false
	for _, e := range old {
		if e.Address != 0 && strings.EqualFold(e.Name, name) {
			had = true
		}
		if e.Address == 0 {
			room = true
		}
	}
	add := vrt.Pick("add", 2) == 1
	var addr uint16
	if add {
		addr = vrt.U16("new")
		err := st.AddSymbol(name, addr)
		bad := addr == 0 || !had && !room
		vrt.Assert((err != nil) == bad, "an addition fails exactly at address zero or in a full table")
		if err != nil {
			for i := range st {
				vrt.Assert(st[i] == old[i], "a refused addition changes nothing")
			}
			vrt.Reach("refused")
			return
		}
		vrt.Assert(st.ByName(name) == addr, "an added name resolves to its address")
		vrt.Reach("added")
	} else {
		found := st.DeleteSymbol(name)
		vrt.Assert(found == had, "a deletion reports whether the symbol was there")
		vrt.Assert(st.ByName(name) == 0, "a deleted name does not resolve")
		vrt.Reach("deleted")
	}
	wellFormed(st)
	count := 0
	for _, e := range st {
		if e.Address != 0 && strings.EqualFold(e.Name, name) {
			count++
		}
	}
	want := 0
	if add {
		want = 1
	}
	vrt.Assert(count == want, "an added name appears once, a deleted one not at all")
	live := 0
	for _, o := range old {
		if o.Address != 0 && !strings.EqualFold(o.Name, name) {
			live++
			vrt.Assert(st.ByName(o.Name) == o.Address, "another symbol keeps its address")
		}
	}
	n2 := 0
	for _, e := range st {
		if e.Address != 0 {
			n2++
		}
	}
	vrt.Assert(n2 == live+want, "no other symbol appears")
}

// One edit of any well-formed table of 3 entries.
func C18_one() {
	st := anyTable(3)
	edit(st, 3)
}

// Two edits in a row of any well-formed table of 2 entries.
func C18_two() {
	st := anyTable(2)
	edit(st, 2)
	edit(st, 2)
}

// One edit of a table with long chains, with unused entries at several places.
func C18_long() { long([]int{1, 3, 4, 5, 6, 25}, 1) }

// Longer ones, two edits.
func C18T_long() { long([]int{12, 60}, 2) }

func long(sizes []int, edits int) {
	n := sizes[vrt.Pick("n", len(sizes))]
	gap := vrt.Pick("gap", 4)
	var st supermon.SymbolTable
	var ours []int // entries of the long chain
	for i := 0; i < n+4; i++ {
		e := supermon.Symbol{}
		switch {
		case gap == 1 && i == 0, gap == 2 && i == n/2, gap == 3 && i == n+3, gap == 3 && i == 3:
			// unused
		case i%6 == 5:
			e = supermon.Symbol{Name: "OTHER" + string(rune('A'+i/6)), Address: 0x3000 + uint16(i), Link: -1}
		default:
			e = supermon.Symbol{Name: "SYM" + string(rune('A'+i/26)) + string(rune('A'+i%26)), Address: uint16(i+1)<<8 | uint16(i+1) ^ 0x55}
			ours = append(ours, i)
		}
		st = append(st, e)
	}
	// The chain goes through the even places first, then back through the odd ones.
	var order []int
	for k := 0; k < len(ours); k += 2 {
		order = append(order, ours[k])
	}
	for k := len(ours) - 1; k >= 0; k-- {
		if k%2 == 1 {
			order = append(order, ours[k])
		}
	}
	for k, i := range order {
		st[i].Link = -1
		if k+1 < len(order) {
			st[i].Link = order[k+1]
		}
	}
	vrt.Assert(hash(st[order[0]].Address) == hash(st[order[len(order)-1]].Address), "one chain")
	for i := 0; i < edits; i++ {
		editOf(st, []string{st[order[0]].Name, st[order[1]].Name, st[order[len(order)/2]].Name, st[order[len(order)-1]].Name})
	}
}

// One edit of any well-formed table of 4 entries.
func C18T_four() {
	st := anyTable(4)
	edit(st, 4)
}

// Two edits of any table of 3 entries.
func C18T_two() {
	st := anyTable(3)
	edit(st, 3)
	edit(st, 3)
}

// Three edits of any table of 2 entries.
func C18T_three() {
	st := anyTable(2)
	edit(st, 2)
	edit(st, 2)
	edit(st, 2)
}

// Edits of a table on a disk, written and read back in between.
func C18_disk() { onDisk(2) }

// Three edits.
func C18T_disk() { onDisk(3) }

func onDisk(n int) {
	img := blank(5)
	mapOf(img)[559] = 0xff
	h := vrt.U16("h")
	vrt.Assume(hash(h) != hash(0xdf09))
	a := []uint16{h, h ^ 0x0101, h ^ 0x0202}
	for _, x := range a {
		vrt.Assume(x != 0)
	}
	t := img[64*256:]
	symbols(img, 64, 80, []sym{
		{at: 0, link: 2, addr: 1, name: "ALPHA"},
		{at: 2, link: 818, addr: 1, name: "BETA2"},
		{at: 818, link: -1, addr: 1, name: "GAMMA"},
		{at: 1, link: -1, addr: 0xdf09, name: "DELTA"},
	})
	for i, at := range []int{0, 2, 818} {
		t[at*5], t[at*5+1] = byte(a[i]), byte(a[i]>>8)
	}
	for i := 0; i < n; i++ {
		sm, err := supermon.LoadSectorMap(img)
		vrt.Assert(err == nil, "the map loads")
		st, err := sm.ReadSymbolTable(img)
		vrt.Assert(err == nil, "the table reads")
		name := []string{"ALPHA", "BETA2", "GAMMA", "DELTA", "NEW1"}[vrt.Pick("name", 5)]
		var want uint16
		if vrt.Pick("add", 2) == 1 {
			want = vrt.U16("new")
			vrt.Assume(want != 0)
			err = st.AddSymbol(name, want)
			vrt.Assert(err == nil, "the symbol is added")
		} else {
			st.DeleteSymbol(name)
		}
		err = sm.WriteSymbolTable(img, st)
		vrt.Assert(err == nil, "the table is written")
		sm, err = supermon.LoadSectorMap(img)
		vrt.Assert(err == nil, "the map loads")
		got, err := sm.ReadSymbolTable(img)
		vrt.Assert(err == nil, "the table reads back")
		vrt.Assert(got.ByName(name) == want, "the edit is on the disk")
		for k := range got {
			vrt.Assert(got[k].Address == st[k].Address, "every entry reads back")
			if st[k].Address != 0 {
				vrt.Assert(got[k].Name == st[k].Name && got[k].Link == st[k].Link, "every symbol reads back")
			}
		}
		wellFormed(got)
	}
	vrt.Reach("edited")
}
