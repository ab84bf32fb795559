package hsuper

import (
	"strings"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// number is the specification of a file number: hexadecimal digits whose value
// is 01..FD or DF01..DFFD, else 0.
func number(name string) int {
	if len(name) == 0 {
		return 0
	}
	ok := true
	v := 0
	for i := 0; i < len(name); i++ {
		c := int(name[i])
		dig := vrt.All(c >= '0', c <= '9')
		up := vrt.All(c >= 'A', c <= 'F')
		lo := vrt.All(c >= 'a', c <= 'f')
		ok = vrt.All(ok, vrt.Any(dig, up, lo))
		d := vrt.If(dig, c-'0', vrt.If(up, c-'A'+10, c-'a'+10))
		ok = vrt.All(ok, v <= 0xfff)
		v = v*16 + d
	}
	short := vrt.All(v >= 1, v <= 0xfd)
	long := vrt.All(v >= 0xdf01, v <= 0xdffd)
	return vrt.If(vrt.All(ok, short), v, vrt.If(vrt.All(ok, long), v-0xdf00, 0))
}

// fold compares without regard to case, for ASCII.
func fold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = vrt.All(r, low(a[i]) == low(b[i]))
	}
	return r
}

func low(c byte) byte {
	return byte(vrt.If(vrt.All(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
}

func ascii(s string) string {
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] < 0x80)
	}
	return s
}

// smallTable has three symbols of arbitrary addresses and an unused entry.
func smallTable() supermon.SymbolTable {
	st := supermon.SymbolTable{
		{Name: "ABC", Link: -1, Address: vrt.U16("a0")},
		{Name: "", Link: -1},
		{Name: "DEAD", Link: -1, Address: vrt.U16("a1")},
		{Name: "X9YZW", Link: -1, Address: vrt.U16("a2")},
	}
	for i := range st {
		if i != 1 {
			vrt.Assume(st[i].Address != 0)
		}
	}
	return st
}

// named is the file a symbol means, or 0.
func named(st supermon.SymbolTable, name string) int {
	r := 0
	for _, e := range st {
		a := int(e.Address)
		r = vrt.If(vrt.All(e.Name != "", fold(name, e.Name), a >= 0xdf01, a <= 0xdffd), a-0xdf00, r)
	}
	return r
}

// FileForName for every name of up to 5 ASCII characters.
func C19_name() { resolve(vrt.Str("name", vrt.Pick("len", 6))) }

// 6 to 8 characters.
func C19T_name() { resolve(vrt.Str("name", 6+vrt.Pick("len", 3))) }

func resolve(name string) {
	ascii(name)
	st := smallTable()
	n := number(name)
	f := vrt.If(n != 0, n, named(st, name))
	got, err := st.FileForName(name)
	vrt.Assert((err == nil) == (f != 0), "a name resolves exactly if it is a number or a symbol of a file")
	if err == nil {
		vrt.Assert(int(got) == f, "a name resolves to the right file")
		vrt.Reach("resolved")
	} else {
		vrt.Reach("not found")
	}
}

// FilesForCompoundName for every name of up to 4 characters before and 4 after
// the colon, and every name of up to 5 without one.
func C19_compound() { compound(3, 4) }

// Up to 5 and 5.
func C19T_compound() { compound(6, 6) }

func compound(nb, na int) {
	st := smallTable()
	noColon := func(s string) string {
		ascii(s)
		for i := 0; i < len(s); i++ {
			vrt.Assume(s[i] != ':')
		}
		return s
	}
	switch vrt.Pick("colons", 3) {
	case 0:
		name := noColon(vrt.Str("name", vrt.Pick("len", na+1)))
		n := number(name)
		num, nf, sy, err := st.FilesForCompoundName(name)
		vrt.Assert(err == nil, "a simple name is accepted")
		if n != 0 {
			vrt.Assert(int(num) == n && nf == 0 && sy == "", "a number means that file")
			vrt.Reach("number")
			return
		}
		f := named(st, name)
		vrt.Assert(vrt.All(int(num) == f, int(nf) == f), "a symbol means its file")
		vrt.Assert(sy == name, "the symbol is returned")
		vrt.Reach("symbol")
	case 1:
		b := noColon(vrt.Str("before", vrt.Pick("lenb", nb+1)))
		a := noColon(vrt.Str("after", vrt.Pick("lena", na+1)))
		n, m := number(b), number(a)
		num, nf, sy, err := st.FilesForCompoundName(b + ":" + a)
		vrt.Assert((err == nil) == (n != 0 && m == 0), "a compound name needs a number and then a name")
		if err != nil {
			vrt.Reach("bad compound")
			return
		}
		vrt.Assert(vrt.All(int(num) == n, int(nf) == named(st, a)), "a compound name means the file and the symbol's file")
		vrt.Assert(sy == a, "the symbol is returned")
		vrt.Reach("compound")
	case 2:
		name := []string{"1:2:3", "DF07:ABC:", ":DF07:ABC", "::", "DF07::ABC", "A:B:C:D"}[vrt.Pick("which", 6)]
		_, _, _, err := st.FilesForCompoundName(name)
		vrt.Assert(err != nil, "more than one colon is an error")
		vrt.Reach("colons")
	}
}

// ParseCompoundSymbol: an address, a symbol or both.
func C19_symbol() { parse(4) }

// Longer names.
func C19T_symbol() { parse(6) }

func hex16(s string) (bool, int) {
	ok := len(s) > 0
	v := 0
	for i := 0; i < len(s); i++ {
		c := int(s[i])
		dig := vrt.All(c >= '0', c <= '9')
		up := vrt.All(c >= 'A', c <= 'F')
		lo := vrt.All(c >= 'a', c <= 'f')
		ok = vrt.All(ok, vrt.Any(dig, up, lo), v <= 0xfff)
		v = v*16 + vrt.If(dig, c-'0', vrt.If(up, c-'A'+10, c-'a'+10))
	}
	return ok, v
}

func parse(n int) {
	st := smallTable()
	all := func(name string) int {
		r := 0
		for _, e := range st {
			r = vrt.If(vrt.All(e.Name != "", fold(name, e.Name)), int(e.Address), r)
		}
		return r
	}
	noColon := func(s string) string {
		ascii(s)
		for i := 0; i < len(s); i++ {
			vrt.Assume(s[i] != ':')
		}
		return s
	}
	if vrt.Pick("compound", 2) == 0 {
		name := noColon(vrt.Str("name", vrt.Pick("len", n+2)))
		addr, sa, sy, err := st.ParseCompoundSymbol(name)
		known := all(name)
		isHex, v := hex16(name)
		ok, _ := storable(name)
		vrt.Assert((err == nil) == vrt.Any(known != 0, isHex, ok), "a symbol or address is accepted exactly if it is one")
		if err != nil {
			vrt.Reach("neither")
			return
		}
		if known != 0 {
			vrt.Assert(vrt.All(addr == 0, int(sa) == known), "a known symbol means its address")
			vrt.Assert(sy == name, "the symbol is returned")
			vrt.Reach("known")
		} else if isHex {
			vrt.Assert(vrt.All(int(addr) == v, sa == 0) && sy == "", "a hexadecimal number is an address")
			vrt.Reach("address")
		} else {
			vrt.Assert(vrt.All(addr == 0, sa == 0), "a new symbol has no address")
			vrt.Assert(sy == name, "the new symbol is returned")
			vrt.Reach("new")
		}
		return
	}
	b := noColon(vrt.Str("before", vrt.Pick("lenb", 3)*2))
	a := noColon(vrt.Str("after", vrt.Pick("lena", n+1)))
	addr, sa, sy, err := st.ParseCompoundSymbol(b + ":" + a)
	isHex, v := hex16(b)
	ok, _ := storable(a)
	vrt.Assert((err == nil) == vrt.All(isHex, ok), "a compound symbol needs an address and then a name")
	if err == nil {
		vrt.Assert(vrt.All(int(addr) == v, int(sa) == all(a)), "a compound symbol means its address and the symbol's")
		vrt.Assert(sy == a, "the symbol is returned")
		vrt.Reach("compound")
	}
}

// Names of files: the symbol if there is one, else DFxx, for every file.
func C19_filename() {
	f := vrt.Byte("file")
	vrt.Assume(f != 0)
	vrt.Assume(f < 0xfe)
	st := smallTable()
	name := supermon.NameForFile(f, st)
	full := supermon.FullnameForFile(f, st)
	has := ""
	for i := len(st) - 1; i >= 0; i-- {
		if int(st[i].Address) == 0xdf00+int(f) {
			has = st[i].Name
		}
	}
	if has == "" {
		vrt.Assert(name == "DF"+hex2sym(f), "a file without a symbol is named by number")
		vrt.Assert(full == name, "and so is its full name")
		vrt.Reach("number")
	} else {
		vrt.Assert(int(st.ByName(name)) == 0xdf00+int(f), "a file with a symbol is named by it")
		vrt.Assert(full == "DF"+hex2sym(f)+":"+name, "the full name has both")
		vrt.Reach("symbol")
	}
	back, err := st.FileForName(name)
	vrt.Assert(err == nil, "the name resolves")
	vrt.Assert(back == f, "the name resolves back to the file")
}

func hexDigit(d int) byte { return byte(vrt.If(d < 10, '0'+d, 'A'+d-10)) }

func hex2sym(b byte) string {
	return string([]byte{hexDigit(int(b >> 4)), hexDigit(int(b & 15))})
}

// Catalog: exactly the files that own sectors, with their names and sizes.
func C19_catalog() { catalog(3) }

// More open places.
func C19T_catalog() { catalog(6) }

func catalog(k int) {
	img := blank(5)
	m := mapOf(img)
	symbols(img, 64, 80, table)
	for i := 0; i < k; i++ {
		m[places[0][i]] = []byte{1, 9, 0xfd, 0xfe, 0xff}[vrt.Pick("owner", 5)]
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	ds, err := op.Catalog("")
	vrt.Assert(err == nil, "the catalog lists")
	x := 0
	for f := 1; f < 0xfe; f++ {
		n := 0
		var want []byte
		for i := range m {
			if int(m[i]) == f {
				n++
				want = append(want, sec(img, i)...)
			}
		}
		if n == 0 {
			continue
		}
		vrt.Assert(x < len(ds), "every file is listed")
		d := ds[x]
		x++
		name := "DF" + hex2(byte(f))
		full := name
		for _, e := range table {
			if e.addr == 0xdf00+f {
				name = e.name
				full += ":" + e.name
			}
		}
		vrt.Assert(d.Name == name && strings.ToUpper(d.Fullname) == full, "a file is listed by its symbol or number")
		vrt.Assert(d.Sectors == n && d.Length == n*256, "a file is listed with its size")
		fi, err := op.GetFile(d.Name)
		vrt.Assert(err == nil, "a listed file can be read by its name")
		vrt.Assert(vrt.Eq(fi.Data, want), "and holds its sectors in order")
		vrt.Assert(fi.Descriptor.Name == name && fi.Descriptor.Length == n*256 && fi.Descriptor.Sectors == n, "and is described likewise")
	}
	vrt.Assert(x == len(ds), "nothing else is listed")
	vrt.Reach("listed")
}

// Symbols whose names are in any case in the table.
func C19_case() {
	st := supermon.SymbolTable{
		{Name: "aBc", Link: -1, Address: 0xdf07},
		{Name: "xyzw", Link: -1, Address: 0xdf00 + uint16(vrt.Byte("f"))},
	}
	name := ascii(vrt.Str("name", 3+vrt.Pick("len", 2)))
	vrt.Assume(number(name) == 0)
	f := named(st, name)
	got, err := st.FileForName(name)
	vrt.Assert((err == nil) == (f != 0), "a name resolves exactly if it is a number or a symbol of a file")
	vrt.Assert(vrt.Imp(err == nil, int(got) == f), "a name resolves to the right file")
	a := 0
	for _, e := range st {
		a = vrt.If(fold(name, e.Name), int(e.Address), a)
	}
	vrt.Assert(int(st.ByName(name)) == a, "a symbol is found in any case")
	vrt.Reach("resolved")
}

// Names longer than any symbol, which may start with one.
func C19_longer() {
	head := []string{"ABC", "DEAD", "X9YZW", "abc", "000000DF", "00000000", "0", "DF05"}[vrt.Pick("head", 8)]
	mid := []string{"", "Z", ".TXT", "LETTERS", "0000000", "DF"}[vrt.Pick("mid", 6)]
	resolve(head + mid + vrt.Str("tail", vrt.Pick("len", 3)))
}
