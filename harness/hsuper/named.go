package hsuper

import (
	"strings"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// sym is one entry of a symbol table.
type sym struct {
	at, link int // link -1: none
	addr     int
	name     string
}

// symbols makes files 3 and 4 (at the given first sectors, consecutive) hold a
// symbol table with exactly the given entries.
func symbols(img []byte, at3, at4 int, syms []sym) {
	m := mapOf(img)
	for i := 0; i < 16; i++ {
		m[at3+i] = 3
		m[at4+i] = 4
	}
	t1 := img[at3*256 : at3*256+0x1000]
	t2 := img[at4*256 : at4*256+0x1000]
	for i := range t1 {
		t1[i], t2[i] = 0, 0
	}
	for _, s := range syms {
		o := s.at * 5
		t1[o], t1[o+1] = byte(s.addr), byte(s.addr>>8)
		if s.link >= 0 {
			l := 0xd000 + 5*s.link
			t1[o+2], t1[o+3] = byte(l), byte(l>>8)
		}
		v := 0
		for i := len(s.name) - 1; i >= 0; i-- {
			c := int(s.name[i])
			switch {
			case c >= 'A':
				v = v<<5 + c - '@'
			case c <= '4':
				v = v<<6 + 0x1b + c - '0'
			default:
				v = v<<6 + 0x3b + c - '5'
			}
		}
		for i := 0; i < 5; i++ {
			t2[o+i] = byte(v >> (8 * i))
		}
		t1[o+4] = byte(v >> 40)
	}
}

var table = []sym{
	{at: 0, link: 3, addr: 0xdf05, name: "FBACK"},
	{at: 2, link: -1, addr: 0xdf09, name: "NINE9"},
	{at: 3, link: -1, addr: 0x5a80, name: "PLAIN12"},
	{at: 818, link: -1, addr: 0xdffd, name: "ZZZZZZZZZ"},
}

// symbolsKept asserts that the table on the disk holds the given symbols and,
// if name is not empty, name at addr, and no others.
func symbolsKept(op types.Operator, syms []sym, name string, addr int) {
	st := op.(supermon.Operator).ST
	want := map[string]int{}
	for _, s := range syms {
		want[s.name] = s.addr
	}
	if name != "" {
		want[name] = addr
	}
	live := 0
	for _, e := range st {
		if e.Address != 0 {
			live++
			vrt.Assert(want[strings.ToUpper(e.Name)] == int(e.Address), "a symbol keeps its address")
		}
	}
	vrt.Assert(live == len(want), "no symbol is lost or added")
}

type put struct {
	name  string
	file  byte   // the file meant
	sym   string // the symbol added, if any
	fresh bool   // the file number is chosen by the put
}

var puts = []put{
	{name: "DF07", file: 7},
	{name: "fd", file: 0xfd},
	{name: "DF01", file: 1},
	{name: "DF07:NEWNAME", file: 7, sym: "NEWNAME"},
	{name: "df07:newname", file: 7, sym: "NEWNAME"},
	{name: "DF09:NINE9", file: 9},
	{name: "DF01:NINE9", file: 1, sym: "NINE9"},
	{name: "NINE9", file: 9},
	{name: "nine9", file: 9},
	{name: "PLAIN12", file: 1, sym: "PLAIN12", fresh: true},
	{name: "OTHER", file: 1, sym: "OTHER", fresh: true},
	{name: "ZZZZZZZZZ", file: 0xfd},
}

// Operator.PutFile by number, symbol and both, on a disk with a symbol table,
// then GetFile by the same name, also after opening the disk again.
func C14_put() { putNamed(2, 3) }

// More open places and longer files.
func C14T_put() { putNamed(4, 6) }

func putNamed(k, nl int) {
	p := puts[vrt.Pick("put", len(puts))]
	s := &scene{file: p.file}
	s.img = blank(5)
	at3, at4 := 64, 80
	if vrt.Pick("layout", 2) == 1 {
		at3, at4 = 544, 20
	}
	symbols(s.img, at3, at4, table)
	m := mapOf(s.img)
	for i := 0; i < k; i++ {
		n := 3
		if p.fresh {
			n = 2
		}
		switch vrt.Pick("owner", n) {
		case 0:
			m[places[0][i]] = 0xff
			s.free++
		case 2:
			m[places[0][i]] = p.file
			s.own++
		}
	}
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)

	n := []int{1, 256, 257, 512, 700, 1024}[vrt.Pick("length", nl)]
	vrt.Assume((n+255)/256 <= s.free+s.own)
	over := vrt.Bool("overwrite")
	vrt.Assume(s.own == 0 || over)
	data := vrt.Bytes("data", n)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.PutFile(fileInfo(p.name, data), over)
	vrt.Assert(err == nil, "the put is accepted")
	vrt.Assert(existed == (s.own > 0), "existed is reported")
	s.stored(data, p.sym != "")
	vrt.Assert(vrt.Eq(s.img, op.GetBytes()), "the operator holds the image")
	if p.sym == "" {
		vrt.Reach("stored without a new symbol")
	} else {
		vrt.Reach("stored with a symbol")
	}
	again, err := supermon.OperatorFactory{}.Operator(vrt.Clone(s.img), 0)
	vrt.Assert(err == nil, "the disk opens again")
	addr := 0xdf00 + int(p.file)
	if p.sym == "" {
		addr = 0
	}
	symbolsKept(op, table, p.sym, addr)
	symbolsKept(again, table, p.sym, addr)
	for _, o := range []types.Operator{op, again} {
		name := p.name
		if len(name) > 5 && name[4] == ':' {
			name = name[5:]
		}
		fi, err := o.GetFile(name)
		vrt.Assert(err == nil, "the file is found by its name")
		vrt.Assert(vrt.Eq(fi.Data, pad(data)), "the file reads back as put, padded")
		vrt.Assert(fi.Descriptor.Length == len(pad(data)), "the length is the padded one")
		fi, err = o.GetFile("DF" + hex2(p.file))
		vrt.Assert(err == nil, "the file is found by its number")
		vrt.Assert(vrt.Eq(fi.Data, pad(data)), "the file reads back by number")
		fi, err = o.GetFile("5")
		vrt.Assert(err == nil, "the other file is still there")
		var want []byte
		for i := range s.om {
			if s.om[i] == 5 {
				want = append(want, sec(s.old, i)...)
			}
		}
		vrt.Assert(vrt.Eq(fi.Data, want), "the other file is unchanged")
	}
}

func hex2(b byte) string {
	const h = "0123456789ABCDEF"
	return h[b>>4:b>>4+1] + h[b&15:b&15+1]
}

// Refusals that depend on the file description and name.
var refusals = []string{
	"type", "length", "empty", "exists", "space", "full", "numbers", "nosymbols",
	"a:b:c", "DF00:ABC", "DFFE:ABC", "00:ABC", ":ABC", "XYZ:ABC", "DF07:DF08", "DF07:8",
	"XY", "TENLETTERS", "A-BC", "AB CD", "DF07:A", "DF07:A.B", "99999999X", "DF07:a_b", "DF07:1",
}

// PutFile refused for every reason there is, with any data.
func C15_put() {
	k := refusals[vrt.Pick("refusal", len(refusals))]
	s := &scene{file: 7}
	s.img = blank(5)
	m := mapOf(s.img)
	over := vrt.Bool("overwrite")
	t := table
	name := "DF07"
	n := 300
	m[12], m[47], m[48] = 0xff, 7, 0xff
	if k != "nosymbols" {
		symbols(s.img, 64, 80, t)
	}
	fi := types.FileInfo{}
	switch k {
	case "type", "length", "empty":
		name = []string{"DF07", "DF08", "NINE9", "OTHER", "DF08:OTHER"}[vrt.Pick("name", 5)]
		over = true
		if k == "empty" {
			n = 0
		}
	case "exists":
		over = false
		m[100] = 9
		name = []string{"DF07", "7", "NINE9", "DF09:NINE9", "DF07:OTHER", "DF05", "FBACK"}[vrt.Pick("name", 7)]
	case "space":
		over = true
		n, name = 769, "DF07"
		if vrt.Pick("new", 2) == 1 {
			n, name = 513, []string{"DF08", "OTHER", "NINE9", "DF08:OTHER"}[vrt.Pick("name", 4)]
		}
	case "full":
		t = nil
		for i := 0; i < 819; i++ {
			t = append(t, sym{at: i, link: -1, addr: 0x1000 + i, name: string([]byte{byte('A' + i/26/26), byte('A' + i/26%26), byte('A' + i%26)})})
		}
		symbols(s.img, 64, 80, t)
		over = true
		name = []string{"DF07:OTHER", "OTHER"}[vrt.Pick("name", 2)]
	case "numbers":
		f := byte(0)
		for i := range m {
			if i < 12 || m[i] == 3 || m[i] == 4 || i == 12 || i == 48 {
				continue
			}
			f++
			if f == 3 {
				f = 5
			}
			if f == 0xfe {
				f = 1
			}
			m[i] = f
		}
		name = []string{"OTHER", "PLAIN12"}[vrt.Pick("name", 2)]
	case "nosymbols":
		name = []string{"OTHER", "DF07:OTHER", "NINE9"}[vrt.Pick("name", 3)]
		if vrt.Pick("damaged", 2) == 1 {
			symbols(s.img, 64, 80, t)
			s.img[64*256+2] = 0xff // a link outside the table
		}
		over = true
	default:
		name = k
	}
	fi = fileInfo(name, vrt.Bytes("data", n))
	switch k {
	case "type":
		fi.Descriptor.Type = types.Filetype(vrt.Int("type", 0, 0x1000))
		vrt.Assume(fi.Descriptor.Type != types.FiletypeBinary)
	case "length":
		fi.Descriptor.Length = vrt.Int("len", -1, 100000)
		vrt.Assume(fi.Descriptor.Length != n)
	}
	s.old = vrt.Clone(s.img)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, err = op.PutFile(fi, over)
	vrt.Assert(err != nil, "the put is refused")
	s.unchanged()
	o := op.(supermon.Operator)
	vrt.Assert(vrt.Eq(o.SM, mapOf(s.old)), "a refused put leaves the map in memory unchanged")
	if k == "nosymbols" {
		vrt.Assert(o.ST == nil, "there are no symbols")
	} else {
		symbolsKept(op, t, "", 0)
	}
	vrt.Reach("refused")
	vrt.Reach("refused: " + k)
}

// A put that exactly fits is accepted.
func C15_fits() {
	img := blank(5)
	m := mapOf(img)
	own, free := vrt.Pick("own", 3), vrt.Pick("free", 3)
	vrt.Assume(own+free > 0)
	for i := 0; i < own; i++ {
		m[places[0][i]] = 7
	}
	for i := 0; i < free; i++ {
		m[places[1][i]] = 0xff
	}
	n := (own+free)*256 - vrt.Pick("short", 2)*255
	data := vrt.Bytes("data", n)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, err = op.PutFile(fileInfo("DF07", data), true)
	vrt.Assert(err == nil, "a put that fits exactly is accepted")
	fi, err := op.GetFile("DF07")
	vrt.Assert(err == nil, "it can be read")
	vrt.Assert(vrt.Eq(fi.Data, pad(data)), "it reads back")
	vrt.Reach("fits")
}

// The last free file number is used.
func C15_number() {
	img := blank(5)
	symbols(img, 64, 80, table)
	m := mapOf(img)
	left := []byte{1, 2, 5, 0x80, 0xfc, 0xfd}[vrt.Pick("left", 6)]
	f := byte(0)
	for i := range m {
		if i < 12 || m[i] == 3 || m[i] == 4 {
			continue
		}
		for f++; f == 3 || f == 4 || f == left || f == 0xfe; f++ {
			if f == 0xfe {
				f = 0
			}
		}
		m[i] = f
	}
	m[40] = 0xff
	data := vrt.Bytes("data", 200)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.PutFile(fileInfo("OTHER", data), false)
	vrt.Assert(err == nil && !existed, "a put is accepted while a file number is left")
	fi, err := op.GetFile("DF" + hex2(left))
	vrt.Assert(err == nil && vrt.Eq(fi.Data, pad(data)), "and uses it")
	vrt.Reach("stored")
}

// step is one operation of a history.
type step struct {
	del  bool
	name string
	file byte
	sym  string // the symbol it leaves or removes
	n    int
}

var steps = []step{
	{name: "DF07", file: 7, n: 300},
	{name: "DF07", file: 7, n: 600},
	{name: "DF09:NAME", file: 9, sym: "NAME", n: 200},
	{name: "df07:name", file: 7, sym: "NAME", n: 10},
	{del: true, name: "DF07", file: 7},
	{del: true, name: "name", sym: "NAME"},
	{del: true, name: "9", file: 9},
}

// Histories of puts and deletes: the disk is always what they say, in memory
// and when opened again.
func C14_history() { history(3) }

// Longer ones.
func C14T_history() { history(4) }

// Histories judged for what deletes do.
func C16_history() { history(3) }

func history(n int) {
	img := blank(5)
	symbols(img, 64, 80, nil)
	m := mapOf(img)
	for _, i := range []int{12, 13, 47, 48, 303, 304, 559} {
		m[i] = 0xff
	}
	var five []byte
	for i := range m {
		if m[i] == 5 {
			five = append(five, sec(img, i)...)
		}
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	var files [16][]byte
	sym := byte(0) // the file NAME means
	for i := 0; i < n; i++ {
		s := steps[vrt.Pick("step", len(steps))]
		if s.del {
			f := s.file
			if s.sym != "" {
				f = sym
			}
			existed, err := op.Delete(s.name)
			vrt.Assert((err == nil) == (f != 0), "a delete succeeds exactly if the name means a file")
			if f != 0 {
				vrt.Assert(existed == (files[f] != nil), "existed is reported")
				files[f] = nil
			}
			if s.sym != "" {
				sym = 0
			}
		} else {
			data := vrt.Bytes("data", s.n)
			existed, err := op.PutFile(fileInfo(s.name, data), true)
			vrt.Assert(err == nil, "the put is accepted")
			vrt.Assert(existed == (files[s.file] != nil), "existed is reported")
			files[s.file] = pad(data)
			if s.sym != "" {
				sym = s.file
			}
		}
	}
	again, err := supermon.OperatorFactory{}.Operator(vrt.Clone(op.GetBytes()), 0)
	vrt.Assert(err == nil, "the disk opens again")
	for _, o := range []types.Operator{op, again} {
		used := 0
		for f, want := range files {
			if f != 7 && f != 9 {
				continue
			}
			fi, err := o.GetFile("DF" + hex2(byte(f)))
			vrt.Assert((err == nil) == (want != nil), "a file is there exactly if it was put and not deleted")
			vrt.Assert(vrt.Eq(fi.Data, want), "and holds what was put last")
			used += len(want) / 256
		}
		fi, err := o.GetFile("name")
		ok := sym != 0 && files[sym] != nil
		vrt.Assert((err == nil) == ok, "a symbol means the file it was given to last")
		if ok {
			vrt.Assert(vrt.Eq(fi.Data, files[sym]), "and leads to its contents")
		}
		fi, err = o.GetFile("DF05")
		vrt.Assert(err == nil && vrt.Eq(fi.Data, five), "the other file is unchanged")
		vrt.Assert(o.(supermon.Operator).SM.FreeSectors() == 7-used, "all else is free")
		if sym == 0 {
			symbolsKept(o, nil, "", 0)
		} else {
			symbolsKept(o, nil, "NAME", 0xdf00+int(sym))
		}
	}
	vrt.Reach("done")
}
