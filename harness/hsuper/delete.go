package hsuper

import (
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// SectorMap.Delete and Persist: any file, any owner of every sector.
func C16_map() {
	file := vrt.Byte("file")
	vrt.Assume(file != 0)
	vrt.Assume(file < 0xfe)
	s := &scene{file: file}
	s.img = vrt.Bytes("img", size)
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)
	sm, err := supermon.LoadSectorMap(s.img)
	vrt.Assert(err == nil, "the map loads")
	sm.Delete(file)
	err = sm.Persist(s.img)
	vrt.Assert(err == nil, "the map is written")
	s.freed(sm)
	sm2, err := supermon.LoadSectorMap(s.img)
	vrt.Assert(err == nil, "the map loads again")
	s.freed(sm2)
	for i := 0; i < 560; i++ {
		if i < 9 || i > 11 {
			vrt.Assert(vrt.Eq(sec(s.img, i), sec(s.old, i)), "no data changes")
		}
	}
	vrt.Assert(vrt.Eq(s.img[0x900:mapAt], s.old[0x900:mapAt]), "the rest of sector 9 is unchanged")
	vrt.Reach("deleted")
}

// freed asserts that exactly the file's sectors have become free.
func (s *scene) freed(m []byte) {
	for i := 0; i < 560; i++ {
		was := s.om[i] == s.file
		vrt.Assert(vrt.Any(vrt.All(was, m[i] == 0xff), vrt.All(!was, m[i] == s.om[i])), "exactly the file's sectors are freed")
	}
}

type del struct {
	name string
	file byte // 0: not found
	sym  bool // a symbol goes too
}

var dels = []del{
	{"DF07", 7, false}, {"7", 7, false}, {"07", 7, false}, {"df09", 9, false}, {"DFFD", 0xfd, false}, {"fd", 0xfd, false},
	{"NINE9", 9, true}, {"nine9", 9, true}, {"ZZZZZZZZZ", 0xfd, true}, {"FBACK", 5, true},
	{"PLAIN12", 0, false}, {"NOSUCH", 0, false}, {"", 0, false}, {"DF00", 0, false}, {"DFFE", 0, false}, {"FE", 0, false}, {"FF", 0, false}, {"DFFF", 0, false}, {"0", 0, false}, {"DF07:NINE9", 0, false},
}

// Operator.Delete by number and symbol, with any ownership of 3 places.
func C16_delete() { deleteNamed(2, true) }

// More places.
func C16T_delete() { deleteNamed(5, true) }

// The same on a disk without a symbol table.
func C16_nosymbols() { deleteNamed(2, false) }

func deleteNamed(k int, withTable bool) {
	d := dels[vrt.Pick("delete", len(dels))]
	if !withTable && d.sym {
		d.file, d.sym = 0, false
	}
	s := &scene{file: d.file}
	s.img = blank(5)
	var t []sym
	if withTable {
		t = table
		symbols(s.img, 544, 20, t)
	}
	m := mapOf(s.img)
	for i := 0; i < k; i++ {
		switch vrt.Pick("owner", 4) {
		case 0:
			m[places[0][i]] = 0xff
		case 1:
			m[places[0][i]] = 7
		case 2:
			m[places[0][i]] = 9
		}
	}
	m[100] = 0xfd
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.Delete(d.name)
	if d.file == 0 {
		vrt.Assert(err != nil, "deleting a name that does not exist is an error")
		vrt.Assert(vrt.Eq(s.img, s.old), "and changes nothing")
		vrt.Reach("not found")
		return
	}
	vrt.Assert(err == nil, "the file is deleted")
	n := 0
	for i := range s.om {
		if s.om[i] == d.file {
			n++
		}
	}
	vrt.Assert(existed == (n > 0), "existed is reported")
	again, err := supermon.OperatorFactory{}.Operator(vrt.Clone(s.img), 0)
	vrt.Assert(err == nil, "the disk opens again")
	var left []sym
	for _, e := range t {
		if !d.sym || e.addr != 0xdf00+int(d.file) {
			left = append(left, e)
		}
	}
	for _, o := range []types.Operator{op, again} {
		sm := o.(supermon.Operator).SM
		if withTable {
			symbolsKept(o, left, "", 0)
		}
		if !d.sym {
			s.freed(sm)
		}
		for _, f := range []byte{3, 4, 5, 7, 9, 0xfd} {
			if f == d.file {
				vrt.Assert(len(sm.SectorsForFile(f)) == 0, "the deleted file has no sectors")
				_, err := o.GetFile("DF" + hex2(f))
				vrt.Assert(err != nil, "the deleted file cannot be read")
				continue
			}
			if d.sym && (f == 3 || f == 4) {
				vrt.Assert(len(sm.SectorsForFile(f)) == 16, "the symbol table keeps its size")
				continue
			}
			var want []byte
			for i := range s.om {
				if s.om[i] == f {
					want = append(want, sec(s.old, i)...)
				}
			}
			fi, err := o.GetFile("DF" + hex2(f))
			vrt.Assert((err == nil) == (len(want) > 0), "another file is still there")
			vrt.Assert(vrt.Eq(fi.Data, want), "another file reads as before")
		}
		free := 0
		for i := range s.om {
			if s.om[i] == 0xff {
				free++
			}
		}
		vrt.Assert(sm.FreeSectors() == free+n, "the free space grows by the file's sectors")
	}
	if d.sym {
		vrt.Reach("deleted with symbol")
	} else {
		vrt.Reach("deleted")
	}
}

// Deleting the system's own files by number, and the last files there can be.
func C16_system() {
	f := []byte{1, 2, 3, 4, 0xfc, 0xfd}[vrt.Pick("file", 6)]
	s := &scene{file: f}
	s.img = blank(5)
	if vrt.Pick("table", 2) == 1 {
		symbols(s.img, 64, 80, table)
	}
	m := mapOf(s.img)
	if vrt.Pick("there", 2) == 1 {
		m[47], m[304] = f, f
	}
	n := 0
	for i := range m {
		if m[i] == f {
			n++
		}
	}
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.Delete([]string{"DF", ""}[vrt.Pick("form", 2)] + hex2(f))
	vrt.Assert(err == nil && existed == (n > 0), "existed is reported")
	s.freed(op.(supermon.Operator).SM)
	s.freed(mapOf(s.img))
	for i := 0; i < 560; i++ {
		if i < 9 || i > 11 {
			vrt.Assert(vrt.Eq(sec(s.img, i), sec(s.old, i)), "no data changes")
		}
	}
	vrt.Reach("deleted")
}
