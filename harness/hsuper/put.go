// Package hsuper checks the NakedOS/Super-Mon operator.
package hsuper

import (
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const (
	size  = 35 * 16 * 256
	mapAt = 0x9d0
)

func mapOf(img []byte) []byte { return img[mapAt : mapAt+560] }

// blank is an image of arbitrary bytes whose sector map marks track 0 sectors
// 0-B as reserved and every other sector as belonging to bg.
func blank(bg byte) []byte {
	img := vrt.Bytes("img", size)
	m := mapOf(img)
	for i := range m {
		m[i] = bg
	}
	for i := 0; i < 12; i++ {
		m[i] = 0xfe
	}
	return img
}

// Places whose owner is left open: both sides of the boundaries between the
// three sectors that hold the map, the first sectors after the reserved ones,
// the last sectors of the disk.
var places = [][]int{
	{12, 47, 48, 303, 304, 559},
	{13, 15, 16, 304, 319, 320},
	{553, 554, 555, 556, 557, 558},
}

var lengths = []int{1, 255, 256, 257, 512, 513, 700, 768, 1024, 1025, 1536, 1537}

// scene is a disk with k open places and one file of interest.
type scene struct {
	img   []byte // the disk
	old   []byte // as it was
	om    []byte // its sector map as it was
	file  byte
	bg    byte
	free  int // sectors free
	own   int // sectors the file has
	other byte
}

func newScene(k, set int, file byte) *scene {
	s := &scene{file: file}
	s.bg = vrt.Byte("bg")
	s.other = vrt.Byte("other")
	vrt.Assume(s.bg != 0)
	vrt.Assume(s.bg != 0xff)
	vrt.Assume(s.bg != file)
	vrt.Assume(s.other != 0)
	vrt.Assume(s.other != 0xff)
	vrt.Assume(s.other != file)
	s.img = blank(s.bg)
	m := mapOf(s.img)
	for i := 0; i < k; i++ {
		switch vrt.Pick("owner", 3) {
		case 0:
			m[places[set][i]] = 0xff
			s.free++
		case 1:
			m[places[set][i]] = file
			s.own++
		default:
			m[places[set][i]] = s.other
		}
	}
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)
	return s
}

func sec(img []byte, i int) []byte { return img[i*256 : i*256+256] }

// pad is the data as a file must return it.
func pad(data []byte) []byte {
	p := make([]byte, (len(data)+255)/256*256)
	copy(p, data)
	return p
}

// stored asserts that s.file now holds data and that nothing else changed. With
// symbols, files 3 and 4 are exempt from the latter.
func (s *scene) stored(data []byte, symbols bool) {
	m := mapOf(s.img)
	var got []byte
	n := 0
	for i := 0; i < 560; i++ {
		b, a := s.om[i], m[i]
		if symbols && (b == 3 || b == 4 || b == 0xff) && (a == 3 || a == 4 || a == 0xff) {
			continue
		}
		mine := b == 0xff || b == s.file || symbols && (b == 3 || b == 4)
		if !mine {
			vrt.Assert(a == b, "a sector of another file keeps its owner")
		}
		if a == s.file {
			vrt.Assert(mine, "the file uses only free sectors and its own")
			got = append(got, sec(s.img, i)...)
			n++
			continue
		}
		if mine {
			vrt.Assert(a == 0xff || symbols && (a == 3 || a == 4), "what the file no longer uses is free")
		}
		if (i < 9 || i > 11) && a == b {
			vrt.Assert(vrt.Eq(sec(s.img, i), sec(s.old, i)), "a sector of another file is unchanged")
		}
	}
	vrt.Assert(n == len(pad(data))/256, "the file has as many sectors as it needs")
	vrt.Assert(vrt.Eq(got, pad(data)), "the file's sectors hold the data")
	vrt.Assert(vrt.Eq(s.img[0x900:mapAt], s.old[0x900:mapAt]), "the rest of sector 9 is unchanged")
}

// unchanged asserts that nothing changed at all.
func (s *scene) unchanged() {
	vrt.Assert(vrt.Eq(s.img, s.old), "a refused put leaves the image unchanged")
}

// SectorMap.WriteFile: any file number, any owner of 3 places and any owner of
// all others, files of 1 to 1025 bytes, with and without overwrite.
func C14_write() { write(3, vrt.Pick("set", 2), 8, true) }

// 5 open places, files up to 1537 bytes.
func C14T_write() { write(5, vrt.Pick("set", 3), len(lengths), true) }

// The same for the puts that are refused.
func C15_write() { write(3, vrt.Pick("set", 2), 8, false) }

// 5 open places.
func C15T_write() { write(5, vrt.Pick("set", 3), len(lengths), false) }

func write(k, set, nl int, accepted bool) {
	file := vrt.Byte("file")
	vrt.Assume(file != 0)
	vrt.Assume(file < 0xfe)
	s := newScene(k, set, file)
	n := lengths[vrt.Pick("length", nl)]
	over := vrt.Bool("overwrite")
	data := vrt.Bytes("data", n)
	dkeep := vrt.Clone(data)
	need := (n + 255) / 256
	fits := need <= s.free+s.own
	ok := fits && (s.own == 0 || over)
	vrt.Assume(ok == accepted)

	sm, err := supermon.LoadSectorMap(s.img)
	vrt.Assert(err == nil, "the map loads")
	existed, err := sm.WriteFile(s.img, file, data, over)
	vrt.Assert(vrt.Eq(data, dkeep), "the data given is not modified")
	if !ok {
		vrt.Assert(err != nil, "a put that does not fit or would overwrite unasked is refused")
		s.unchanged()
		vrt.Assert(vrt.Eq(sm, mapOf(s.old)), "a refused put leaves the map in memory unchanged")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(err == nil, "a put that fits is accepted")
	vrt.Assert(existed == (s.own > 0), "existed is reported")
	vrt.Assert(vrt.Eq(sm, mapOf(s.img)), "the map in memory is the one on the disk")
	s.stored(data, false)
	sm2, err := supermon.LoadSectorMap(s.img)
	vrt.Assert(err == nil, "the map loads again")
	got, err := sm2.ReadFile(s.img, file)
	vrt.Assert(err == nil, "the file reads back")
	vrt.Assert(vrt.Eq(got, pad(data)), "the file reads back as written, padded")
	vrt.Reach("accepted")
}

func fileInfo(name string, data []byte) types.FileInfo {
	return types.FileInfo{
		Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary},
		Data:       data,
	}
}

// Files of up to the whole disk, on a disk that is free but for one sector.
func C14_large() {
	s := &scene{file: 7}
	s.img = blank(0xff)
	m := mapOf(s.img)
	m[vrt.Pick("taken", 2)*300+20] = 9
	k := vrt.Pick("own", 3) // none, a few or most sectors are the file's already
	for i := 12; i < 560; i++ {
		if m[i] == 0xff && (k == 1 && i%100 == 0 || k == 2 && i%3 > 0) {
			m[i] = 7
			s.own++
		}
	}
	s.old = vrt.Clone(s.img)
	s.om = mapOf(s.old)
	n := []int{65280, 65536, 65537, 100000, 547 * 256, 547*256 - 255}[vrt.Pick("length", 6)]
	data := vrt.Bytes("data", n)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.PutFile(fileInfo("DF07", data), true)
	vrt.Assert(err == nil, "a large file that fits is accepted")
	vrt.Assert(existed == (s.own > 0), "existed is reported")
	s.stored(data, false)
	fi, err := op.GetFile("DF07")
	vrt.Assert(err == nil, "the large file is found")
	vrt.Assert(vrt.Eq(fi.Data, pad(data)), "the large file reads back as put, padded")
	vrt.Reach("large")
}

// A file one byte larger than the free space.
func C15_large() {
	s := &scene{file: 7}
	s.img = blank(0xff)
	m := mapOf(s.img)
	if vrt.Pick("own", 2) == 1 {
		for i := 30; i < 430; i++ {
			m[i] = 7
		}
	}
	s.old = vrt.Clone(s.img)
	data := vrt.Bytes("data", 548*256+vrt.Pick("more", 2)*70000+1)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, err = op.PutFile(fileInfo("DF07", data), true)
	vrt.Assert(err != nil, "a file larger than the disk is refused")
	s.unchanged()
	vrt.Assert(vrt.Eq(op.(supermon.Operator).SM, mapOf(s.old)), "a refused put leaves the map in memory unchanged")
	vrt.Reach("too large")
}

// anywhere is a disk of which some sectors have an owner: one of them (each of
// track 17, each sector 0 and 15), or every 35th, from each start in turn, or
// in the thorough tier any one or two.
func anywhere(owner byte, all bool) (img []byte, at []int) {
	if all {
		a := 12 + vrt.Pick("place", 548)
		at = []int{a}
		if vrt.Pick("two", 2) == 1 {
			at = []int{a, 12 + (a-12+137)%548}
			if at[0] > at[1] {
				at[0], at[1] = at[1], at[0]
			}
		}
	} else {
		switch p := vrt.Pick("places", 35+35+35+16); {
		case p < 35:
			for i := p; i < 560; i += 35 {
				at = append(at, i)
			}
		case p < 70:
			at = []int{(p - 35) * 16}
		case p < 105:
			at = []int{(p-70)*16 + 15}
		default:
			at = []int{17*16 + p - 105}
		}
	}
	img = blank(9)
	var open []int
	for _, i := range at {
		if i >= 12 {
			open = append(open, i)
			mapOf(img)[i] = owner
		}
	}
	return img, open
}

// Each sector of the disk can be the one that a file gets.
func C14_anywhere() { putAnywhere(false) }

// The same for one or two sectors, at every place.
func C14T_anywhere() { putAnywhere(true) }

func putAnywhere(all bool) {
	img, at := anywhere(0xff, all)
	if len(at) == 0 {
		return
	}
	data := vrt.Bytes("data", len(at)*256-9)
	want := vrt.Clone(img)
	for k, i := range at {
		copy(sec(want, i), pad(data)[k*256:])
		mapOf(want)[i] = 7
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, err = op.PutFile(fileInfo("DF07", data), false)
	vrt.Assert(err == nil, "a file that fits is stored")
	vrt.Assert(vrt.Eq(op.GetBytes(), want), "its sectors get the data, the map says so, and nothing else changes")
	fi, err := op.GetFile("DF07")
	vrt.Assert(err == nil && vrt.Eq(fi.Data, pad(data)), "the file reads back as written, padded")
	vrt.Reach("stored")
}

// Nor are they enough for a file that needs one more.
func C15_anywhere() { refuseAnywhere(false) }

// The same for one or two sectors, at every place.
func C15T_anywhere() { refuseAnywhere(true) }

func refuseAnywhere(all bool) {
	img, at := anywhere(0xff, all)
	want := vrt.Clone(img)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	_, err = op.PutFile(fileInfo("DF07", vrt.Bytes("data", len(at)*256+1)), true)
	vrt.Assert(err != nil, "a file that does not fit is refused")
	vrt.Assert(vrt.Eq(op.GetBytes(), want), "and changes nothing")
	vrt.Reach("refused")
}

// And each can be freed.
func C16_anywhere() { freeAnywhere(false) }

// The same for one or two sectors, at every place.
func C16T_anywhere() { freeAnywhere(true) }

func freeAnywhere(all bool) {
	img, at := anywhere(7, all)
	want := vrt.Clone(img)
	for _, i := range at {
		mapOf(want)[i] = 0xff
	}
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	existed, err := op.Delete("DF07")
	vrt.Assert(err == nil && existed == (len(at) > 0), "the file is deleted")
	vrt.Assert(vrt.Eq(op.GetBytes(), want), "its sectors are free and nothing else changes")
	vrt.Reach("freed")
}

// lengthOf stores a file of n bytes on a disk cut off after its third track,
// all of which but the system's sectors is free or the file's already, under
// each file number in turn.
func lengthOf(n int, mine bool) {
	img := vrt.Bytes("img", 3*4096)
	m := mapOf(img)
	file := byte(1 + n*37%253)
	for i := range m {
		switch {
		case i < 12:
			m[i] = 0xfe
		case i >= 48:
			m[i] = file%253 + 1 // another file
		case mine && i%5 == 3:
			m[i] = file
		default:
			m[i] = 0xff
		}
	}
	data := vrt.Bytes("data", n)
	want := vrt.Clone(img)
	k := 0
	for i := 12; i < 48; i++ {
		mapOf(want)[i] = 0xff
		if k*256 < n {
			copy(sec(want, i), pad(data)[k*256:k*256+256])
			mapOf(want)[i] = file
			k++
		}
	}
	sm, err := supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map is read")
	existed, err := sm.WriteFile(img, file, data, true)
	vrt.Assert(err == nil && existed == mine, "a file that fits is stored")
	vrt.Assert(vrt.Eq(img, want), "its sectors get the data, padded, the map says so, and nothing else changes")
	got, err := sm.ReadFile(img, file)
	vrt.Assert(err == nil && vrt.Eq(got, pad(data)), "the file reads back as put, padded")
	vrt.Reach("stored")
}

// Files of every length up to two sectors.
func C14_lengths() { lengthOf(1+vrt.Pick("n", 512), false) }

// Longer ones, also over an older version.
func C14_longer() { lengthOf(1+61*vrt.Pick("n", 151), vrt.Pick("mine", 2) == 1) }

// Every length that fits.
func C14T_lengths() { lengthOf(1+vrt.Pick("n", 36*256), vrt.Pick("mine", 2) == 1) }

// Files of every length up to two sectors refused for each reason.
func C15_lengths() {
	n := vrt.Pick("n", 513)
	img := vrt.Bytes("img", 3*4096)
	m := mapOf(img)
	file := byte(1 + n*37%253)
	for i := range m {
		m[i] = file%253 + 1
		if i < 12 {
			m[i] = 0xfe
		}
	}
	over := n%2 == 0 // with and without, and the file itself may exist
	for i := 0; i < (n-1)/256; i++ {
		m[20+7*i] = []byte{0xff, file}[(n+i)%2]
	}
	old := vrt.Clone(img)
	sm, err := supermon.LoadSectorMap(img)
	vrt.Assert(err == nil, "the map is read")
	_, err = sm.WriteFile(img, file, vrt.Bytes("data", n), over)
	vrt.Assert(err != nil, "a file that does not fit is refused")
	vrt.Assert(vrt.Eq(img, old) && vrt.Eq(sm, mapOf(old)), "and nothing changes")
	vrt.Reach("refused")
}
