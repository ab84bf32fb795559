package hdos3

import (
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// disk1 restricts an arbitrary image to one with a valid VTOC, one catalog
// sector at 17/15 and in it, as entry 2, one file called FILE. It returns where
// the file's first track/sector list is. A type of 0xff leaves the type open.
func disk1(img []byte, typ byte) (t, s byte) {
	want := make([]byte, size)
	putVTOC(want, 17, 15)
	b := at(17, 15)
	entry(want, b, 2, 0, 0, typ, name30("FILE"), 5)
	for i := 0; i < 256; i++ {
		if i >= 1 && i <= 3 || i == 6 || i == 0x27 || i == 0x31 || i >= 0x34 && i < 0x38 || i >= 0x38 && i&2 != 0 {
			vrt.Assume(img[at(17, 0)+i] == want[at(17, 0)+i])
		}
		if i == 11+72 && typ == 0xff {
			continue
		}
		if i == 1 || i == 2 || i >= 11 && (i-11)%35 == 0 && i != 11+70 || i >= 11+72 && i < 11+105 {
			vrt.Assume(img[b+i] == want[b+i])
		}
	}
	t, s = img[b+11+70], img[b+11+71]
	vrt.Assume(vrt.All(t != 0, t != 255))
	return t, s
}

func inDisk(t, s byte) bool { return vrt.All(t < 35, s < 16) }

// slot describes entry k of a track/sector list; arbitrary if free.
func slot(l []byte, k int) (t, s byte) {
	return l[12+2*k], l[13+2*k]
}

// list fixes the track/sector list at base: the given entries are arbitrary,
// all the others are zero. next is left alone.
func tsList(img []byte, base int, free ...int) {
	l := img[base : base+256]
	for k := 0; k < 122; k++ {
		skip := false
		for _, f := range free {
			skip = skip || f == k
		}
		if !skip {
			vrt.Assume(l[12+2*k] == 0)
			vrt.Assume(l[13+2*k] == 0)
		}
	}
}

// raw returns the sectors the list at base names: all 122, or for the last
// list those up to the last one named. ok is false if one is off the disk.
func raw(img []byte, base int, last bool, free ...int) (data []byte, ok bool) {
	end := 122
	l := img[base : base+256]
	if last {
		end = 0
		for _, k := range free {
			t, s := slot(l, k)
			if !vrt.All(t == 0, s == 0) && k+1 > end {
				end = k + 1
			}
		}
	}
	for k := 0; k < end; k++ {
		t, s := slot(l, k)
		if vrt.All(t == 0, s == 0) {
			data = append(data, make([]byte, 256)...)
			continue
		}
		if !inDisk(t, s) {
			return nil, false
		}
		a := at(int(t), int(s))
		data = append(data, img[a:a+256]...)
	}
	return data, true
}

// check reads FILE and compares it with what the raw data says.
func check(img []byte, typ byte, data []byte, hostile bool) {
	keep := vrt.Clone(img)
	op, err := dos3.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	fi, err := op.GetFile("FILE")
	vrt.Assert(vrt.Eq(img, keep), "reading changes nothing")
	head := 2
	switch typ & 0x7f {
	case 0:
		n := 0
		for i := len(data) - 1; i >= 0; i-- {
			if data[i] != 0 {
				n = i + 1
				break
			}
		}
		vrt.Assert(err == nil, "a text file is read")
		vrt.Assert(vrt.Eq(fi.Data, data[:n]), "a text file holds its sectors without trailing zeros")
		vrt.Assert(fi.Descriptor.Length == n, "the length is that of the data")
		vrt.Reach("text")
		same(fi, typ)
		return
	case 1, 2:
	case 4:
		head = 4
	default:
		return
	}
	if len(data) < head {
		vrt.Assert(err != nil, "a file without a length is an error")
		vrt.Reach("no data")
		return
	}
	n := int(le(data, head-2))
	if n > len(data)-head {
		vrt.Assume(hostile)
		vrt.Assert(err != nil, "a length beyond the data is an error")
		vrt.Reach("too long")
		return
	}
	vrt.Assert(err == nil, "a sound file is read")
	vrt.Assert(fi.Descriptor.Length == n, "the length is the stored one")
	vrt.Assert(len(fi.Data) == n, "exactly that many bytes are returned")
	vrt.Assert(vrt.Eq(fi.Data, data[head:head+n]), "they follow the length")
	vrt.Assert(vrt.Imp(typ&0x7f == 4, fi.StartAddress == le(data, 0)), "a binary's start address is its first two bytes")
	vrt.Reach("read")
	same(fi, typ)
}

func same(fi types.FileInfo, typ byte) {
	vrt.Assert(fi.Descriptor.Name == "FILE", "the name is the catalog's")
	vrt.Assert(fi.Descriptor.Type == fileType(typ), "the type is the catalog's")
	vrt.Assert(fi.Descriptor.Locked == (typ >= 0x80), "the locked flag is the catalog's")
	vrt.Assert(fi.Descriptor.Sectors == 5, "the sector count is the catalog's")
}

var kinds = []byte{4, 2, 1, 0x84, 0x82}

// A program or binary whose list, anywhere, names any 3 sectors.
func C08_program() { program(0, 1, 2) }

// The same with entries up to the last of the list.
func C08T_program() { program(0, 1, 2, 5, 121) }

func program(free ...int) {
	img := vrt.Image("img", size)
	typ := kinds[vrt.Pick("type", len(kinds))]
	t, s := disk1(img, typ)
	vrt.Assume(inDisk(t, s))
	base := at(int(t), int(s))
	vrt.Assume(vrt.All(img[base+1] == 0, img[base+2] == 0))
	tsList(img, base, free...)
	data, ok := raw(img, base, true, free...)
	vrt.Assume(ok)
	vrt.Assume(len(data) > 4)
	check(img, typ, data, false)
}

// A text file of 3 sectors whose last bytes are anything.
func C08_text() {
	img := vrt.Image("img", size)
	typ := byte(0x80 * vrt.Pick("locked", 2))
	t, s := disk1(img, typ)
	vrt.Assume(inDisk(t, s))
	base := at(int(t), int(s))
	vrt.Assume(vrt.All(img[base+1] == 0, img[base+2] == 0))
	tsList(img, base, 0, 1, 2)
	data, ok := raw(img, base, true, 0, 1, 2)
	vrt.Assume(ok)
	n := len(data)
	vrt.Assume(n > 0)
	m := []int{3, 0, 250}[vrt.Pick("tail", 3)]
	for i := 0; i < m; i++ {
		vrt.Assume(data[n-1-i] == 0)
	}
	vrt.Assume(data[n-1-m-4] != 0)
	check(img, typ, data, false)
}

// Two lists: the first always counts with all its 122 entries.
func C08_long() {
	img := vrt.Image("img", size)
	typ := []byte{4, 2}[vrt.Pick("type", 2)]
	t, s := disk1(img, typ)
	vrt.Assume(t == 18)
	vrt.Assume(s == 15)
	base := at(18, 15)
	t, s = img[base+1], img[base+2]
	vrt.Assume(inDisk(t, s))
	vrt.Assume(vrt.Any(t != 0, s != 0))
	vrt.Assume(vrt.Any(t != 18, s != 15))
	base2 := at(int(t), int(s))
	vrt.Assume(vrt.All(img[base2+1] == 0, img[base2+2] == 0))
	f1 := []int{0, 121}
	f2 := []int{0, 3}
	tsList(img, base, f1...)
	tsList(img, base2, f2...)
	d1, ok := raw(img, base, false, f1...)
	vrt.Assume(ok)
	d2, ok := raw(img, base2, true, f2...)
	vrt.Assume(ok)
	check(img, typ, append(d1, d2...), false)
}

// Several files: each name finds its own, a deleted or unknown one none.
func C08_names() {
	img := make([]byte, size)
	b := chain(img, 2)
	kill := vrt.Pick("deleted", 5)
	var nm [4][]byte
	for i := 0; i < 4; i++ {
		n := []byte("FILE" + string(rune('A'+i)))
		if i < 2 {
			n[3] = vrt.Byte("c")
			vrt.Assume(vrt.All(n[3] > ' ', n[3] < 0x7f))
		}
		nm[i] = n
		t := byte(18 + i)
		if i == kill {
			t = 0xff
		}
		entry(img, b[i/2], 3*(i%2)+i/2, t, 15, byte(4*(i%2)), name30(string(n)), uint16(i))
		l := at(18+i, 15)
		img[l+12], img[l+13] = byte(18+i), byte(i)
		d := at(18+i, i)
		img[d], img[d+1], img[d+2], img[d+4], img[d+5] = byte(i), byte(i+0x40), 2, byte(0x10+i), vrt.Byte("data")
	}
	ask := append([]byte{}, nm[vrt.Pick("ask", 4)]...)
	ask[4] = vrt.Byte("last")
	vrt.Assume(vrt.All(ask[4] > ' ', ask[4] < 0x7f))
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile(string(ask))
	for i := 0; i < 4; i++ {
		if i != kill && string(nm[i]) == string(ask) {
			d := at(18+i, i)
			vrt.Assert(err == nil, "a file in the catalog is found")
			vrt.Assert(fi.Descriptor.Name == string(ask) && fi.Descriptor.Sectors == i, "the right entry is used")
			if i%2 == 1 {
				vrt.Assert(vrt.Eq(fi.Data, img[d+4:d+6]) && fi.StartAddress == le(img, d), "the right contents are read")
			} else {
				vrt.Assert(len(fi.Data) >= 5 && vrt.Eq(fi.Data[:5], img[d:d+5]), "the right contents are read")
			}
			vrt.Reach("found")
			return
		}
	}
	vrt.Assert(err != nil, "a name that is not in the catalog is an error")
	vrt.Reach("not found")
}

// Any chain of up to 2 lists, any three entries in each, any length.
func C09_file() { damaged(2, 0, 1) }

// Up to 4 lists.
func C09T_file() { damaged(4, 0) }

// More entries.
func C09T_wide() { damaged(1, 0, 1, 2, 120, 121) }

func damaged(max int, free ...int) {
	img := vrt.Image("img", size)
	t, s := disk1(img, 0xff)
	typ := img[at(17, 15)+11+72]
	vrt.Assume(vrt.Any(typ == 4, typ == 2, typ == 1, typ == 0))
	var data []byte
	var ts, ss []byte
	good := true
	for i := 0; vrt.Any(t != 0, s != 0); i++ {
		dup := false
		for j := range ts {
			dup = vrt.Any(dup, vrt.All(ts[j] == t, ss[j] == s))
		}
		if dup {
			vrt.Reach("the lists loop")
			good = false
			break
		}
		if !inDisk(t, s) {
			vrt.Assume(at(int(t), int(s))+256 > size) // a sector number beyond 15 is not always off the disk
			vrt.Reach("a list is off the disk")
			good = false
			break
		}
		vrt.Assume(i < max)
		base := at(int(t), int(s))
		tsList(img, base, free...)
		ts, ss = append(ts, t), append(ss, s)
		t, s = img[base+1], img[base+2]
		last := vrt.All(t == 0, s == 0)
		d, ok := raw(img, base, last, free...)
		if !ok {
			l := img[base : base+256]
			for _, k := range free {
				x, y := slot(l, k)
				vrt.Assume(vrt.Any(y < 16, at(int(x), int(y))+256 > size))
			}
			vrt.Reach("a data sector is off the disk")
			good = false
		}
		data = append(data, d...)
	}
	if good {
		typ = byte(vrt.Conc(int(typ)))
		if typ == 0 && len(data) > 0 {
			// bound the run of trailing zeros
			n := len(data)
			lo := n - 5
			vrt.Assume(data[lo] != 0)
		}
		if len(data) == 0 {
			empty(img, typ)
			return
		}
		check(img, typ, data, true)
		return
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	_, err := op.GetFile("FILE")
	vrt.Assert(err != nil, "a damaged file is an error")
}

// empty: a file without data either is an error or reads as nothing.
func empty(img []byte, typ byte) {
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile("FILE")
	vrt.Reach("empty")
	vrt.Assert(vrt.Imp(typ != 0, err != nil), "a program without data is an error")
	if err == nil {
		vrt.Assert(len(fi.Data) == 0 && fi.Descriptor.Length == 0, "an empty text file stays empty")
	}
}

// A text file of zeros only.
func C09_zeros() {
	img := make([]byte, size)
	b := chain(img, 1)[0]
	entry(img, b, 0, 18, 15, 0, name30("FILE"), 5)
	l := at(18, 15)
	t, s := vrt.Byte("t"), vrt.Byte("s")
	img[l+12], img[l+13] = 18, 3
	img[l+14], img[l+15] = 18, 4
	img[at(18, 3)+vrt.Pick("i", 4)*85] = t
	img[at(18, 4)+vrt.Pick("j", 2)*255] = s
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile("FILE")
	vrt.Assert(err == nil, "a text file is read")
	vrt.Assert(vrt.Imp(vrt.All(t == 0, s == 0), len(fi.Data) == 0), "a text file of zeros is empty")
	vrt.Observe("len", len(fi.Data))
}

// Images that end early.
func C09_short() {
	n := vrt.Int("n", at(17, 16), size)
	img := vrt.ImageLen("img", size, n)
	t, s := disk1(img, 4)
	vrt.Assume(t == 30)
	vrt.Assume(s == 5)
	l := at(30, 5)
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	if n < l+256 {
		_, err := op.GetFile("FILE")
		vrt.Assert(err != nil, "a list beyond the image is an error")
		return
	}
	vrt.Assume(vrt.All(img[l+1] == 0, img[l+2] == 0))
	tsList(img, l, 0)
	t, s = img[l+12], img[l+13]
	vrt.Assume(vrt.Any(t != 0, s != 0))
	d := at(int(t), int(s))
	_, err := op.GetFile("FILE")
	vrt.Assert(vrt.Imp(d+256 > n, err != nil), "a data sector beyond the image is an error")
}

// Text files whose last character is anywhere, also at the ends of sectors,
// with whole sectors of zeros after it.
func C08_zeros() {
	img := make([]byte, size)
	b := chain(img, 1)[0]
	entry(img, b, 0, 18, 15, 0, name30("FILE"), 5)
	l := at(18, 15)
	var data []byte
	holes := vrt.Pick("hole", 2) == 1
	last := []int{0, 1, 100, 255, 256, 257, 511, 512, 600, 767, 768, 1023, -1}[vrt.Pick("last", 13)]
	for i := 0; i < 4; i++ {
		d := img[at(20+i, 15-i) : at(20+i, 15-i)+256]
		if holes && i == 1 {
			data = append(data, make([]byte, 256)...)
			continue
		}
		for j := range d {
			p := i*256 + j
			switch {
			case p == last:
				d[j] = vrt.Byte("c")
				vrt.Assume(d[j] != 0)
			case p < last && p%7 != 0:
				d[j] = byte(p) | 0x80
			}
		}
		img[l+12+2*i], img[l+13+2*i] = byte(20+i), byte(15-i)
		data = append(data, d...)
	}
	n := 0
	for i, c := range data {
		if c != 0 {
			n = i + 1
		}
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile("FILE")
	vrt.Assert(err == nil, "a text file is read")
	vrt.Assert(fi.Descriptor.Length == n, "the length is that of the data")
	vrt.Assert(vrt.Eq(fi.Data, data[:n]), "a text file holds its sectors without trailing zeros")
	vrt.Reach("text")
}

// A file of many lists: every one counts with all its entries but the last.
func C08_lists() {
	n := []int{3, 4, 9}[vrt.Pick("lists", 3)]
	img := make([]byte, size)
	b := chain(img, 1)[0]
	ts := [][2]byte{{20, 0}, {0, 7}, {34, 15}, {3, 0}, {17, 1}, {33, 3}, {1, 0}, {20, 1}, {19, 15}}[:n]
	entry(img, b, 0, ts[0][0], ts[0][1], 0, name30("FILE"), 500)
	c := vrt.Byte("c")
	vrt.Assume(c != 0)
	d := at(25, 5)
	img[d], img[d+255] = c, 0x8D
	hole := vrt.Pick("entry", 4) * 40
	for i, p := range ts {
		l := at(int(p[0]), int(p[1]))
		if i+1 < n {
			img[l+1], img[l+2] = ts[i+1][0], ts[i+1][1]
		}
		img[l+12+2*hole], img[l+13+2*hole] = 25, 5
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile("FILE")
	vrt.Assert(err == nil && len(fi.Data) == ((n-1)*122+hole+1)*256, "all the lists count")
	for i := 0; i < n; i++ {
		o := (i*122 + hole) * 256
		vrt.Assert(fi.Data[o] == c && fi.Data[o+255] == 0x8D, "each sector is in its place")
	}
	vrt.Reach("read")
}

// Programs and binaries of every size up to the largest, on a disk where all
// but a few of their sectors are the same.
func C08_big() {
	kind := []byte{1, 2, 4}[vrt.Pick("kind", 3)]
	n := []int{255, 256, 12000, 32767, 32768, 40001, 65534, 65535}[vrt.Pick("length", 8)]
	img := make([]byte, size)
	b := chain(img, 1)[0]
	entry(img, b, 0, 20, 0, kind, name30("FILE"), 300)
	head := []byte{byte(n), byte(n >> 8)}
	var start uint16
	if kind == 4 {
		start = vrt.U16("start")
		head = append([]byte{byte(start), byte(start >> 8)}, head...)
	}
	for i := 0; i < 256; i++ {
		img[at(25, 0)+i], img[at(25, 1)+i], img[at(25, 2)+i] = byte(i), byte(i)^0xff, byte(i)^0x5a
	}
	copy(img[at(25, 0):], head)
	last := (len(head) + n - 1) / 256
	for i := 0; i <= last; i++ {
		l := at(20, i/122)
		if i > 0 && i%122 == 0 {
			img[at(20, i/122-1)+1], img[at(20, i/122-1)+2] = 20, byte(i/122)
		}
		s := byte(1)
		if i == 0 {
			s = 0
		} else if i == last {
			s = 2
		}
		img[l+12+i%122*2], img[l+13+i%122*2] = 25, s
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile("FILE")
	vrt.Assert(err == nil && fi.Descriptor.Length == n && len(fi.Data) == n, "the file has its length")
	for _, i := range []int{0, 1, 100, 251, 252, 253, 254, 255, 256, 11999, 32766, 32767, 32768, 65533, 65534, n - 1} {
		if i >= n {
			continue
		}
		p := i + len(head)
		want := byte(p)
		if p/256 == last {
			want ^= 0x5a
		} else if p/256 > 0 {
			want ^= 0xff
		}
		if p/256 == 0 {
			want = byte(p)
		}
		vrt.Assert(fi.Data[i] == want, "the data follow the length")
	}
	if kind == 4 {
		vrt.Assert(fi.StartAddress == start, "the start address comes first")
	}
	vrt.Reach("read")
}

// Long chains of lists, the last of which links back to any of the others, or
// off the disk.
func C09_back() {
	n := []int{3, 9, 30}[vrt.Pick("lists", 3)]
	img := make([]byte, size)
	b := chain(img, 1)[0]
	for i := 0; i < n; i++ {
		l := at(20+i/10, i%10)
		img[l+1], img[l+2] = byte(20+(i+1)/10), byte((i+1)%10)
	}
	entry(img, b, 0, 20, 0, 0, name30("FILE"), 500)
	l := at(20+(n-1)/10, (n-1)%10)
	k := vrt.Pick("back", 6)
	t, s := vrt.Byte("t"), vrt.Byte("s")
	vrt.Assume(at(int(t), int(s))+256 > size)
	if k < 5 {
		p := []int{0, 1, n / 2, n - 2, n - 1}[k]
		t, s = byte(20+p/10), byte(p%10)
	}
	img[l+1], img[l+2] = t, s
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	_, err := op.GetFile("FILE")
	vrt.Assert(err != nil, "a damaged file is an error")
}

// A name is found only as it is, and only among the live entries.
func C08_exact() {
	img := make([]byte, size)
	b := chain(img, 1)
	live := vrt.Pick("live", 2) == 1
	t := byte(0xff)
	if live {
		t = 18
	}
	entry(img, b[0], vrt.Pick("at", 7), t, 15, byte(4), name30("FILE"), 3)
	l := at(18, 15)
	img[l+12], img[l+13] = 18, 3
	d := at(18, 3)
	img[d+2] = 2
	ask := []string{"FILE", "FILE ", " FILE", "file", "FIL", "FILE2", "", "FILE\x00", "FILE                          "}[vrt.Pick("ask", 9)]
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	fi, err := op.GetFile(ask)
	if live && ask == "FILE" {
		vrt.Assert(err == nil && fi.Descriptor.Name == "FILE" && len(fi.Data) == 2, "the file in the catalog is found")
		vrt.Reach("found")
		return
	}
	vrt.Assert(err != nil, "a name that is not in the catalog is an error")
	vrt.Reach("not found")
}

// A file read again is the file as it is then.
func C08_again() {
	img := make([]byte, size)
	b := chain(img, 1)
	entry(img, b[0], 1, 18, 15, 4, name30("FILE"), 3)
	entry(img, b[0], 3, 19, 15, 4, name30("OTHER"), 3)
	for t := 18; t < 20; t++ {
		img[at(t, 15)+12], img[at(t, 15)+13] = byte(t), 3
		img[at(t, 3)+2] = 2
		img[at(t, 3)+4], img[at(t, 3)+5] = byte(t), vrt.Byte("data")
	}
	op, _ := dos3.OperatorFactory{}.Operator(img, 0)
	look := func(name string, at int) {
		fi, err := op.GetFile(name)
		vrt.Assert(err == nil && vrt.Eq(fi.Data, img[at+4:at+6]) && fi.Descriptor.Length == 2, "the file is read as it is")
		fi.Data[0]++ // the reader's own
		vrt.Assert(fi.Data[0] != img[at+4], "what was read is a copy")
	}
	look("FILE", at(18, 3))
	look("OTHER", at(19, 3))
	switch vrt.Pick("change", 4) {
	case 0:
		img[at(18, 3)+4] = vrt.Byte("new")
		look("FILE", at(18, 3))
	case 1:
		img[at(18, 15)+12] = 19
		look("FILE", at(19, 3))
	case 2:
		copy(img[at(3, 3):], img[at(18, 15):at(18, 15)+256])
		img[at(3, 3)+12] = 19
		entry(img, b[0], 1, 3, 3, 4, name30("FILE"), 3)
		look("FILE", at(19, 3))
	default:
		entry(img, b[0], 1, 0xff, 15, 4, name30("FILE"), 3)
		_, err := op.GetFile("FILE")
		vrt.Assert(err != nil, "a file that is gone is an error")
	}
	look("OTHER", at(19, 3))
	vrt.Reach("again")
}
