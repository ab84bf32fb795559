package hcmd

import (
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// A DOS 3.3 disk (logical order) with two live files around a deleted one.
// Each has its track/sector list at 20/n and data at 21/2n, 21/2n+1.
func dosDisk(kind byte) []byte {
	img := vrt.Bytes("img", size)
	at := func(t, s int) []byte { return img[t*4096+s*256 : t*4096+s*256+256] }
	v := at(17, 0)
	copy(v, make([]byte, 256))
	v[1], v[2], v[3], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = 17, 15, 3, 122, 1, 35, 16, 1
	c := at(17, 15)
	copy(c, make([]byte, 256))
	for i, n := range []string{"ONE", "GONE", "TWO FILES"} {
		e := c[11+35*i:]
		e[0], e[1], e[2] = 20, byte(i), kind
		if i == 1 {
			e[0] = 0xff
		}
		for j := 0; j < 30; j++ {
			e[3+j] = 0xa0
			if j < len(n) {
				e[3+j] = n[j] | 0x80
			}
		}
		l := at(20, i)
		copy(l, make([]byte, 256))
		l[12], l[13], l[14], l[15] = 21, byte(2*i), 21, byte(2*i+1)
	}
	return img
}

func dump(h how, img []byte, name string) (string, error) {
	path := vrt.Path(h.name)
	file := convert(img, "raw", h.stored)
	vrt.WriteFile(path, file)
	err := (&cmd.DumpCmd{Order: h.order, System: h.system, DiskImage: path, Filename: name}).Run(globals())
	vrt.Assert(same(path, file) && vrt.FileCount() == 1, "dump changes no file")
	return path, err
}

// dump of a DOS 3.3 file prints its data and nothing else.
func C31_dumpDOS() {
	kind := []byte{0, 1, 2, 4, 0x80, 0x84}[vrt.Pick("kind", 6)]
	img := dosDisk(kind)
	f := vrt.Pick("file", 4)
	name := []string{"ONE", "TWO FILES", "GONE", "TWO"}[f]
	at := img[21*4096 : 21*4096+512]
	if f == 1 {
		at = img[21*4096+1024 : 21*4096+1536]
	}
	var want []byte
	n := []int{0, 1, 255, 400}[vrt.Pick("n", 4)]
	switch kind & 0x7f {
	case 0:
		for i := n; i < 512; i++ {
			at[i] = 0
		}
		if n > 0 {
			vrt.Assume(at[n-1] != 0)
		}
		want = at[:n]
	case 1, 2:
		at[0], at[1] = byte(n), byte(n>>8)
		want = at[2 : 2+n]
	default:
		at[2], at[3] = byte(n), byte(n>>8)
		want = at[4 : 4+n]
	}
	h := []how{{"d.dsk", "do", "dos3", "do"}, {"d.po", "auto", "auto", "po"}, {"d.dsk", "auto", "auto", "do"}}[vrt.Pick("how", 3)]
	_, err := dump(h, convert(img, "do", "raw"), name)
	vrt.Assert((err == nil) == (f < 2), "dump succeeds exactly for a live file")
	if err != nil {
		want = nil
		vrt.Reach("refused")
	} else {
		vrt.Reach("dumped")
	}
	vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
}

// dump of a NakedOS file prints all of its sectors.
func C31_dumpNakedOS() {
	raw := nakedos(true)
	f := vrt.Pick("file", 5)
	name := []string{"DF20", "FDEMO", "fdemo", "DF21", "NOFILE"}[f]
	h := hows[vrt.Pick("how", len(hows))]
	_, err := dump(h, raw, name)
	vrt.Assert((err == nil) == (f < 3), "dump succeeds exactly for an existing file")
	var want []byte
	if err == nil {
		want = append(append(want, raw[13*256:14*256]...), raw[40*256:41*256]...)
		vrt.Reach("dumped")
	}
	vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
}

// A program with one line, at any address, of an arbitrary byte between two others.
func C31_decode() {
	loc := vrt.U16("loc")
	vrt.Assume(loc != 0)
	b := []byte{'A', vrt.Byte("b"), 7}
	next := loc + 8
	prog := []byte{byte(next), byte(next >> 8), 10, 0, b[0], b[1], b[2], 0, 0, 0}
	vrt.Assume(next != 0)
	vrt.Assume(int(loc)+8 < 0x10000)
	// not a program that starts with its own length
	vrt.Assume(next > 0xff)
	vrt.Assume(b[1] < 0x80)
	vrt.Assume(b[1] != 0)
	c := &cmd.DecodeCmd{Filename: "-", Location: loc, Raw: vrt.Pick("raw", 2) == 1}
	if vrt.Pick("stdin", 2) == 1 {
		vrt.SetStdin(prog)
	} else {
		c.Filename = vrt.Path("prog")
		vrt.WriteFile(c.Filename, prog)
	}
	err := c.Run(globals())
	vrt.Assert(err == nil, "the program can be listed")
	want := "10 "
	for _, x := range b {
		want += string([]byte{x})
	}
	want += "\n"
	if !c.Raw {
		want = basic.ChevronControlCodes(want)
	}
	vrt.Assert(string(vrt.Stdout()) == want, "the listing is printed, with its control codes as asked")
	vrt.Reach("listed")
}

// A program that cannot be decoded: an error, and nothing is printed.
func C31_decodeRefused() {
	n := vrt.Pick("n", 7)
	prog := vrt.Bytes("b", n)
	_, err := applesoft.Decode(vrt.Clone(prog), 0x801)
	if err == nil {
		return
	}
	c := &cmd.DecodeCmd{Filename: "-", Location: 0x801, Raw: vrt.Pick("raw", 2) == 1}
	switch vrt.Pick("from", 3) {
	case 0:
		vrt.SetStdin(prog)
	case 1:
		c.Filename = vrt.Path("prog")
		vrt.WriteFile(c.Filename, prog)
	default:
		c.Filename = vrt.Path("none")
	}
	err = c.Run(globals())
	vrt.Assert(err != nil, "a program that cannot be decoded is an error")
	vrt.Assert(len(vrt.Stdout()) == 0, "and nothing is printed")
	vrt.Reach("refused")
}

func ls(c *cmd.LsCmd, name string, file []byte) ([]string, error) {
	path := vrt.Path(name)
	vrt.WriteFile(path, file)
	c.Image = vrt.OpenFile(path)
	err := c.Run(globals())
	vrt.Assert(same(path, file) && vrt.FileCount() == 1, "ls changes no file")
	out := string(vrt.Stdout())
	if out == "" {
		return nil, err
	}
	vrt.Assert(strings.HasSuffix(out, "\n"), "each line ends with a newline")
	return strings.Split(out[:len(out)-1], "\n"), err
}

func lines(got, want []string) {
	vrt.Assert(len(got) == len(want), "one line for each entry")
	for i := range want {
		vrt.Assert(got[i] == want[i], "with its name, in the order of the catalog")
	}
}

// ls of a DOS 3.3 disk.
func C32_dos() {
	img := dosDisk(4)
	// a name of three arbitrary printing characters
	e := img[17*4096+15*256+11+3:]
	nm := ""
	for i := 0; i < 3; i++ {
		ch := vrt.Byte("ch")
		vrt.Assume(ch > 0x20)
		vrt.Assume(ch < 0x7f)
		e[i] = ch | 0x80
		nm += string([]byte{ch})
	}
	h := []how{{"d.dsk", "do", "dos3", "do"}, {"d.po", "auto", "auto", "po"}, {"d.dsk", "auto", "auto", "do"}}[vrt.Pick("how", 3)]
	c := &cmd.LsCmd{Order: h.order, System: h.system, ShortNames: vrt.Pick("short", 2) == 1}
	dir := vrt.Pick("dir", 2) == 1
	if dir {
		c.Directory = "SUB"
	}
	got, err := ls(c, h.name, convert(img, "do", h.stored))
	vrt.Assert((err == nil) == !dir, "a directory of a disk without directories is an error")
	if dir {
		vrt.Assert(len(got) == 0, "and prints nothing")
		vrt.Reach("refused")
		return
	}
	lines(got, []string{nm, "TWO FILES"})
	vrt.Reach("listed")
}

// ls of a NakedOS disk.
func C32_nakedos() {
	h := hows[vrt.Pick("how", len(hows))]
	short := vrt.Pick("short", 2) == 1
	table := vrt.Pick("table", 2) == 1
	c := &cmd.LsCmd{Order: h.order, System: h.system, ShortNames: short}
	dir := vrt.Pick("dir", 2) == 1
	if dir {
		c.Directory = "SUB"
	}
	got, err := ls(c, h.name, convert(nakedos(table), "raw", h.stored))
	vrt.Assert((err == nil) == !dir, "a directory of a disk without directories is an error")
	if dir {
		vrt.Assert(len(got) == 0, "and prints nothing")
		return
	}
	switch {
	case !table:
		lines(got, []string{"DF09", "DF20"})
	case short:
		lines(got, []string{"DF03", "DF04", "DF09", "FDEMO"})
	default:
		lines(got, []string{"DF03", "DF04", "DF09", "DF20:FDEMO"})
	}
	vrt.Reach("listed")
}

// ls of a ProDOS volume with a subdirectory, on a floppy or a larger device.
func C32_prodos() {
	img := make([]byte, size)
	name, stored := "d.po", types.DiskOrder("po")
	switch vrt.Pick("image", 3) {
	case 0:
	case 1:
		name, stored = "d.do", "do"
	default:
		name, img = "d.hdv", make([]byte, 20*512)
	}
	entry := func(b []byte, typ byte, n string) {
		b[0] = typ<<4 | byte(len(n))
		copy(b[1:], n)
	}
	ch := vrt.Byte("ch")
	vrt.Assume(ch > 0x20)
	vrt.Assume(ch < 0x7f)
	nm := "F" + string([]byte{ch})
	k := img[2*512:]
	entry(k[4:], 15, "VOL")
	k[4+0x1f], k[4+0x20], k[4+0x23] = 0x27, 13, 6
	entry(k[4+0x27:], 1, nm)
	entry(k[4+3*0x27:], 13, "SUB")
	k[4+3*0x27+0x11] = 8
	s := img[8*512:]
	entry(s[4:], 14, "SUB")
	s[4+0x10], s[4+0x1f], s[4+0x20], s[4+0x23] = 0x75, 0x27, 13, 2
	entry(s[4+0x27:], 2, "IN"+nm)
	c := &cmd.LsCmd{Order: "auto", System: []string{"auto", "prodos"}[vrt.Pick("system", 2)], ShortNames: vrt.Pick("short", 2) == 1}
	dir := vrt.Pick("dir", 3)
	c.Directory = []string{"", "SUB", "NONE"}[dir]
	file := img
	if len(img) == size {
		file = convert(img, "po", stored)
	}
	got, err := ls(c, name, file)
	vrt.Assert((err == nil) == (dir < 2), "an unknown directory is an error")
	switch dir {
	case 0:
		lines(got, []string{nm, "SUB"})
	case 1:
		lines(got, []string{"IN" + nm})
	default:
		vrt.Assert(len(got) == 0, "and prints nothing")
	}
	vrt.Reach("listed")
}

// An image that does not open is an error, and nothing is listed.
func C32_refused() {
	n := []int{0, 1, size - 1, size + 256, 35 * 13 * 256}[vrt.Pick("n", 5)]
	c := &cmd.LsCmd{Order: flags[vrt.Pick("order", 3)], System: []string{"auto", "dos3", "prodos", "nakedos"}[vrt.Pick("system", 4)]}
	got, err := ls(c, []string{"d.dsk", "d.po", "d"}[vrt.Pick("name", 3)], vrt.Bytes("img", n))
	vrt.Assert(err != nil && len(got) == 0, "an image of another size is an error")
	vrt.Reach("refused")
}

// Files of more than 32 KB.
func C31_dumpBig() {
	if vrt.Pick("system", 2) == 1 {
		raw := nakedos(vrt.Pick("table", 2) == 1)
		_, err := dump(hows[vrt.Pick("how", 4)], raw, "DF09")
		vrt.Assert(err == nil, "a file of most of the disk can be dumped")
		var want []byte
		for i := 0; i < 560; i++ {
			if raw[mapAt+i] == 9 {
				want = append(want, raw[i*256:i*256+256]...)
			}
		}
		vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
		vrt.Reach("dumped")
		return
	}
	kind := []byte{1, 2, 4}[vrt.Pick("kind", 3)]
	img := dosDisk(kind)
	at := func(t, s int) []byte { return img[t*4096+s*256 : t*4096+s*256+256] }
	n := []int{0x7fff, 0x8001, 40000, 65000}[vrt.Pick("n", 4)]
	var want []byte
	for i := 0; i < (n+4+255)/256; i++ {
		l := at(20, 6*(i/122))
		if i%122 == 0 {
			copy(l, make([]byte, 256))
			if i > 0 {
				p := at(20, 6*(i/122-1))
				p[1], p[2] = 20, byte(6*(i/122))
			}
		}
		t, s := 21+i/16%14, i%16
		l[12+2*(i%122)], l[13+2*(i%122)] = byte(t), byte(s)
		d := at(t, s)
		if i == 0 {
			h := 0
			if kind == 4 {
				h = 2
			}
			d[h], d[h+1] = byte(n), byte(n>>8)
			d = d[h+2:]
		}
		want = append(want, d...)
	}
	want = want[:n]
	_, err := dump([]how{{"d.dsk", "do", "dos3", "do"}, {"d.po", "auto", "auto", "po"}}[vrt.Pick("how", 2)], convert(img, "do", "raw"), "ONE")
	vrt.Assert(err == nil, "a long file can be dumped")
	vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
	vrt.Reach("dumped")
}

// Entries without a name have a line too.
func C32_blank() {
	c := &cmd.LsCmd{Order: "auto", System: []string{"auto", "dos3"}[vrt.Pick("system", 2)], ShortNames: vrt.Pick("short", 2) == 1}
	img := dosDisk(4)
	i := []int{0, 2}[vrt.Pick("which", 2)]
	e := img[17*4096+15*256+11+35*i:]
	for j := 0; j < 30; j++ {
		e[3+j] = 0xa0
	}
	want := []string{"ONE", "TWO FILES"}
	want[i/2] = ""
	got, err := ls(c, "d.do", img)
	vrt.Assert(err == nil, "the disk can be listed")
	lines(got, want)
	vrt.Reach("listed")
}

// A DOS 3.3 disk in ProDOS order whose name does not say so, found by trying.
func C32_found() {
	img := dosDisk(4)
	at := func(t, s int) []byte { return img[t*4096+s*256 : t*4096+s*256+256] }
	for i := 0; i < 4096; i++ {
		img[i] = 0xee
	}
	// the second catalog sector; in the other order there is one that leads
	// nowhere in its place
	copy(at(17, 14), at(17, 15))
	for j := 0; j < 30; j++ {
		at(17, 14)[11+3+j] = 0xa0
	}
	at(17, 14)[11+3] = 'X' | 0x80
	at(17, 15)[1], at(17, 15)[2] = 17, 14
	copy(at(17, 1), make([]byte, 256))
	at(17, 1)[1] = 99
	c := &cmd.LsCmd{Order: "auto", System: []string{"auto", "dos3"}[vrt.Pick("system", 2)]}
	name := []string{"d.dsk", "d"}[vrt.Pick("name", 2)]
	got, err := ls(c, name, convert(img, "do", "po"))
	vrt.Assert(err == nil, "the disk is found")
	lines(got, []string{"ONE", "TWO FILES", "X", "TWO FILES"})
	vrt.Reach("listed")
}

// A disk whose catalog cannot be read.
func C32_damaged() {
	img := dosDisk(4)
	c := &cmd.LsCmd{Order: []types.DiskOrder{"do", "po"}[vrt.Pick("order", 2)], System: "dos3", ShortNames: vrt.Pick("short", 2) == 1}
	v, k := img[17*4096:], img[17*4096+15*256:]
	stored := types.DiskOrder("do")
	what := vrt.Pick("what", 8)
	switch what {
	case 0:
		v[0x34] = 34 // tracks
	case 1:
		v[0x35] = 13 // sectors
	case 2:
		v[1] = 35
	case 3:
		k[1], k[2] = 17, 15 // a catalog without end
	case 4:
		k[1], k[2] = 40, 1
	default:
		// block 2 is the same sectors in both readings used here
		stored = "po"
		c.System = "prodos"
		img = make([]byte, size)
		b := img[2*512:]
		b[4] = 0xf3
		copy(b[5:], "VOL")
		b[4+0x1f], b[4+0x20], b[4+0x23] = 0x27, 13, 6
		b[4+0x27] = 0x11
		b[4+0x28] = 'A'
		switch what {
		case 5:
			b[2] = 2 // a directory without end
		case 6:
			b[2], b[3] = 0x18, 1 // off the disk
		default:
			b[4+0x27], b[4+0x27+0x11] = 0xd1, 9 // a subdirectory that is none
			img[9*512+2] = 9
		}
	}
	got, err := ls(c, []string{"d.dsk", "d.po", "d"}[vrt.Pick("name", 3)], convert(img, stored, c.Order))
	vrt.Assert(err != nil, "a catalog that cannot be read is an error")
	vrt.Assert(len(got) == 0, "and nothing is printed")
	vrt.Reach("refused")
}

// A path of many long names.
func C32_deep() {
	img := make([]byte, size)
	n := []int{1, 4, 5, 8, 17}[vrt.Pick("depth", 5)]
	stored := []types.DiskOrder{"do", "po"}[vrt.Pick("stored", 2)]
	head := func(b []byte, typ byte, n string) {
		b[0] = typ<<4 | byte(len(n))
		copy(b[1:], n)
		b[0x1f], b[0x20] = 0x27, 13
	}
	cur, at, path := img[2*512:], 2, ""
	head(cur[4:], 15, "VOL")
	for i := 0; i < n; i++ {
		nm := string(rune('A'+i)) + ".LONG.NAME.XYZ" // of 15 characters
		e := cur[4+0x27*(1+i%12):]
		head(e, 13, nm)
		e[0x1f], e[0x20] = 0, 0
		key := 20 + i
		e[0x10], e[0x11] = 0x0f, byte(key)
		s := img[key*512:]
		head(s[4:], 14, nm)
		s[4+0x10], s[4+0x23], s[4+0x25], s[4+0x26] = 0x75, byte(at), byte(2+i%12), 0x27
		cur, at, path = s, key, path+"/"+nm
	}
	ch := vrt.Byte("ch")
	vrt.Assume(ch > 0x20)
	vrt.Assume(ch < 0x7f)
	e := cur[4+0x27*12:]
	head(e, 1, "IN"+string([]byte{ch}))
	e[0x1f], e[0x20] = 0, 0
	c := &cmd.LsCmd{Order: stored, System: []string{"auto", "prodos"}[vrt.Pick("system", 2)], Directory: path[1:]}
	none := vrt.Pick("none", 2) == 1
	if none {
		c.Directory += "X"
	}
	got, err := ls(c, "d.dsk", convert(img, "po", stored))
	vrt.Assert((err == nil) == !none, "exactly the directories there are can be listed")
	if none {
		vrt.Assert(len(got) == 0, "and nothing else is printed")
		return
	}
	lines(got, []string{"IN" + string([]byte{ch})})
	vrt.Reach("listed")
}

// The image can come from standard input.
func C31_dumpStdin() {
	raw := nakedos(true)
	h := []how{{"-", "do", "nakedos", "do"}, {"-", "auto", "nakedos", "po"}, {"-", "auto", "auto", "do"}}[vrt.Pick("how", 3)]
	vrt.SetStdin(convert(raw, "raw", h.stored))
	ok := vrt.Pick("name", 2) == 0
	name := "FDEMO"
	if !ok {
		name = "DF21"
	}
	err := (&cmd.DumpCmd{Order: h.order, System: h.system, DiskImage: "-", Filename: name}).Run(globals())
	vrt.Assert((err == nil) == ok, "dump succeeds exactly for an existing file")
	var want []byte
	if ok {
		want = append(append(want, raw[13*256:14*256]...), raw[40*256:41*256]...)
		vrt.Reach("dumped")
	}
	vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
	vrt.Assert(vrt.FileCount() == 0, "no file appears")
}

// dump of a file by any number, of several sizes, on a disk without symbols.
func C31_dumpNumber() {
	raw := nakedos(false)
	n := []int{1, 2, 3, 4, 5, 6, 7, 8, 0x0f, 0x10, 0x11, 0x1f, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xef, 0xfc, 0xfd}[vrt.Pick("number", 21)]
	size := []int{1, 2, 15, 16, 17, 33}[vrt.Pick("size", 6)]
	var want []byte
	for i := 0; i < size; i++ {
		j := 50 + 7*i
		raw[mapAt+j] = byte(n)
	}
	for i := 0; i < size; i++ {
		j := 50 + 7*i
		want = append(want, raw[j*256:j*256+256]...)
	}
	name := "DF" + string("0123456789ABCDEF"[n>>4]) + string("0123456789ABCDEF"[n&15])
	_, err := dump(how{"d.po", "po", "nakedos", "po"}, raw, name)
	vrt.Assert(err == nil, "an existing file can be dumped")
	vrt.Assert(vrt.Eq(vrt.Stdout(), want), "exactly the data of the file is printed")
	vrt.Reach("dumped")
}
