package hcmd

import (
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const mapAt = 0x9d0

// A NakedOS disk of arbitrary contents: file 20 has two sectors, there are
// three free sectors (more with a symbol table), file 9 has all the others.
func nakedos(table bool) []byte {
	img := vrt.Bytes("img", size)
	vrt.Assume(img[17*4096+3] != 3) // not a DOS 3.3 disk
	img[0x6d0] = 0                  // not one in the other order
	m := img[mapAt : mapAt+560]
	for i := range m {
		m[i] = 9
	}
	for i := 0; i < 12; i++ {
		m[i] = 0xfe
	}
	m[13], m[40] = 0x20, 0x20
	m[12], m[300], m[559] = 0xff, 0xff, 0xff
	if table {
		for i := 0; i < 16; i++ {
			m[64+i], m[96+i] = 3, 4
			for j := 0; j < 256; j++ {
				img[(64+i)*256+j], img[(96+i)*256+j] = 0, 0
			}
		}
		// FDEMO is DF20
		symbol(img, 0, 0xdf20, "FDEMO")
		symbol(img, 1, 0x6000, "CODE")
	}
	return img
}

// symbol stores an entry with letters only, in no chain.
func symbol(img []byte, at, addr int, name string) {
	t1, t2 := img[64*256:80*256], img[96*256:112*256]
	t1[at*5], t1[at*5+1] = byte(addr), byte(addr>>8)
	v := 0
	for i := len(name) - 1; i >= 0; i-- {
		v = v<<5 + int(name[i]-'@')
	}
	for i := 0; i < 5; i++ {
		t2[at*5+i] = byte(v >> (8 * i))
	}
	t1[at*5+4] = byte(v >> 40)
}

// how an image is named and opened
type how struct {
	name   string
	order  types.DiskOrder
	system string
	stored types.DiskOrder
}

var hows = []how{
	{"d.dsk", "do", "nakedos", "do"},
	{"d.dsk", "po", "nakedos", "po"},
	{"d.do", "auto", "auto", "do"},
	{"d.po", "auto", "auto", "po"},
	{"d.po", "do", "auto", "do"},
	{"d.dsk", "auto", "nakedos", "po"},
	{"d", "auto", "nakedos", "po"},
	{"d.DSK", "auto", "nakedos", "do"},
}

func pad(b []byte) []byte {
	p := make([]byte, (len(b)+255)/256*256)
	copy(p, b)
	return p
}

// put that fails, for each reason: nothing on the host changes.
func C26_putRefused() {
	h := hows[vrt.Pick("how", len(hows))]
	why := vrt.Pick("why", 12)
	table := why == 8
	file := convert(nakedos(table), "raw", h.stored)
	data := vrt.Bytes("data", 300)
	c := &cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: "B", Address: vrt.U16("addr"), TargetFilename: "DF21"}
	source := true
	switch why {
	case 0:
		source = false
	case 1:
		c.FiletypeName = "XYZQ"
	case 2:
		c.FiletypeName = "T"
	case 3:
		c.TargetFilename = "DF20" // exists
	case 4:
		data = vrt.Bytes("big", 769) // too big
	case 5:
		data = nil
	case 6:
		c.TargetFilename = "DF20:A:B"
	case 7:
		c.TargetFilename = "DF21:FNEW" // no symbol table
	case 8:
		c.TargetFilename = "DF21:A-B"
	case 9:
		file = file[:size-1]
	case 10:
		c.System = "none"
	default:
		c.TargetFilename = "DF20"
		c.Overwrite = true
		data = vrt.Bytes("huge", 5*256+1)
	}
	c.DiskImage, c.SourceFilename = vrt.Path(h.name), vrt.Path("source")
	vrt.WriteFile(c.DiskImage, file)
	n := 1
	if source {
		vrt.WriteFile(c.SourceFilename, data)
		n = 2
	}
	err := c.Run(globals())
	vrt.Assert(err != nil, "the put is refused")
	vrt.Assert(same(c.DiskImage, file), "a refused put leaves the image file alone")
	vrt.Assert(!source || same(c.SourceFilename, data), "and its source")
	vrt.Assert(vrt.FileCount() == n, "and makes no file")
	vrt.Assert(len(vrt.Stdout()) == 0, "and prints nothing to standard output")
	vrt.Reach("refused")
}

// put that succeeds: the file holds the changed disk in its own order.
func C26_put() {
	h := hows[vrt.Pick("how", len(hows))]
	what := vrt.Pick("what", 4)
	raw := nakedos(what >= 2)
	file := convert(raw, "raw", h.stored)
	data := vrt.Bytes("data", []int{1, 256, 300}[vrt.Pick("n", 3)])
	c := &cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: []string{"B", "BIN"}[vrt.Pick("type", 2)], Address: vrt.U16("addr")}
	get := ""
	switch what {
	case 0:
		c.TargetFilename, get = "DF21", "DF21"
	case 1:
		c.TargetFilename, get, c.Overwrite = "20", "DF20", true
	case 2:
		c.TargetFilename, get, c.Overwrite = "FDEMO", "DF20", true
	default:
		c.TargetFilename, get = "DF21:FNEW", "FNEW"
	}
	c.DiskImage, c.SourceFilename = vrt.Path(h.name), vrt.Path("source")
	vrt.WriteFile(c.DiskImage, file)
	vrt.WriteFile(c.SourceFilename, data)
	err := c.Run(globals())
	vrt.Assert(err == nil, "the put succeeds")
	vrt.Assert(same(c.SourceFilename, data) && vrt.FileCount() == 2, "no other file changes or appears")
	op, order, err := disk.OpenFilename(c.DiskImage, h.order, h.system, globals().DiskOperatorFactories, 0)
	vrt.Assert(err == nil && order == h.stored, "the image opens again, in the same order")
	fi, err := op.GetFile(get)
	vrt.Assert(err == nil && vrt.Eq(fi.Data, pad(data)), "the file is on the disk")
	// the rest of the disk, in the order of the file
	got, _ := vrt.ReadFile(c.DiskImage)
	after := convert(got, h.stored, "raw")
	for i := 0; i < 560; i++ {
		switch raw[mapAt+i] {
		case 9, 0xfe:
			if i >= 9 && i <= 11 {
				continue // the sector map
			}
			vrt.Assert(vrt.Eq(after[i*256:i*256+256], raw[i*256:i*256+256]), "the other files and the system keep their sectors")
			vrt.Assert(after[mapAt+i] == raw[mapAt+i], "and own them")
		}
	}
	vrt.Reach("put")
}

// What a put wrote is exactly what the same change makes in memory.
func C26_putExact() {
	h := hows[vrt.Pick("how", len(hows))]
	file := convert(nakedos(true), "raw", h.stored)
	keep := vrt.Clone(file)
	data := vrt.Bytes("data", 300)
	name := []string{"DF21", "DF20", "FDEMO", "DF21:FNEW", "FNEW", "DF20:FNEW", "DF21:FDEMO"}[vrt.Pick("name", 7)]
	over := vrt.Pick("over", 2) == 1
	c := &cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: "B", TargetFilename: name, Overwrite: over,
		DiskImage: vrt.Path(h.name), SourceFilename: vrt.Path("source")}
	vrt.WriteFile(c.DiskImage, file)
	vrt.WriteFile(c.SourceFilename, data)
	op, _, err := disk.OpenImage(file, h.name, h.order, h.system, globals().DiskOperatorFactories, 0)
	vrt.Assert(err == nil, "the image opens")
	_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}, over)
	if err == nil {
		keep = convert(op.GetBytes(), "raw", h.stored)
		vrt.Reach("put")
	} else {
		vrt.Reach("refused")
	}
	err2 := c.Run(globals())
	vrt.Assert((err == nil) == (err2 == nil), "the command succeeds exactly when the operation does")
	vrt.Assert(same(c.DiskImage, keep), "the image file holds exactly the changed disk")
}

// rm, of files that exist or not.
func C26_rm() {
	h := hows[vrt.Pick("how", len(hows))]
	what := vrt.Pick("what", 7)
	raw := nakedos(what >= 3)
	file := convert(raw, "raw", h.stored)
	c := &cmd.DeleteCmd{Order: h.order, System: h.system, MissingOk: vrt.Bool("ok"), DiskImage: vrt.Path(h.name)}
	vrt.WriteFile(c.DiskImage, file)
	exists := false
	switch what {
	case 0:
		c.Filename, exists = "DF20", true
	case 1:
		c.Filename = "DF22"
	case 2:
		c.Filename = "FDEMO" // no symbol table
	case 3:
		c.Filename, exists = "FDEMO", true
	case 4:
		c.Filename = "NOFILE"
	case 5:
		c.Filename = "CODE" // not the name of a file
	default:
		c.Filename, exists = "DF20", true
	}
	err := c.Run(globals())
	vrt.Assert(vrt.FileCount() == 1, "no other file appears")
	if !exists {
		vrt.Assert((err == nil) == c.MissingOk, "deleting a missing file is an error unless that was said to be fine")
		vrt.Assert(same(c.DiskImage, file), "and changes nothing")
		vrt.Reach("missing")
		return
	}
	vrt.Assert(err == nil, "an existing file can be deleted")
	op, order, err := disk.OpenFilename(c.DiskImage, h.order, h.system, globals().DiskOperatorFactories, 0)
	vrt.Assert(err == nil && order == h.stored, "the image opens again, in the same order")
	_, err = op.GetFile("DF20")
	vrt.Assert(err != nil, "the file is gone")
	fi, err := op.GetFile("DF09")
	vrt.Assert(err == nil, "another file is still there")
	var nine []byte
	for i := 0; i < 560; i++ {
		if raw[mapAt+i] == 9 {
			nine = append(nine, raw[i*256:i*256+256]...)
		}
	}
	vrt.Assert(vrt.Eq(fi.Data, nine), "and holds what it held")
	vrt.Reach("deleted")
}

// Systems that cannot be changed, and images that do not open.
func C26_unsupported() {
	img := vrt.Bytes("img", size)
	name, system := "d.dsk", []string{"dos3", "prodos"}[vrt.Pick("system", 2)]
	switch vrt.Pick("image", 4) {
	case 0:
	case 1:
		img = img[:size-256]
	case 2:
		img = img[:35*13*256]
	default:
		name, system, img = "d.hdv", "prodos", img[:1024]
	}
	path := vrt.Path(name)
	exists := vrt.Pick("exists", 2) == 1
	n := 1
	if exists {
		vrt.WriteFile(path, img)
		n = 2
	}
	src := vrt.Path("source")
	data := vrt.Bytes("data", 300)
	vrt.WriteFile(src, data)
	order := []types.DiskOrder{"do", "po", "auto"}[vrt.Pick("order", 3)]
	if order == "auto" && len(img) == size {
		// arbitrary contents: leave no room for guesses
		return
	}
	var err error
	switch vrt.Pick("cmd", 4) {
	case 0:
		err = (&cmd.PutCmd{Order: order, System: system, FiletypeName: "B", Overwrite: vrt.Bool("f"), DiskImage: path, TargetFilename: "DF21", SourceFilename: src}).Run(globals())
	case 1:
		err = (&cmd.DeleteCmd{Order: order, System: system, MissingOk: vrt.Bool("f"), DiskImage: path, Filename: "DF21"}).Run(globals())
	case 2:
		vrt.Assume(len(img) != size)
		err = (&cmd.MkHelloCmd{Order: order, DiskImage: path, Filename: "DF20", Address: 0x6000, Start: 0xffff}).Run(globals())
	default:
		if name == "d.dsk" && len(img) == size && exists {
			err = (&cmd.ReorderCmd{Order: "do", NewOrder: "do", DiskImage: path, Overwrite: true}).Run(globals())
		} else {
			err = (&cmd.ReorderCmd{Order: "do", NewOrder: "po", DiskImage: path, Overwrite: true}).Run(globals())
		}
	}
	vrt.Assert(err != nil, "the command reports an error")
	if exists {
		vrt.Assert(same(path, img), "a command that fails leaves the image file alone")
	}
	vrt.Assert(same(src, data), "and every other file")
	vrt.Assert(vrt.FileCount() == n, "and makes none")
	vrt.Reach("refused")
}

// Files of many sizes are put by the command as they are.
func C14_command() {
	raw := nakedos(false)
	m := raw[mapAt : mapAt+560]
	for i := 12; i < 560; i++ {
		m[i] = 0xff
	}
	m[100] = 9
	n := []int{1, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 547*256 - 1, 547 * 256}[vrt.Pick("length", 15)]
	h := []how{{"d.do", "auto", "auto", "do"}, {"d.po", "po", "nakedos", "po"}}[vrt.Pick("how", 2)]
	data := vrt.Bytes("data", n)
	src := vrt.Path("source")
	vrt.WriteFile(src, data)
	img := vrt.Path(h.name)
	vrt.WriteFile(img, convert(raw, "raw", h.stored))
	err := (&cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: "B", DiskImage: img, TargetFilename: "DF21", SourceFilename: src}).Run(globals())
	vrt.Assert(err == nil, "a file that fits is put")
	k := 0
	for i := 12; i < 560; i++ {
		if i == 100 || k*256 >= n {
			continue
		}
		m[i] = 0x21
		s := raw[i*256 : i*256+256]
		copy(s, make([]byte, 256))
		copy(s, data[k*256:])
		k++
	}
	vrt.Assert(same(img, convert(raw, "raw", h.stored)), "its sectors get the data, padded, the map says so, and nothing else changes")
	vrt.Reach("put")
}
