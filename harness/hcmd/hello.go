package hcmd

import (
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

var helloFiles = []string{"DF20", "20", "df20", "FDEMO", "fDemo", "DF07", "1", "DFFD", "DF20:FDEMO", "DF07:FDEMO", "NOFILE", "CODE", "DFFE", "DF20:A:B", "", "0", "6000", "HELLO5"}
var helloNums = []int{0x20, 0x20, 0x20, 0x20, 0x20, 7, 1, 0xfd, 0x20, 7, 0, 0, 0, 0, 0, 0, 0, 0}

func hello(h how, i int, had int) {
	raw := nakedos(true)
	switch had {
	case 1: // DF01 is there
		raw[mapAt+12] = 1
	case 2: // and is called FHELLO
		raw[mapAt+12] = 1
		symbol(raw, 5, 0xdf01, "FHELLO")
	case 3: // FHELLO is another file
		symbol(raw, 5, 0xdf20, "FHELLO")
	}
	file := convert(raw, "raw", h.stored)
	path := vrt.Path(h.name)
	vrt.WriteFile(path, file)
	addr, start := vrt.U16("addr"), vrt.U16("start")
	c := &cmd.MkHelloCmd{Order: h.order, DiskImage: path, Filename: helloFiles[i], Address: addr, Start: start}
	err := c.Run(globals())
	jump := vrt.If(start == 0xffff, int(addr), int(start))
	ok := vrt.All(addr&0xff == 0, jump >= int(addr), helloNums[i] != 0)
	vrt.Assert((err == nil) == ok, "the loader is made exactly when the load address is page aligned, not above the start, and the name is a file")
	vrt.Assert(vrt.FileCount() == 1, "no other file appears")
	if err != nil {
		vrt.Assert(same(path, file), "a refused request leaves the image file alone")
		vrt.Reach("refused")
		return
	}
	op, order, err := disk.OpenFilename(path, h.order, "nakedos", globals().DiskOperatorFactories, 0)
	vrt.Assert(err == nil && order == h.stored, "the image opens again, in the same order")
	fi, err := op.GetFile("DF01")
	vrt.Assert(err == nil && len(fi.Data) == 256, "DF01 is a one-sector file")
	want := make([]byte, 256)
	copy(want, []byte{0x20, 0x40, 0x03, 0x6d, 0x01, 0xdc, 0x2c, byte(helloNums[i]), 0xdf, 0x2c, 0x00, byte(addr >> 8), 0xd8, 0x4c, byte(jump), byte(jump >> 8)})
	vrt.Assert(vrt.Eq(fi.Data, want), "it loads the file at the page and jumps to the start")
	fi, err = op.GetFile("FHELLO")
	vrt.Assert(err == nil && vrt.Eq(fi.Data, want), "it is called FHELLO")
	got, _ := vrt.ReadFile(path)
	after := convert(got, h.stored, "raw")
	for i := 0; i < 560; i++ {
		switch raw[mapAt+i] {
		case 9, 0xfe, 0x20:
			vrt.Assert(after[mapAt+i] == raw[mapAt+i], "every other file keeps its sectors")
			if i < 9 || i > 11 {
				vrt.Assert(vrt.Eq(after[i*256:i*256+256], raw[i*256:i*256+256]), "and their contents")
			}
		}
	}
	vrt.Reach("made")
}

// Every load and start address, for every kind of name.
func C28_names() {
	hello(hows[2], vrt.Pick("name", len(helloFiles)), 0)
}

// Whatever DF01 and FHELLO were before, in both orders.
func C28_before() {
	hello(hows[2+vrt.Pick("how", 3)], []int{0, 3}[vrt.Pick("name", 2)], vrt.Pick("had", 4))
}

// Every file number.
func C28T_number() { number(vrt.Pick("n", 256)) }

func C28_number() {
	number([]int{0, 2, 3, 8, 0x0f, 0x10, 0x7f, 0x80, 0xa0, 0xfc, 0xfd, 0xfe, 0xff}[vrt.Pick("n", 13)])
}

func number(n int) {
	helloFiles = append(helloFiles, "DF"+string("0123456789ABCDEF"[n>>4])+string("0123456789ABCDEF"[n&15]))
	if n == 0 || n >= 0xfe {
		n = 0
	}
	helloNums = append(helloNums, n)
	hello(hows[2], len(helloFiles)-1, 0)
}

// Disks that are not NakedOS, or have no symbol table, and full ones.
func C28_otherDisks() {
	raw := nakedos(false)
	order := []types.DiskOrder{"do", "po"}[vrt.Pick("order", 2)]
	switch vrt.Pick("disk", 4) {
	case 0: // no symbol table
	case 1: // not a NakedOS disk: an illegal file number
		raw[mapAt+100] = 0
		// Nor one of another kind: the ProDOS directory is in block 2.
		// The bytes of its link are at the same place in both orders.
	case 2: // a DOS 3.3 disk as well
		raw[mapAt+100] = 0
		v := raw[17*4096 : 17*4096+256]
		copy(v, make([]byte, 256))
		v[3], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = 3, 122, 1, 35, 16, 1
	default: // a full disk
		for i := 0; i < 560; i++ {
			if raw[mapAt+i] == 0xff {
				raw[mapAt+i] = 9
			}
		}
	}
	file := convert(raw, "raw", order)
	path := vrt.Path("d.dsk")
	vrt.WriteFile(path, file)
	op, _, oerr := disk.OpenImage(vrt.Clone(file), "d.dsk", order, "auto", globals().DiskOperatorFactories[1:2], 0)
	vrt.Assert(oerr != nil || op.Name() == "nakedos", "only NakedOS is tried")
	c := &cmd.MkHelloCmd{Order: order, DiskImage: path, Filename: "DF20", Address: 0x6000, Start: 0xffff}
	g := globals()
	g.DiskOperatorFactories = g.DiskOperatorFactories[:2]
	err := c.Run(g)
	vrt.Assert(err != nil, "the request is refused")
	vrt.Assert(same(path, file) && vrt.FileCount() == 1, "and nothing is written")
	vrt.Reach("refused")
}
