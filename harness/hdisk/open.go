package hdisk

import (
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

var factories = []types.OperatorFactory{supermon.OperatorFactory{}, dos3.OperatorFactory{}, prodos.OperatorFactory{}}

var sysNames = []string{"dos3", "prodos", "nakedos"}
var sysOrders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO, types.DiskOrderRaw}

// blankNakedOS marks all sectors free, except the reserved ones.
func blankNakedOS(l []byte) {
	m := l[0x9d0:]
	for i := 0; i < 560; i++ {
		m[i] = 0xFF
	}
	for i := 0; i < 12; i++ {
		m[i] = 0xFE
	}
}

// Every image content survives opening and writing back, each system sees its
// own logical order, and whatever it puts in memory is what is written.
func C02_writeBack() {
	sys := vrt.Pick("sys", 3)
	order := orders[vrt.Pick("order", 2)]
	l := vrt.Bytes("img", size)
	if sys == 2 {
		blankNakedOS(l)
	}
	logical := vrt.Clone(l)
	ext := [][2]string{{"disk.dsk", "out.dsk"}, {"disk.do", "out.po"}, {"disk.po", "out.do"}, {"disk", "out.hdv"}}[vrt.Pick("names", 4)]
	img := convert(l, sysOrders[sys], order)
	keep := vrt.Clone(img)
	op, got, err := disk.OpenImage(img, ext[0], order, sysNames[sys], factories, 0)
	vrt.Assert(err == nil, "a floppy image opens with an explicit order and system")
	vrt.Assert(got == order, "the order is the one asked for")
	vrt.Assert(op.Name() == sysNames[sys], "the system is the one asked for")
	vrt.Assert(vrt.Eq(op.GetBytes(), logical), "the system sees each sector at its logical position")
	file := vrt.Path(ext[1])
	err = disk.WriteBack(file, op, got, false)
	vrt.Assert(err == nil, "it can be written")
	out, ok := vrt.ReadFile(file)
	vrt.Assert(ok && vrt.Eq(out, keep), "written back unchanged, the file is the original byte for byte")
	vrt.Assert(vrt.Eq(op.GetBytes(), logical), "writing back leaves the disk in memory alone")
	// now with arbitrary new contents
	m := vrt.Bytes("new", size)
	copy(op.GetBytes(), m)
	err = disk.WriteBack(file, op, got, true)
	vrt.Assert(err == nil, "it can be written over itself")
	out, ok = vrt.ReadFile(file)
	vrt.Assert(ok && vrt.Eq(out, convert(m, sysOrders[sys], order)), "exactly the changed sectors change in the file")
	vrt.Reach("written")
	vrt.ObserveBytes("head", out[256:1024])
}

// Writing back also works for what was opened from a file by name.
func C02_openFile() {
	sys := vrt.Pick("sys", 3)
	order := orders[vrt.Pick("order", 2)]
	l := make([]byte, size)
	blankNakedOS(l)
	t := []int{1, 34}[vrt.Pick("track", 2)]
	s := vrt.Pick("sector", 16)
	old := vrt.Bytes("old", 256)
	copy(l[(t*16+s)*256:], old)
	img := convert(l, sysOrders[sys], order)
	name := vrt.Path([]string{"disk.dsk", "disk.po", "disk.do"}[vrt.Pick("name", 3)])
	vrt.WriteFile(name, img)
	op, got, err := disk.OpenFilename(name, order, sysNames[sys], factories, 0)
	vrt.Assert(err == nil && got == order, "the file opens")
	sec, err := disk.ReadSector(op.GetBytes(), byte(t), byte(s))
	vrt.Assert(err == nil && vrt.Eq(sec, old), "the sector is at its logical position")
	nw := vrt.Bytes("new", 256)
	err = disk.WriteSector(op.GetBytes(), byte(t), byte(s), nw)
	vrt.Assert(err == nil, "the sector can be written")
	err = disk.WriteBack(name, op, got, true)
	vrt.Assert(err == nil, "the file can be written")
	out, ok := vrt.ReadFile(name)
	// the same 256 bytes, in file order
	copy(l[(t*16+s)*256:], nw)
	vrt.Assert(ok && vrt.Eq(out, convert(l, sysOrders[sys], order)), "exactly the bytes of that sector change")
	vrt.Reach("changed")
}

type fakeOp struct {
	name  string
	order types.DiskOrder
	b     []byte
}

func (f *fakeOp) Name() string                                            { return f.name }
func (f *fakeOp) DiskOrder() types.DiskOrder                              { return f.order }
func (f *fakeOp) HasSubdirs() bool                                        { return false }
func (f *fakeOp) Catalog(string) ([]types.Descriptor, error)              { return nil, nil }
func (f *fakeOp) GetFile(string) (types.FileInfo, error)                  { return types.FileInfo{}, nil }
func (f *fakeOp) Delete(string) (bool, error)                             { return false, nil }
func (f *fakeOp) PutFile(fi types.FileInfo, overwrite bool) (bool, error) { return false, nil }
func (f *fakeOp) GetBytes() []byte                                        { return f.b }

// Images of another size are written verbatim, whatever the orders.
func C02_verbatim() {
	n := []int{0, 1, 255, 256, 512, 4096, 35 * 13 * 256, size - 256, size - 1, size + 1, size + 256, 2 * size}[vrt.Pick("n", 12)]
	b := vrt.Bytes("b", n)
	op := &fakeOp{"x", orders[vrt.Pick("o", 3)], b}
	file := vrt.Path("f.hdv")
	err := disk.WriteBack(file, op, orders[vrt.Pick("d", 3)], false)
	vrt.Assert(err == nil, "it can be written")
	out, ok := vrt.ReadFile(file)
	vrt.Assert(ok && vrt.Eq(out, b), "the file has the bytes of the image")
	vrt.Reach("written")
}

// A .hdv image opens as ProDOS with its own bytes and is written back verbatim.
func C02_hdv() {
	k := vrt.Pick("k", 5)
	b := vrt.Bytes("b", 512*k)
	keep := vrt.Clone(b)
	op, order, err := disk.OpenImage(b, "x.HDV", []types.DiskOrder{"auto", "po"}[vrt.Pick("o", 2)], []string{"auto", "prodos"}[vrt.Pick("s", 2)], factories, 0)
	vrt.Assert(err == nil && order == types.DiskOrderPO && op.Name() == "prodos", "it opens as ProDOS")
	vrt.Assert(vrt.Eq(op.GetBytes(), keep), "ProDOS sees the bytes as they are")
	file := vrt.Path("y.hdv")
	vrt.Assert(disk.WriteBack(file, op, order, true) == nil, "it can be written")
	out, ok := vrt.ReadFile(file)
	vrt.Assert(ok && vrt.Eq(out, keep), "written back verbatim")
}

type fakeFactory struct {
	name   string
	order  types.DiskOrder
	match  [2]bool // verdict when the image is taken in DO, PO order
	works  [2]bool // whether opening it succeeds
	floppy bool
}

func (f *fakeFactory) Name() string               { return f.name }
func (f *fakeFactory) DiskOrder() types.DiskOrder { return f.order }

// saw tells in which file order the image was taken; sector s of track 3 holds s.
func (f *fakeFactory) saw(b []byte) int {
	if !f.floppy {
		return 1
	}
	p := phys(f.order)[1]
	q := int(b[(3*16+1)*256])
	switch {
	case dosPhys[q] == p:
		return 0
	case proPhys[q] == p:
		return 1
	}
	vrt.Assert(false, "the image is in no known order")
	return 0
}

func (f *fakeFactory) SeemsToMatch(b []byte, debug int) bool { return f.match[f.saw(b)] }

func (f *fakeFactory) Operator(b []byte, debug int) (types.Operator, error) {
	if !f.works[f.saw(b)] {
		return nil, fmt.Errorf("does not open")
	}
	return &fakeOp{f.name, f.order, b}, nil
}

func two(name string) [2]bool { return [2]bool{vrt.Bool(name), vrt.Bool(name)} }

// ordersFor gives the file orders that may be tried, nil for an error.
func ordersFor(order types.DiskOrder, ext string) []int {
	switch order {
	case types.DiskOrderDO:
		return []int{0}
	case types.DiskOrderPO:
		return []int{1}
	case types.DiskOrderAuto:
		switch ext {
		case ".po":
			return []int{1}
		case ".do":
			return []int{0}
		case ".dsk", "":
			return []int{0, 1}
		}
	}
	return nil
}

// expect checks the outcome of opening a floppy image.
func expect(fs []*fakeFactory, order types.DiskOrder, system string, ext string, op types.Operator, got types.DiskOrder, err error) {
	ords := ordersFor(order, ext)
	var cand []*fakeFactory
	for _, f := range fs {
		if system == "auto" || system == f.name {
			cand = append(cand, f)
		}
	}
	if ords == nil || len(cand) == 0 {
		vrt.Assert(err != nil, "an unknown order, extension or system is an error")
		vrt.Reach("refused")
		return
	}
	if len(ords) == 1 && system != "auto" {
		o := ords[0]
		if !cand[0].works[o] {
			vrt.Assert(err != nil, "if the system cannot open the image, that is an error")
			return
		}
		vrt.Assert(err == nil, "an explicit order and system are used without guessing")
		if err == nil {
			vrt.Assert(op.Name() == system, "with that system")
			vrt.Assert(got == orders[o], "and that order")
		}
		vrt.Reach("explicit")
		return
	}
	for _, o := range ords {
		for _, f := range cand {
			if f.match[o] && f.works[o] {
				vrt.Assert(err == nil, "a system that recognises the image opens it")
				if err == nil {
					vrt.Assert(op.Name() == f.name, "the first registered system that recognises the image is used")
					vrt.Assert(got == orders[o], "the order reported is the one that matched")
				}
				vrt.Reach("guessed")
				return
			}
		}
	}
	vrt.Assert(err != nil, "an image nothing recognises is an error")
	vrt.Reach("unrecognised")
}

func floppy() []byte {
	img := make([]byte, size)
	for s := 0; s < 16; s++ {
		img[(3*16+s)*256] = byte(s)
	}
	return img
}

// Every combination of order, system, extension and what the systems recognise.
func C03_select() {
	img := floppy()
	ao := vrt.Pick("ao", 3)
	a := &fakeFactory{[]string{"aaa", "prodos", "nakedos"}[ao], orders[ao], two("am"), [2]bool{true, true}, true}
	b := &fakeFactory{"bbb", types.DiskOrderDO, two("bm"), two("bw"), true}
	fs := []*fakeFactory{a, b}
	n := vrt.Pick("name", 9)
	name := []string{"disk.po", "disk.PO", "dir/disk.do", "disk.dSk", "disk", "disk.woz", "disk.po.dsk", "dir.po/disk", "disk.hdv"}[n]
	ext := []string{".po", ".po", ".do", ".dsk", "", ".woz", ".dsk", "", ".hdv"}[n]
	order := []types.DiskOrder{"auto", "do", "po", "raw", "", "DO"}[vrt.Pick("order", 6)]
	system := []string{"auto", a.name, "bbb", "ccc", ""}[vrt.Pick("system", 5)]
	op, got, err := disk.OpenImage(img, name, order, system, []types.OperatorFactory{a, b}, 0)
	expect(fs, order, system, ext, op, got, err)
}

// All three systems by their own names, registered in any order.
func C03_three() {
	img := floppy()
	perm := [][3]int{{2, 0, 1}, {0, 1, 2}, {1, 2, 0}}[vrt.Pick("perm", 3)]
	var fs []*fakeFactory
	var reg []types.OperatorFactory
	for _, k := range perm {
		f := &fakeFactory{sysNames[k], sysOrders[k], two("m"), [2]bool{true, true}, true}
		fs = append(fs, f)
		reg = append(reg, f)
	}
	fs[0].works = two("w")
	n := vrt.Pick("name", 4)
	order := []types.DiskOrder{"auto", "do", "po"}[vrt.Pick("order", 3)]
	system := []string{"auto", "dos3", "prodos", "nakedos"}[vrt.Pick("system", 4)]
	op, got, err := disk.OpenImage(img, []string{"disk.dsk", "disk", "disk.Po", "disk.DO"}[n], order, system, reg, 0)
	expect(fs, order, system, []string{".dsk", "", ".po", ".do"}[n], op, got, err)
}

// Every extension of up to three characters, with automatic order.
func C03_extension() {
	img := floppy()
	n := vrt.Pick("n", 4)
	e := vrt.Bytes("ext", n)
	low := make([]byte, n)
	for i := range e {
		vrt.Assume(vrt.All(e[i] != '/', e[i] != '.', e[i] < 128))
		low[i] = e[i]
		if e[i] >= 'A' && e[i] <= 'Z' {
			low[i] = e[i] + 32
		}
	}
	f := &fakeFactory{"aaa", types.DiskOrderRaw, two("am"), [2]bool{true, true}, true}
	system := []string{"auto", "aaa"}[vrt.Pick("system", 2)]
	op, got, err := disk.OpenImage(img, "disk."+string(e), "auto", system, []types.OperatorFactory{f}, 0)
	expect([]*fakeFactory{f}, "auto", system, "."+string(low), op, got, err)
}

// Images of every other size are refused, except whole-block .hdv images.
func C03_sizes() {
	n := vrt.Int("n", 0, 70000*512)
	vrt.Assume(n != size)
	img := vrt.ImageLen("img", 70000*512, n)
	f := &fakeFactory{"prodos", types.DiskOrderPO, two("pm"), two("pw"), false}
	g := &fakeFactory{"dos3", types.DiskOrderDO, [2]bool{true, true}, [2]bool{true, true}, false}
	fs := []types.OperatorFactory{g, f}
	if vrt.Bool("none") {
		fs = []types.OperatorFactory{g}
	}
	name := []string{"x.hdv", "x.HdV", "x.dsk", "x.po", "x", "x.do"}[vrt.Pick("name", 6)]
	order := []types.DiskOrder{"auto", "do", "po", "raw", ""}[vrt.Pick("order", 5)]
	system := []string{"auto", "prodos", "dos3", "nakedos"}[vrt.Pick("system", 4)]
	op, got, err := disk.OpenImage(img, name, order, system, fs, 0)
	hdv := vrt.All(name == "x.hdv" || name == "x.HdV", n != 35*13*256, n%512 == 0, n <= 65536*512,
		order == "auto" || order == "po", system == "auto" || system == "prodos", len(fs) == 2, f.works[1])
	vrt.Assert((err == nil) == hdv, "only whole-block .hdv images up to 32 MiB open, as ProDOS in ProDOS order")
	if err == nil {
		vrt.Assert(op.Name() == "prodos" && got == types.DiskOrderPO, "a .hdv image is ProDOS")
		vrt.Assert(len(op.GetBytes()) == n, "with all its bytes")
		vrt.Reach("hdv")
	} else {
	}
}

// Two disks open at a time keep their own contents.
func C02_two() {
	sys, sys2 := vrt.Pick("sys", 3), vrt.Pick("sys2", 3)
	order, order2 := orders[vrt.Pick("order", 2)], orders[vrt.Pick("order2", 2)]
	a, b := vrt.Bytes("a", size), vrt.Bytes("b", size)
	blankNakedOS(a)
	blankNakedOS(b)
	op, got, err := disk.OpenImage(convert(a, sysOrders[sys], order), "a.dsk", order, sysNames[sys], factories, 0)
	vrt.Assert(err == nil, "a disk opens")
	op2, got2, err := disk.OpenImage(convert(b, sysOrders[sys2], order2), "b.dsk", order2, sysNames[sys2], factories, 0)
	vrt.Assert(err == nil, "and another")
	vrt.Assert(vrt.Eq(op.GetBytes(), a) && vrt.Eq(op2.GetBytes(), b), "each system sees its own disk")
	f, f2 := vrt.Path("a.dsk"), vrt.Path("b.dsk")
	vrt.Assert(disk.WriteBack(f2, op2, got2, false) == nil, "one can be written")
	vrt.Assert(disk.WriteBack(f, op, got, false) == nil, "and the other")
	out, _ := vrt.ReadFile(f)
	out2, _ := vrt.ReadFile(f2)
	vrt.Assert(vrt.Eq(out, convert(a, sysOrders[sys], order)) && vrt.Eq(out2, convert(b, sysOrders[sys2], order2)), "each file has its own disk")
	vrt.Reach("two")
}
