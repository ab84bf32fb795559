package hcmd

import (
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

var flags = []types.DiskOrder{"auto", "do", "po"}

var names = []string{"a.dsk", "a.do", "a.po", "a.DSK", "a.Do", "a.pO", "a", "a.hdv", "a.po.bak", "po", ".po", "a.dskk", "a.po/b", "a.do/b.po"}
var named = []types.DiskOrder{"do", "do", "po", "do", "do", "po", "", "", "", "", "po", "", "", "po"}

func opposite(o types.DiskOrder) types.DiskOrder {
	if o == "do" {
		return "po"
	}
	return "do"
}

// plan is the specified choice of orders, from the flags and from what the
// names say.
func plan(in, out, inName, outName types.DiskOrder) (types.DiskOrder, types.DiskOrder, bool) {
	if in == "auto" && out == "auto" {
		in, out = inName, outName
		if in == "" && out == "" {
			return "", "", false
		}
		if in == "" {
			in = opposite(out)
		}
		if out == "" {
			out = opposite(in)
		}
		return in, out, in != out
	}
	if in == "auto" {
		in = opposite(out)
	}
	if out == "auto" {
		out = opposite(in)
	}
	return in, out, in != out
}

// reorder reads from standard input or a file, so that any name can be given.
func reorderCase(in, out types.DiskOrder, i, o int) {
	img := vrt.Bytes("img", size)
	src := vrt.Path(names[i])
	vrt.WriteFile(src, img)
	c := &cmd.ReorderCmd{Order: in, NewOrder: out, DiskImage: src}
	dst := ""
	outName := types.DiskOrder("")
	if o == same1 {
		dst, outName = src, named[i]
		c.Overwrite = true
	} else if o >= 0 {
		dst = vrt.Path("new" + names[o])
		outName = named[o]
	}
	c.NewDiskImage = dst
	from, to, ok := plan(in, out, named[i], outName)
	err := c.Run(globals())
	vrt.Assert((err == nil) == ok, "the conversion is done exactly when the two orders are decided and differ")
	if !ok {
		vrt.Assert(same(src, img) && vrt.FileCount() == 1, "a refused conversion writes nothing")
		vrt.Reach("refused")
		return
	}
	where := dst
	if dst == "" {
		where = src
	} else if dst != src {
		vrt.Assert(same(src, img), "the input is left alone")
	}
	vrt.Assert(same(where, convert(img, from, to)), "the image written is the input converted between exactly those orders")
	vrt.Reach("converted")
}

// Names without a directory part that is itself new.
const plain = 12

// The new image is the input itself.
const same1 = -2

// Every combination of flags, with names that say something or nothing.
func C29_flags() {
	in, out := flags[vrt.Pick("in", 3)], flags[vrt.Pick("out", 3)]
	i := []int{0, 2, 6}[vrt.Pick("i", 3)]
	o := []int{0, 2, 6, -1, same1}[vrt.Pick("o", 5)]
	reorderCase(in, out, i, o)
}

// Without flags, every pair of names.
func C29_names() {
	reorderCase("auto", "auto", vrt.Pick("i", plain), vrt.Pick("o", plain+2)-2)
}

// What a name says, for every extension of up to five characters in any
// letter case.
func C29_extension() {
	n := vrt.Pick("n", 6)
	ext := vrt.Str("ext", n)
	for i := 0; i < n; i++ {
		vrt.Assume(ext[i] < 0x80)
		vrt.Assume(ext[i] != '/')
		vrt.Assume(ext[i] != '.')
	}
	base := []string{"x.", "dir.po/x.", "x.dsk.", "."}[vrt.Pick("base", 4)]
	def := []types.DiskOrder{"", "do", "po"}[vrt.Pick("def", 3)]
	is := func(w string) bool {
		if len(w) != n {
			return false
		}
		ok := true
		for i := 0; i < n; i++ {
			ok = vrt.All(ok, vrt.Any(ext[i] == w[i], ext[i]|0x20 == w[i]))
		}
		return ok
	}
	got := disk.OrderFromFilename(base+ext, def)
	vrt.Assert(vrt.Imp(vrt.Any(is("dsk"), is("do")), got == "do"), ".dsk and .do are DOS order")
	vrt.Assert(vrt.Imp(is("po"), got == "po"), ".po is ProDOS order")
	vrt.Assert(vrt.Any(is("dsk"), is("do"), is("po"), got == def), "anything else is the default")
}

// Images that are not floppies cannot be reordered.
func C29_size() {
	n := []int{0, 1, 256, 4096, size - 256, size - 1, size + 1, size + 4096, 35 * 13 * 256}[vrt.Pick("n", 9)]
	img := vrt.Bytes("img", n)
	src := vrt.Path("in.dsk")
	vrt.WriteFile(src, img)
	c := &cmd.ReorderCmd{Order: flags[vrt.Pick("in", 3)], NewOrder: flags[vrt.Pick("out", 3)], DiskImage: src, Overwrite: true}
	if vrt.Pick("new", 2) == 1 {
		c.NewDiskImage = vrt.Path("out.po")
	}
	err := c.Run(globals())
	vrt.Assert(err != nil, "an image that is not a floppy image cannot be reordered")
	vrt.Assert(same(src, img) && vrt.FileCount() == 1, "and nothing is written")
	vrt.Reach("refused")
}
