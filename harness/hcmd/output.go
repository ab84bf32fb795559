// Package hcmd checks the commands: what they write to files, and when.
package hcmd

import (
	"github.com/zellyn/diskii/cmd"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/helpers"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

const size = 35 * 16 * 256

// The command line registers the systems in this order.
func globals() *types.Globals {
	return &types.Globals{Debug: level, DiskOperatorFactories: []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}}
}

// toFile[order][s] is the position in an image file of that order of physical
// sector s of a track.
var toFile = map[types.DiskOrder][16]int{
	"do":  {0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15},
	"po":  {0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15},
	"raw": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
}

// convert changes the sector order of an image.
func convert(img []byte, from, to types.DiskOrder) []byte {
	r := make([]byte, len(img))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			a, b := t*4096+toFile[from][s]*256, t*4096+toFile[to][s]*256
			copy(r[b:b+256], img[a:a+256])
		}
	}
	return r
}

// same reports whether the file exists with exactly these contents.
func same(path string, want []byte) bool {
	got, ok := vrt.ReadFile(path)
	return ok && vrt.Eq(got, want)
}

var outSizes = []int{0, 1, 5, 300}

// Writing to a name that is new, taken, not a possible name, or standard output.
func C25_writeOutput() {
	data := vrt.Bytes("data", outSizes[vrt.Pick("n", 4)])
	keep := vrt.Clone(data)
	force := vrt.Bool("force")
	other := vrt.Path("other")
	obytes := vrt.Bytes("other", 3)
	vrt.WriteFile(other, obytes)
	file := vrt.Path("out.dsk")
	switch vrt.Pick("case", 6) {
	case 0: // new
		err := helpers.WriteOutput(file, data, force)
		vrt.Assert(err == nil, "a new file can be written with and without force")
		vrt.Assert(same(file, keep), "a new file holds the bytes given")
		vrt.Assert(vrt.FileCount() == 2, "no other file appears")
		vrt.Reach("new")
	case 1: // taken
		old := vrt.Bytes("old", outSizes[vrt.Pick("m", 4)])
		vrt.WriteFile(file, old)
		err := helpers.WriteOutput(file, data, force)
		vrt.Assert((err == nil) == force, "an existing file is written exactly with force")
		if err == nil {
			vrt.Assert(same(file, keep), "with force the file holds the bytes given")
			vrt.Reach("forced")
		} else {
			vrt.Assert(same(file, old), "without force the file keeps its contents")
			vrt.Reach("refused")
		}
		vrt.Assert(vrt.FileCount() == 2, "no other file appears")
	case 2: // below a file: not even the existence can be looked up
		err := helpers.WriteOutput(vrt.Path("other/out.dsk"), data, force)
		vrt.Assert(err != nil, "a name below a file cannot be written")
		vrt.Assert(vrt.FileCount() == 1, "nothing is written")
		vrt.Reach("undeterminable")
	case 3: // a directory
		err := helpers.WriteOutput(vrt.Path(""), data, force)
		vrt.Assert(err != nil, "a directory cannot be written")
		vrt.Assert(vrt.FileCount() == 1, "nothing is written")
	case 4: // no such directory
		err := helpers.WriteOutput(vrt.Path("none/out.dsk"), data, force)
		vrt.Assert(err != nil, "a name in no directory cannot be written")
		vrt.Assert(vrt.FileCount() == 1, "nothing is written")
	default:
		err := helpers.WriteOutput("-", data, force)
		vrt.Assert(err == nil, "standard output can be written")
		vrt.Assert(vrt.Eq(vrt.Stdout(), keep), "standard output gets the bytes")
		vrt.Assert(vrt.FileCount() == 1, "no file appears")
		vrt.Reach("stdout")
	}
	vrt.Assert(same(other, obytes), "another file is left alone")
	vrt.Assert(vrt.Eq(data, keep), "the bytes given are left alone")
}

// Reading an input from a file or standard input.
func C25_input() {
	data := vrt.Bytes("data", outSizes[vrt.Pick("n", 4)])
	file := vrt.Path("in")
	switch vrt.Pick("case", 3) {
	case 0:
		vrt.WriteFile(file, data)
		got, err := helpers.FileContentsOrStdIn(file)
		vrt.Assert(err == nil && vrt.Eq(got, data), "a file is read whole")
		vrt.Assert(same(file, data), "reading changes nothing")
	case 1:
		vrt.SetStdin(data)
		got, err := helpers.FileContentsOrStdIn("-")
		vrt.Assert(err == nil && vrt.Eq(got, data), "standard input is read whole")
	default:
		vrt.SetStdin(data)
		_, err := helpers.FileContentsOrStdIn([]string{file, "", vrt.Path("-"), vrt.Path("in") + "/-"}[vrt.Pick("missing", 4)])
		vrt.Assert(err != nil, "a missing file is an error")
		vrt.Assert(vrt.FileCount() == 0, "and does not appear")
	}
}

// reorder writes its new image only if that is new or forced, its input only
// if no new image is named.
func C25_reorder() {
	img := vrt.Bytes("img", size)
	in := vrt.Path("in.dsk")
	vrt.WriteFile(in, img)
	out := vrt.Path("out.po")
	force := vrt.Bool("force")
	want := convert(img, "do", "po")
	c := &cmd.ReorderCmd{Order: "do", NewOrder: "po", Overwrite: force, DiskImage: in}
	switch vrt.Pick("case", 5) {
	case 4:
		c.NewDiskImage = in
		err := c.Run(globals())
		vrt.Assert((err == nil) == force, "the input named as the new image is written exactly with force")
		if err == nil {
			vrt.Assert(same(in, want), "with force it is replaced")
		} else {
			vrt.Assert(same(in, img), "without force it keeps its contents")
		}
		vrt.Assert(vrt.FileCount() == 1, "no other file appears")
	case 0:
		c.NewDiskImage = out
		err := c.Run(globals())
		vrt.Assert(err == nil && same(out, want), "a new image is written")
		vrt.Assert(same(in, img), "the input is left alone")
		vrt.Reach("new")
	case 1:
		old := vrt.Bytes("old", 7)
		vrt.WriteFile(out, old)
		c.NewDiskImage = out
		err := c.Run(globals())
		vrt.Assert((err == nil) == force, "an existing new image is written exactly with force")
		if err == nil {
			vrt.Assert(same(out, want), "with force the new image is written")
		} else {
			vrt.Assert(same(out, old), "without force the existing file keeps its contents")
		}
		vrt.Assert(same(in, img), "the input is left alone")
	case 2:
		err := c.Run(globals())
		vrt.Assert(err == nil && same(in, want), "without a new image the input is replaced")
		vrt.Assert(vrt.FileCount() == 1, "no other file appears")
		vrt.Reach("in place")
	default:
		c.NewDiskImage = "-"
		err := c.Run(globals())
		vrt.Assert(err == nil && vrt.Eq(vrt.Stdout(), want), "the new image goes to standard output")
		vrt.Assert(same(in, img), "the input is left alone")
		vrt.Assert(vrt.FileCount() == 1, "no other file appears")
	}
}

// A disk that was opened and is written elsewhere obeys the same rule.
func C25_writeBack() {
	img := vrt.Bytes("img", size)
	in := vrt.Path("in.dsk")
	vrt.WriteFile(in, img)
	op, order, err := disk.OpenFilename(in, "do", "dos3", globals().DiskOperatorFactories, 0)
	vrt.Assert(err == nil, "the image opens")
	out := vrt.Path("out.dsk")
	old := vrt.Bytes("old", 9)
	exists, force := vrt.Pick("exists", 2) == 1, vrt.Bool("force")
	if exists {
		vrt.WriteFile(out, old)
	}
	err = disk.WriteBack(out, op, order, force)
	vrt.Assert((err == nil) == (!exists || force), "an existing image is overwritten exactly with force")
	if err == nil {
		vrt.Assert(same(out, img), "the image is written")
	} else {
		vrt.Assert(same(out, old), "the existing file keeps its contents")
	}
	vrt.Assert(same(in, img), "the input is left alone")
}

// Images that come from standard input go to standard output, or where they
// are sent; no file is touched.
func C25_pipes() {
	h := []how{{"-", "do", "nakedos", "do"}, {"-", "po", "nakedos", "po"}, {"-", "auto", "nakedos", "po"}, {"-", "auto", "auto", "do"}}[vrt.Pick("how", 4)]
	raw := nakedos(true)
	file := convert(raw, "raw", h.stored)
	vrt.SetStdin(file)
	other := vrt.Path("source")
	data := vrt.Bytes("data", 300)
	vrt.WriteFile(other, data)
	var err error
	what := vrt.Pick("cmd", 7)
	switch what {
	case 0: // a put is what it is in memory
		err = (&cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: "B", DiskImage: "-", TargetFilename: "DF21", SourceFilename: other}).Run(globals())
		op, order, err2 := disk.OpenImage(vrt.Clone(file), "d", h.order, h.system, globals().DiskOperatorFactories, 0)
		vrt.Assert(err2 == nil && order == h.stored, "the image opens")
		_, err2 = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF21", Length: 300, Type: types.FiletypeBinary}, Data: data}, false)
		vrt.Assert(err == nil && err2 == nil, "a file can be put")
		file = convert(op.GetBytes(), "raw", h.stored)
	case 1:
		err = (&cmd.PutCmd{Order: h.order, System: h.system, FiletypeName: "B", DiskImage: "-", TargetFilename: "DF21", SourceFilename: "-"}).Run(globals())
		vrt.Assert(err != nil, "standard input cannot be both the image and the file")
		file = nil
	case 2:
		err = (&cmd.DeleteCmd{Order: h.order, System: h.system, DiskImage: "-", Filename: "FDEMO"}).Run(globals())
		op, _, err2 := disk.OpenImage(vrt.Clone(file), "d", h.order, h.system, globals().DiskOperatorFactories, 0)
		vrt.Assert(err2 == nil, "the image opens")
		_, err2 = op.Delete("FDEMO")
		vrt.Assert(err == nil && err2 == nil, "a file can be deleted")
		file = convert(op.GetBytes(), "raw", h.stored)
	case 3:
		err = (&cmd.DeleteCmd{Order: h.order, System: h.system, DiskImage: "-", Filename: "DF22"}).Run(globals())
		vrt.Assert(err != nil, "a missing file is an error")
		file = nil
	case 4:
		err = (&cmd.ReorderCmd{Order: h.stored, NewOrder: "auto", DiskImage: "-"}).Run(globals())
		vrt.Assert(err == nil, "the image is reordered")
		file = convert(file, h.stored, opposite(h.stored))
	case 5:
		err = (&cmd.ReorderCmd{Order: h.stored, NewOrder: opposite(h.stored), DiskImage: "-", NewDiskImage: other, Overwrite: true}).Run(globals())
		vrt.Assert(err == nil, "the image is reordered")
		vrt.Assert(same(other, convert(file, h.stored, opposite(h.stored))), "the new image has it")
		vrt.Assert(len(vrt.Stdout()) == 0 && vrt.FileCount() == 1, "and nothing else does")
		vrt.Reach("new image")
		return
	default:
		err = (&cmd.ReorderCmd{Order: h.stored, NewOrder: opposite(h.stored), DiskImage: "-", NewDiskImage: other}).Run(globals())
		vrt.Assert(err != nil, "an existing file is not overwritten unasked")
		file = nil
	}
	vrt.Assert(vrt.Eq(vrt.Stdout(), file), "standard output gets the image, or nothing")
	vrt.Assert(same(other, data) && vrt.FileCount() == 1, "no file changes or appears")
	vrt.Reach("pipe")
}
