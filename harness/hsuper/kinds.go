package hsuper

import (
	"github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// kind is 1 for a full disk, 2 for an existing file, 3 for a missing file, 0
// for another error or none.
func kind(err error, want int, msg string) {
	vrt.Assert(errors.IsOutOfSpace(err) == (want == 1), msg+" (out of space)")
	vrt.Assert(errors.IsFileExists(err) == (want == 2), msg+" (file exists)")
	vrt.Assert(errors.IsFileNotFound(err) == (want == 3), msg+" (file not found)")
}

// The kinds themselves.
func C33_kinds() {
	t := vrt.Str("t", vrt.Pick("len", 3))
	for _, c := range t {
		vrt.Assume(c != '%')
	}
	e := []error{errors.New(t), errors.OutOfSpacef("%s", t), errors.FileExistsf("%s", t), errors.FileNotFoundf("%s", t)}
	k := vrt.Pick("kind", 5)
	if k == 4 {
		kind(nil, 0, "no error is of no kind")
		return
	}
	vrt.Assert(e[k] != nil, "each is an error")
	kind(e[k], k, "each kind is recognised, and only it")
	vrt.Assert(e[k].Error() == t, "with its text")
	vrt.Reach("kinds")
}

// Their messages are formatted.
func C33_messages() {
	k := 1 + vrt.Pick("kind", 3)
	f := []func(string, ...interface{}) error{nil, errors.OutOfSpacef, errors.FileExistsf, errors.FileNotFoundf}[k]
	n := vrt.Pick("n", 8)
	e := []error{f(""), f("100%%"), f("%%d"), f("a%%b%s", "c"), f("%d%%", 50), f("%q and %02x", "x", 10), f("%s%s%s", "1", "2", "3"), f("%v", nil)}[n]
	want := []string{"", "100%", "%d", "a%bc", "50%", "\"x\" and 0a", "123", "<nil>"}[n]
	kind(e, k, "each kind is recognised, and only it")
	vrt.Assert(e.Error() == want, "the message is the one given")
	vrt.Reach("messages")
}

// A put that finds no room, or the file already there.
func C33_put() {
	file := byte(0x20)
	s := newScene(3, 0, file)
	op, err := supermon.OperatorFactory{}.Operator(s.img, 0)
	vrt.Assert(err == nil, "the disk opens")
	need := 1 + vrt.Pick("need", 4)
	data := vrt.Bytes("data", need*256-3)
	over := vrt.Pick("over", 2) == 1
	_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF20", Length: len(data), Type: types.FiletypeBinary}, Data: data}, over)
	full, there := need > s.free+s.own, s.own > 0 && !over
	switch {
	case full && there:
		vrt.Assert(err != nil && (errors.IsOutOfSpace(err) || errors.IsFileExists(err)), "either reason will do")
		vrt.Assert(!errors.IsFileNotFound(err), "but no other")
	case full:
		vrt.Assert(err != nil, "a file that does not fit is refused")
		kind(err, 1, "for lack of space")
		vrt.Reach("full")
	case there:
		vrt.Assert(err != nil, "an existing file is not overwritten")
		kind(err, 2, "because it exists")
		vrt.Reach("exists")
	default:
		vrt.Assert(err == nil, "anything else is stored")
	}
}

// Names that are no file.
func C33_names() {
	img := blank(9)
	symbols(img, 64, 96, table)
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	i := vrt.Pick("name", 8)
	name := []string{"NOFILE", "PLAIN12", "DFFE", "nine9", "FBACK", "DF09", "DF0A", "0a"}[i]
	if i >= 6 {
		// a number without sectors
		_, err = op.GetFile(name)
		vrt.Assert(err != nil, "a file without sectors cannot be read")
		vrt.Assert(!errors.IsOutOfSpace(err) && !errors.IsFileExists(err), "for neither of these reasons")
		return
	}
	f, err := op.(supermon.Operator).ST.FileForName(name)
	if i < 3 {
		vrt.Assert(err != nil, "a name that is no file is an error")
		kind(err, 3, "because it is not found")
		_, err = op.GetFile(name)
		vrt.Assert(err != nil, "it cannot be read")
		kind(err, 3, "because it is not found")
		_, err = op.Delete(name)
		vrt.Assert(err != nil, "or deleted")
		kind(err, 3, "because it is not found")
		vrt.Reach("missing")
		return
	}
	vrt.Assert(err == nil && f == []byte{9, 5, 9}[i-3], "the others are found")
}

// Puts refused for other reasons.
func C33_other() {
	img := blank(5)
	symbols(img, 64, 96, table)
	mapOf(img)[40] = 0xff
	op, err := supermon.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the disk opens")
	fi := fileInfo([]string{"DF00:ABC", "XYZ:ABC", ":ABC", "a:b:c", "DF07:DF08", "XY", "A-BC", "TENLETTERS", "DF07"}[vrt.Pick("name", 9)], vrt.Bytes("data", 9))
	if fi.Descriptor.Name == "DF07" {
		switch vrt.Pick("how", 3) {
		case 0:
			fi.Descriptor.Type = types.FiletypeASCIIText
		case 1:
			fi.Descriptor.Length++
		case 2:
			fi = fileInfo("DF07", nil)
		}
	}
	_, err = op.PutFile(fi, true)
	vrt.Assert(err != nil, "the put is refused")
	kind(err, 0, "for another reason")
	vrt.Reach("refused")
}
