package hbasic

import (
	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// escaped is the specification of one byte's escape.
func escaped(c byte) string {
	switch {
	case c >= 0x20 || c == '\n' || c == '\t':
		return string([]byte{c})
	case c == 0:
		return "«NUL»"
	case c <= 26:
		return "«ctrl-" + string([]byte{'A' - 1 + c}) + "»"
	case c == 0x1c:
		return "«FS»"
	case c == 0x1d:
		return "«GS»"
	case c == 0x1e:
		return "«RS»"
	case c == 0x1f:
		return "«US»"
	}
	return "«?»"
}

// Any string of up to 2 bytes.
func C24_any() { escape(vrt.Bytes("s", vrt.Pick("n", 3))) }

// Up to 4 bytes.
func C24T_any() { escape(vrt.Bytes("s", vrt.Pick("n", 5))) }

func escape(s []byte) {
	var want []byte
	for _, c := range s {
		want = append(want, escaped(c)...)
	}
	f := basic.ChevronControlCodes
	if vrt.Pick("which", 2) == 1 {
		f = integer.ChevronControlCodes
	}
	got := f(string(s))
	vrt.Assert(vrt.Eq([]byte(got), want), "control codes are escaped and nothing else is altered")
	vrt.Reach("escaped")
}

// Each control code anywhere in a longer text.
func C24_late() {
	n := []int{40, 72, 133, 256, 1000}[vrt.Pick("length", 5)]
	const some = "10 PRINT \"\x04CATALOG\" : HOME\n\t\x7f"
	s := make([]byte, n)
	for i := range s {
		s[i] = some[i%len(some)]
	}
	at := []int{n / 2, n - 1}[vrt.Pick("at", 2)]
	s[at] = byte(vrt.Pick("char", 33))
	escape(s)
}
