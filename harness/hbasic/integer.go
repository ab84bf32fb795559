package hbasic

import (
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// intReference decodes by the rules.
func intReference(raw []byte) (lines []line, ok bool) {
	if len(raw) >= 2 {
		n := int(raw[0]) + 256*int(raw[1])
		if n == len(raw)-2 || n == len(raw)-3 {
			raw = raw[2:]
		}
	}
	for len(raw) > 3 {
		n := int(raw[0])
		if n < 4 || n > len(raw) {
			return nil, false
		}
		n = vrt.Conc(n)
		if raw[n-1] != 1 {
			return nil, false
		}
		lines = append(lines, line{int(raw[1]) + 256*int(raw[2]), raw[3 : n-1]})
		raw = raw[n:]
	}
	return lines, true
}

// Any 13 bytes.
func C23_any() { intAny(vrt.Pick("n", 14)) }

// Any 14 to 24 bytes.
func C23T_any() { intAny(14 + vrt.Pick("n", 11)) }

func intAny(n int) {
	raw := vrt.Bytes("raw", n)
	keep := vrt.Clone(raw)
	want, ok := intReference(raw)
	got, err := integer.Decode(raw)
	vrt.Assert((err == nil) == ok, "a broken program is an error and only that")
	vrt.Assert(vrt.Eq(raw, keep), "decoding changes nothing")
	if err != nil {
		vrt.Reach("refused")
		return
	}
	vrt.Assert(len(got) == len(want), "every line is returned, once")
	for i, l := range got {
		vrt.Assert(l.Num == want[i].num, "a line has its number")
		vrt.Assert(vrt.Eq(l.Bytes, want[i].text), "a line has its bytes")
	}
	vrt.Reach("decoded")
}

// Well-formed programs with lines of up to 252 bytes.
func C23_size() {
	lens := [][]int{{251}, {0}, {1, 251, 3}, {4, 4, 4, 4, 0, 9}, {200, 200, 200}}[vrt.Pick("shape", 5)]
	var raw []byte
	var want []line
	for _, n := range lens {
		num := vrt.U16("num")
		t := vrt.Bytes("text", n)
		raw = append(raw, byte(n+4), byte(num), byte(num>>8))
		raw = append(raw, t...)
		raw = append(raw, 1)
		want = append(want, line{int(num), t})
	}
	n := len(raw)
	first := int(raw[0]) + 256*int(raw[1])
	switch vrt.Pick("form", 3) {
	case 0:
		vrt.Assume(first != n-2)
		vrt.Assume(first != n-3)
	case 1:
		raw = append([]byte{byte(n), byte(n >> 8)}, raw...)
	case 2:
		raw = append(append([]byte{byte(n), byte(n >> 8)}, raw...), vrt.Byte("extra"))
	}
	got, err := integer.Decode(raw)
	vrt.Assert(err == nil, "a well-formed program decodes")
	vrt.Assert(len(got) == len(want), "every line is returned, once")
	for i, l := range got {
		vrt.Assert(l.Num == want[i].num, "a line has its number")
		vrt.Assert(vrt.Eq(l.Bytes, want[i].text), "a line has its bytes")
	}
	vrt.Reach("decoded")
}

func alnum(c byte) bool {
	return vrt.Any(vrt.All(c >= '0', c <= '9'), vrt.All(c >= 'a', c <= 'z'), vrt.All(c >= 'A', c <= 'Z'))
}

// intListed prints a line by the rules.
func intListed(num int, t []byte) []byte {
	d := decimal(num)
	var b []byte
	for i := len(d); i < 5; i++ {
		b = append(b, ' ')
	}
	b = append(append(b, d...), ' ')
	word := false // the last character was a letter or digit
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c < 0x80 {
			tok := integerTokens[vrt.Conc(int(c))]
			b = append(b, tok...)
			if len(tok) > 1 {
				b = append(b, ' ')
			}
			word = false
			if tok == "REM" {
				for _, r := range t[i+1:] {
					vrt.Assume(r >= 0x80)
					b = append(b, r-0x80)
				}
				return b
			}
			continue
		}
		c -= 0x80
		if !word && c >= '0' && c <= '9' {
			if i+2 < len(t) {
				b = append(b, decimal(int(t[i+1])+256*int(t[i+2]))...)
				i += 2
			} else {
				b = append(b, '?')
			}
		} else {
			b = append(b, c)
		}
		word = alnum(c)
	}
	return b
}

// Printing any line number, any byte and after it a character.
func C23_print() {
	t := vrt.Bytes("text", 2)
	vrt.Assume(t[1] >= 0x80)
	intPrint(int(vrt.U16("num")), t[:vrt.Pick("n", 3)])
}

// Printing any number in any place: after a letter, after a token, at the end
// or cut off, and REM with any text.
func C23_constants() {
	var t []byte
	switch vrt.Pick("before", 4) {
	case 1:
		t = append(t, vrt.Byte("before"))
		vrt.Assume(t[0] >= 0x80)
	case 2:
		t = append(t, []byte{0x61, 0x0a, 0x28}[vrt.Pick("token", 3)])
	case 3:
		t = append(t, 0x5d)
	}
	b := vrt.Byte("digit")
	vrt.Assume(b >= 0x80)
	t = append(t, b)
	k := vrt.Pick("more", 4)
	for i := 0; i < k; i++ {
		c := vrt.Byte("more")
		if i == 2 {
			vrt.Assume(c >= 0x80)
		}
		t = append(t, c)
	}
	digit := b >= 0xb0 && b <= 0xb9
	vrt.Assume(digit || len(t) > 0 && t[0] == 0x5d)
	if len(t) > 1 && t[0] >= 0x80 && alnum(t[0]-0x80) {
		// a digit within a name: what follows must be characters
		vrt.Assume(t[0] < 0xb0 || t[0] > 0xb9)
		for _, c := range t {
			vrt.Assume(c >= 0x80)
		}
	}
	if digit && k == 1 {
		vrt.Assume(t[len(t)-1] >= 0x80)
	}
	intPrint(10, t)
}

func intPrint(num int, t []byte) {
	l := integer.Line{Num: num, Bytes: t}
	want := intListed(num, t)
	vrt.Assert(vrt.Eq([]byte(l.String()), want), "a line prints as its number, keywords, constants and characters")
	two := integer.Listing{l, {Num: 32767, Bytes: []byte{0x51}}}
	want = append(want, "\n32767 END \n"...)
	vrt.Assert(vrt.Eq([]byte(two.String()), want), "a listing prints one line each")
	vrt.Reach("printed")
}

// REM after other statements, with any text.
func C23_rem() {
	t := [][]byte{{0x62, 0xc1, 0x03}, {0x5b, 0x03}, {0x61, 0x28, 0xc1, 0x29, 0x03, 0x51, 0x03}, {0x64, 0xb9, 0x39, 0x30, 0x65, 0xb0, 0, 0, 0x03}}[vrt.Pick("before", 4)]
	t = append(append([]byte{}, t...), 0x5d)
	for i := vrt.Pick("n", 4); i > 0; i-- {
		t = append(t, vrt.Byte("text"))
	}
	intPrint(10, t)
}

// Any token between a letter or digit and a number.
func C23_between() {
	t := []byte{0xc1, vrt.Byte("token"), 0xb5, 0x39, 0x30}
	if vrt.Pick("name", 2) == 1 {
		t = append([]byte{0xda}, t...)
		t[1] = 0xb1
	}
	vrt.Assume(vrt.All(t[len(t)-4] < 0x80, t[len(t)-4] != 0x5d))
	intPrint(10, t)
}

// The ends of long lines.
func C23_late() {
	n := []int{14, 42, 63, 105, 161, 203, 238}[vrt.Pick("length", 7)]
	unit := []byte{0x62, 0xc1, 0x12, 0xb5, 5, 1, 0x03} // PRINT A+261:
	var t []byte
	for len(t) < n {
		t = append(t, unit...)
	}
	switch vrt.Pick("end", 6) {
	case 0:
		t = append(t, 0xb9, vrt.Byte("low"), 0x30)
	case 1:
		t = append(t, 0xb9, 0x39, vrt.Byte("high"))
	case 2: // cut off
		t = append(t, 0xb9, vrt.Byte("low")|0x80)
	case 3:
		t = append(t, 0xda, 0xb1, vrt.Byte("name")|0x80)
	case 4:
		t = append(t, 0x5d, vrt.Byte("text")|0x80, 0xb1, vrt.Byte("text")|0x80)
	default:
		t = append(t, vrt.Byte("char")|0x80)
	}
	intPrint(10, t)
}
