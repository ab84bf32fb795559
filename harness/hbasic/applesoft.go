// Package hbasic checks the BASIC listers.
package hbasic

import (
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/zzverif/vrt"
)

type line struct {
	num  int
	text []byte
}

// program is a well-formed tokenised program of arbitrary lines at loc.
func program(loc int, lens []int) (raw []byte, lines []line) {
	at := loc
	for _, n := range lens {
		at += 5 + n
		num := vrt.U16("num")
		text := vrt.Bytes("text", n)
		for _, c := range text {
			vrt.Assume(c != 0)
			vrt.Assume(c < 0xeb)
		}
		raw = append(raw, byte(at), byte(at>>8), byte(num), byte(num>>8))
		raw = append(raw, text...)
		raw = append(raw, 0)
		lines = append(lines, line{int(num), text})
	}
	return append(raw, 0, 0), lines
}

// wrap puts the program into one of the forms it is found in: bare, with its
// length before it, or with its length and one byte more or less after it.
func wrap(raw []byte) []byte {
	n := len(raw)
	first := int(raw[0]) + 256*int(raw[1])
	switch vrt.Pick("form", 4) {
	case 0:
		vrt.Assume(first != n-2)
		vrt.Assume(first != n-3)
		return raw
	case 1:
		return append([]byte{byte(n), byte(n >> 8)}, raw...)
	case 2: // one byte more than the length says
		return append(append([]byte{byte(n), byte(n >> 8)}, raw...), vrt.Byte("extra"))
	default: // bare, with rubbish after it
		vrt.Assume(first != n-2+3)
		vrt.Assume(first != n-3+3)
		return append(raw, vrt.Byte("extra"), vrt.Byte("extra"), vrt.Byte("extra"))
	}
}

func sameLines(got applesoft.Listing, want []line) {
	vrt.Assert(len(got) == len(want), "every line is returned, once")
	for i, l := range got {
		vrt.Assert(l.Num == want[i].num, "a line has its number")
		vrt.Assert(vrt.Eq(l.Bytes, want[i].text), "a line has its bytes")
	}
}

// Programs of up to 2 lines of up to 3 bytes, at usual and extreme addresses.
func C21_decode() { decode(3, 4, false) }

// Programs of up to 2 lines of one byte, anywhere in memory.
func C21_anywhere() { decode(3, 2, true) }

// Up to 3 lines of up to 3 bytes.
func C21T_decode() { decode(4, 4, false) }

// Up to 2 lines of up to 2 bytes, anywhere in memory.
func C21T_anywhere() { decode(3, 3, true) }

func decode(nl, nt int, anywhere bool) {
	var lens []int
	size := 2
	for i := vrt.Pick("lines", nl); i > 0; i-- {
		n := vrt.Pick("len", nt)
		lens = append(lens, n)
		size += 5 + n
	}
	var loc int
	if anywhere {
		loc = vrt.Int("loc", 1, 0xffff)
		vrt.Assume(loc+size <= 0x10000)
	} else {
		loc = []int{0x801, 0x3001, 1, 0x10000 - size}[vrt.Pick("loc", 4)]
	}
	raw, lines := program(loc, lens)
	raw = wrap(raw)
	keep := vrt.Clone(raw)
	got, err := applesoft.Decode(raw, uint16(loc))
	vrt.Assert(err == nil, "a well-formed program decodes")
	vrt.Assert(vrt.Eq(raw, keep), "decoding changes nothing")
	sameLines(got, lines)
	vrt.Reach("decoded")
}

// A line of up to 250 bytes, and 30 short ones.
func C21_size() {
	var lens []int
	switch vrt.Pick("shape", 3) {
	case 0:
		lens = []int{250}
	case 1:
		lens = []int{1, 239, 0}
	case 2:
		for i := 0; i < 30; i++ {
			lens = append(lens, i%3)
		}
	}
	loc := []int{0x801, 0x3001}[vrt.Pick("loc", 2)]
	raw, lines := program(loc, lens)
	odd := vrt.Pick("odd", 2)
	for i := range raw {
		for _, l := range lines {
			if i < len(l.text) {
				vrt.Assume(l.text[i] >= 0x80 == (i%2 == odd)) // text and tokens in turn
			}
		}
	}
	got, err := applesoft.Decode(wrap(raw), uint16(loc))
	vrt.Assert(err == nil, "a well-formed program decodes")
	sameLines(got, lines)
	vrt.Reach("decoded")
}

func decimal(n int) []byte {
	var b []byte
	for d := 10000; d > 1; d /= 10 {
		if n >= d {
			b = append(b, byte('0'+n/d%10))
		}
	}
	return append(b, byte('0'+n%10))
}

func listed(num int, text []byte) []byte {
	b := append(decimal(num), ' ')
	for _, c := range text {
		if c < 0x80 {
			b = append(b, c)
			continue
		}
		b = append(b, ' ')
		b = append(b, applesoftTokens[vrt.Conc(int(c))-0x80]...)
		b = append(b, ' ')
	}
	return b
}

// Printing: any line number, any byte followed by a character and a token.
func C21_print() {
	num := int(vrt.U16("num"))
	t := vrt.Bytes("text", 3)
	vrt.Assume(t[0] != 0)
	vrt.Assume(t[0] < 0xeb)
	vrt.Assume(t[1] < 0x80)
	vrt.Assume(t[1] != 0)
	t[2] = byte(0x80 + vrt.Pick("last", 2)*0x6a)
	n := 1 + vrt.Pick("n", 3)
	l := applesoft.Line{Num: num, Bytes: t[:n]}
	want := listed(num, t[:n])
	vrt.Assert(vrt.Eq([]byte(l.String()), want), "a line prints as its number and its spelled-out bytes")
	two := applesoft.Listing{l, {Num: 63999, Bytes: []byte{0xb0, '1'}}}
	want = append(want, "\n63999  GOSUB 1\n"...)
	vrt.Assert(vrt.Eq([]byte(two.String()), want), "a listing prints one line each")
	vrt.Assert((applesoft.Listing{}).String() == "", "an empty listing prints as nothing")
	vrt.Reach("printed")
}

// reference decodes by the rules, following at most max lines.
func reference(raw []byte, loc, max int) (lines []line, ok bool) {
	if len(raw) >= 2 {
		n := int(raw[0]) + 256*int(raw[1])
		if n == len(raw)-2 || n == len(raw)-3 {
			raw = raw[2:]
		}
	}
	var seen []int
	for o := 0; ; {
		if o < 0 || o+2 > len(raw) {
			return nil, false
		}
		for _, s := range seen {
			if s == o {
				vrt.Reach("loop")
				return nil, false
			}
		}
		seen = append(seen, o)
		vrt.Assume(len(lines) <= max)
		o = vrt.Conc(o)
		next := int(raw[o]) + 256*int(raw[o+1])
		if next == 0 {
			return lines, true
		}
		if o+4 > len(raw) {
			return nil, false
		}
		l := line{num: int(raw[o+2]) + 256*int(raw[o+3])}
		for o += 4; ; o++ {
			if o >= len(raw) {
				return nil, false
			}
			if raw[o] == 0 {
				break
			}
			if raw[o] >= 0xeb {
				return nil, false
			}
			l.text = append(l.text, raw[o])
		}
		lines = append(lines, l)
		o = next - loc
	}
}

// Any 4 bytes, at any load address.
func C22_anywhere() {
	loc := vrt.U16("loc")
	vrt.Assume(loc != 0)
	anyBytes(vrt.Bytes("raw", vrt.Pick("n", 5)), loc, 4)
}

// Any 7 bytes, at some load addresses.
func C22_any() {
	anyBytes(vrt.Bytes("raw", vrt.Pick("n", 8)), someLoc(), 4)
}

// Any 9 bytes.
func C22T_any() {
	anyBytes(vrt.Bytes("raw", 8+vrt.Pick("n", 2)), someLoc(), 5)
}

func someLoc() uint16 {
	return []uint16{0x801, 1, 0xfffe}[vrt.Pick("loc", 3)]
}

// Two lines and what follows, with arbitrary next-line addresses.
func C22_pointers() { pointers(2, 0x801, false) }

// Two lines with arbitrary line numbers too, at some addresses.
func C22T_numbers() { pointers(2, someLoc(), true) }

// Three lines.
func C22T_pointers() { pointers(3, 0x801, false) }

func pointers(n int, loc uint16, numbers bool) {
	var raw []byte
	for i := 0; i <= n; i++ {
		next, num := vrt.U16("next"), uint16(10*i+10)
		if numbers {
			num = vrt.U16("num")
		}
		raw = append(raw, byte(next), byte(next>>8))
		if i < n {
			raw = append(raw, byte(num), byte(num>>8), 'A', 0xba, 0)
		}
	}
	anyBytes(raw, loc, n+2)
}

// A line of up to 4 arbitrary bytes that may lack its end.
func C22_line() { oneLine(vrt.Pick("n", 5)) }

// Up to 7 bytes.
func C22T_line() { oneLine(5 + vrt.Pick("n", 3)) }

func oneLine(n int) {
	raw := append([]byte{byte(6 + n), 8, 10, 0}, vrt.Bytes("text", n)...)
	switch vrt.Pick("ended", 3) {
	case 1:
		raw = append(raw, 0)
	case 2:
		raw = append(raw, 0, 0, 0)
	}
	anyBytes(raw, 0x801, 3)
}

func anyBytes(raw []byte, loc uint16, max int) {
	keep := vrt.Clone(raw)
	want, ok := reference(raw, int(loc), max)
	got, err := applesoft.Decode(raw, loc)
	vrt.Assert(vrt.Eq(raw, keep), "decoding changes nothing")
	vrt.Assert((err == nil) == ok, "a broken program is an error and only that")
	if err != nil {
		vrt.Reach("refused")
		return
	}
	sameLines(got, want)
	vrt.Reach("decoded")
}

// Programs that fill most of the memory.
func C21_huge() {
	loc := 0x801
	n := []int{30, 33, 40, 66}[vrt.Pick("lines", 4)]
	var raw []byte
	var lines []line
	at := loc
	for i := 0; i < n; i++ {
		text := make([]byte, 880+i)
		for j := range text {
			text[j] = byte(0x20 + (i+j)%0xcb)
		}
		if i == n-1 {
			text[7] = vrt.Byte("c")
			vrt.Assume(vrt.All(text[7] != 0, text[7] < 0xeb))
		}
		num := vrt.U16("num")
		at += 5 + len(text)
		raw = append(raw, byte(at), byte(at>>8), byte(num), byte(num>>8))
		raw = append(append(raw, text...), 0)
		lines = append(lines, line{int(num), text})
	}
	got, err := applesoft.Decode(wrap(append(raw, 0, 0)), uint16(loc))
	vrt.Assert(err == nil, "a well-formed program decodes")
	sameLines(got, lines)
	vrt.Reach("decoded")
}

// Programs of many lines.
func C21_many() {
	n := []int{100, 255, 256, 257, 1500, 6000}[vrt.Pick("n", 6)]
	c := vrt.Byte("text")
	vrt.Assume(c != 0)
	vrt.Assume(c < 0xeb)
	at := 0x801
	var raw []byte
	var lines []line
	for i := 0; i < n; i++ {
		text := []byte{c}
		if i == n-1 {
			text = []byte{'A', c, 0xba}
		}
		at += 5 + len(text)
		raw = append(append(append(raw, byte(at), byte(at>>8), byte(i*7), byte(i*7>>8)), text...), 0)
		lines = append(lines, line{i * 7 & 0xffff, text})
	}
	raw = append(raw, 0, 0)
	got, err := applesoft.Decode(raw, 0x801)
	vrt.Assert(err == nil, "a long program decodes")
	sameLines(got, lines)
	vrt.Reach("many")
}

// One program after another.
func C21_again() {
	a, la := program(0x801, []int{2, 1})
	b, lb := program(0x3001, []int{1, 3})
	ga, err := applesoft.Decode(a, 0x801)
	vrt.Assert(err == nil, "a program decodes")
	gb, err := applesoft.Decode(b, 0x3001)
	vrt.Assert(err == nil, "and another")
	sameLines(gb, lb)
	sameLines(ga, la)
	_, err = applesoft.Decode(a[:3], 0x801)
	vrt.Assert(err != nil, "a part is refused")
	ga, err = applesoft.Decode(a, 0x801)
	vrt.Assert(err == nil, "and the whole still decodes")
	sameLines(ga, la)
	vrt.Reach("again")
}

// A long program whose last line leads back to another line, somewhere else or
// to its end.
func C22_late() {
	n := []int{2, 100, 400, 1000}[vrt.Pick("n", 4)]
	c := vrt.Byte("text")
	vrt.Assume(c != 0)
	vrt.Assume(c < 0xeb)
	k := vrt.Pick("to", 7)
	var raw []byte
	for i := 0; i < n; i++ {
		next := 0x801 + 6*(i+1)
		if i == n-1 && k < 6 {
			next = 0x801 + []int{0, 6, 6 * (n / 2), 6 * (n - 2), 6 * (n - 1), 6*n + 100}[k]
		}
		raw = append(raw, byte(next), byte(next>>8), byte(i), byte(i>>8), c, 0)
	}
	raw = append(raw, 0, 0, 0, 0, 0)
	got, err := applesoft.Decode(raw, 0x801)
	vrt.Assert((err == nil) == (k == 6), "a line that leads back, or nowhere, is an error")
	if err == nil {
		vrt.Assert(len(got) == n, "otherwise every line is returned")
		vrt.Reach("listed")
	}
}

// The ends of long lines.
func C21_late() {
	n := []int{20, 39, 80, 130, 200, 239, 300}[vrt.Pick("length", 7)]
	unit := []byte{0xba, '"', 'A', 'b', '"', ';', '1', 0xc8, 0xe7, ':'}
	var t []byte
	for len(t) < n {
		t = append(t, unit[len(t)%len(unit)])
	}
	switch vrt.Pick("end", 4) {
	case 0:
		t = append(t, vrt.Byte("char")&0x7f)
	case 1:
		t = append(t, []byte{0x80, 0x9f, 0xb2, 0xb7, 0xd5, 0xea}[vrt.Pick("token", 6)], vrt.Byte("char")&0x7f)
	case 2:
		t = append(t, 0xb2, 'R', 0xb2, vrt.Byte("char")&0x7f)
	default:
		t = append(t, '"', vrt.Byte("char")&0x7f, 0x80)
	}
	l := applesoft.Line{Num: 10, Bytes: t}
	vrt.Assert(vrt.Eq([]byte(l.String()), listed(10, t)), "a line prints as its number and its spelled-out bytes")
	vrt.Reach("printed")
}
