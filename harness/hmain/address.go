// Package hmain has the harnesses for package main, whose files the check adds
// to it with the package name changed.
package hmain

import (
	"reflect"

	"github.com/alecthomas/kong"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// digit is the value of a digit, or 99.
func digit(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

// value is the meaning of an address.
func value(s string) (uint64, bool) {
	base := 10
	if len(s) > 1 && s[0] == '0' {
		base = 8
		s = s[1:]
		switch s[0] {
		case 'x', 'X':
			base = 16
		case 'b', 'B':
			base = 2
		case 'o', 'O':
		default:
			s = "0" + s
		}
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		d := digit(s[i])
		if d >= base {
			return 0, false
		}
		n = n*base + d
		if n > 65535 {
			return 0, false
		}
	}
	return uint64(n), true
}

func parse(s string, typ kong.TokenType) {
	for i := 0; i < len(s); i++ {
		// Go's digit separators are neither promised nor forbidden.
		vrt.Assume(s[i] != '_')
	}
	var before, after uint16 = 0x1234, 0x4321
	x := struct{ a, v, b uint16 }{before, vrt.U16("old"), after}
	sc := kong.ScanFromTokens(kong.Token{Value: s, Type: typ})
	err := mapper().Decode(&kong.DecodeContext{Scan: sc}, reflect.ValueOf(&x.v).Elem())
	want, ok := value(s)
	vrt.Assert((err == nil) == ok, "an address is accepted exactly if it is a number up to 65535 in one of the bases")
	if err == nil {
		vrt.Reach("accepted")
		vrt.Assert(uint64(x.v) == want, "the address set is the value of the text")
	} else {
		vrt.Reach("refused")
	}
	vrt.Assert(x.a == before && x.b == after, "nothing else is set")
	vrt.Assert(sc.Len() == 0 || err != nil, "the value is used up")
}

// Every text of up to 3 ASCII characters, as --flag=text.
func C34_any() { parse(vrt.Str("s", vrt.Pick("n", 4)), kong.FlagValueToken) }

// As --flag text.
func C34_separate() { parse(vrt.Str("s", vrt.Pick("n", 3)), kong.UntypedToken) }

func prefix() string { return []string{"0x", "0X", "0o", "0b", "0", ""}[vrt.Pick("prefix", 6)] }

// digits gives characters that are digits of some base.
func digits(n int) string {
	s := vrt.Str("d", n)
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] >= '0' && s[i] <= 'g')
	}
	return s
}

// Every number of up to 4 digits after every prefix.
func C34_digits() { parse(prefix()+digits(1+vrt.Pick("n", 4)), kong.FlagValueToken) }

// Up to 6 digits.
func C34T_digits() { parse(prefix()+digits(5+vrt.Pick("n", 2)), kong.FlagValueToken) }

// Up to 5 characters.
func C34T_any() { parse(vrt.Str("s", 4+vrt.Pick("n", 2)), kong.FlagValueToken) }

// Values around 65536, in each base, with any two digits changed.
func C34_limit() {
	s := []byte([]string{"65535", "65536", "0xffff", "0x10000", "0X00FFFF", "0o177777", "0o200000", "0177777", "0b1111111111111111", "0b10000000000000000"}[vrt.Pick("v", 10)])
	i, j := vrt.Pick("i", len(s)), vrt.Pick("j", 2)
	s[i] = vrt.Byte("a")
	s[len(s)-1-j] = vrt.Byte("b")
	for _, c := range s {
		vrt.Assume(c < 0x80)
	}
	parse(string(s), kong.FlagValueToken)
}
