// Package htypes checks the file type names.
package htypes

import (
	"strings"

	"fmt"
	"github.com/zellyn/diskii/cmd"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/zzverif/vrt"
)

type spec struct {
	code       int
	name       string
	three, one string
	desc       string
	extra      bool
}

// The documented types; see also reserved.
var listed = []spec{
	{0x00, "Typeless", "", "", "Typeless file", false},
	{0x01, "BadBlocks", "", "", "Bad blocks file", false},
	{0x02, "SOSPascalCode", "", "", "PASCAL code file", true},
	{0x03, "SOSPascalText", "", "", "PASCAL text file", true},
	{0x04, "ASCIIText", "TXT", "T", "ASCII text file", false},
	{0x05, "SOSPascalText2", "", "", "PASCAL text file", true},
	{0x06, "Binary", "BIN", "B", "Binary file", false},
	{0x07, "Font", "", "", "Font file", true},
	{0x08, "GraphicsScreen", "", "", "Graphics screen file", true},
	{0x09, "BusinessBASIC", "", "", "Business BASIC program file", true},
	{0x0A, "BusinessBASICData", "", "", "Business BASIC data file", true},
	{0x0B, "SOSWordProcessor", "", "", "Word processor file", true},
	{0x0C, "SOSSystem", "", "", "SOS system file", true},
	{0x0F, "Directory", "DIR", "D", "Directory file", false},
	{0x10, "RPSData", "", "", "RPS data file", true},
	{0x11, "RPSIndex", "", "", "RPS index file", true},
	{0x19, "AppleWorksDatabase", "ADB", "", "AppleWorks data base file", false},
	{0x1A, "AppleWorksWordProcessor", "AWP", "", "AppleWorks word processing file", false},
	{0x1B, "AppleWorksSpreadsheet", "ASP", "", "AppleWorks spreadsheet file", false},
	{0xEF, "Pascal", "PAS", "", "ProDOS PASCAL file", false},
	{0xF0, "Command", "CMD", "", "Added command file", false},
	{0xF1, "UserDefinedF1", "", "", "ProDOS user defined file type F1", true},
	{0xF2, "UserDefinedF2", "", "", "ProDOS user defined file type F2", true},
	{0xF3, "UserDefinedF3", "", "", "ProDOS user defined file type F3", true},
	{0xF4, "UserDefinedF4", "", "", "ProDOS user defined file type F4", true},
	{0xF5, "UserDefinedF5", "", "", "ProDOS user defined file type F5", true},
	{0xF6, "UserDefinedF6", "", "", "ProDOS user defined file type F6", true},
	{0xF7, "UserDefinedF7", "", "", "ProDOS user defined file type F7", true},
	{0xF8, "UserDefinedF8", "", "", "ProDOS user defined file type F8", true},
	{0xFA, "IntegerBASIC", "INT", "I", "Integer BASIC program file", false},
	{0xFB, "IntegerBASICVariables", "IVR", "", "Integer BASIC variables file", false},
	{0xFC, "ApplesoftBASIC", "BAS", "A", "Applesoft BASIC program file", false},
	{0xFD, "ApplesoftBASICVariables", "VAR", "", "Applesoft BASIC variables file", false},
	{0xFE, "Relocatable", "REL", "R", "EDASM relocatable object module file", false},
	{0xFF, "System", "SYS", "", "System file", false},
	{0x100, "S", "", "S", `DOS 3.3 Type "S"`, false},
	{0x101, "NewA", "", "A", `DOS 3.3 Type "new A"`, false},
	{0x102, "NewB", "", "B", `DOS 3.3 Type "new B"`, false},
}

// reserved tells whether a code is reserved, and by what system.
func reserved(code int) string {
	switch {
	case code == 0x0d, code == 0x0e, code >= 0x12 && code <= 0x18, code >= 0x1c && code <= 0xbf:
		return "SOS"
	case code >= 0xc0 && code <= 0xee:
		return "ProDOS"
	}
	return ""
}

// of is what is known about a code.
func of(code int) (spec, bool) {
	for _, s := range listed {
		if s.code == code {
			return s, true
		}
	}
	if r := reserved(code); r != "" {
		return spec{code, fmt.Sprintf("%sReserved%02X", r, code), "", "", fmt.Sprintf("%s reserved for future use %02X", r, code), true}, true
	}
	return spec{}, false
}

// owner is the type a short name stands for: the first that carries it.
func owner(short string) int {
	for _, s := range listed {
		if s.three == short || s.one == short || s.name == short {
			return s.code
		}
	}
	return -1
}

// Every code from below the first to beyond the last.
func C30_codes() {
	code := vrt.Pick("code", 0x106) - 1
	s, known := of(code)
	got := types.Filetype(code).String()
	if !known {
		want := fmt.Sprintf("Invalid/unknown filetype %02X", code)
		vrt.Assert(got == want, "an unlisted code prints as unknown, with its number")
		vrt.Reach("unknown")
		return
	}
	want := s.desc + " (" + s.name
	if s.three != "" {
		want += "|" + s.three
	}
	if s.one != "" && s.one != s.name && owner(s.one) == code {
		want += "|" + s.one
	}
	want += ")"
	vrt.Assert(got == want, "a code prints as its description and the names that stand for it")
	t, err := types.FiletypeForName(s.name)
	vrt.Assert(err == nil && int(t) == code, "the full name finds the type")
	if s.three != "" {
		t, err = types.FiletypeForName(s.three)
		vrt.Assert(err == nil && int(t) == code, "the three-letter name finds the type")
	}
	if s.one != "" {
		t, err = types.FiletypeForName(s.one)
		vrt.Assert(err == nil && int(t) == owner(s.one), "the one-letter name finds the first type that carries it")
	}
	vrt.Reach("known")
}

// Every name of up to four characters, and the longer ones that differ from a
// full name in one place.
func C30_names() {
	n := vrt.Pick("n", 5)
	name := vrt.Str("name", n)
	named(name)
}

func named(name string) {
	t, err := types.FiletypeForName(name)
	hit, want := false, 0
	for i := len(listed) - 1; i >= 0; i-- {
		s := listed[i]
		m := name != "" && vrt.Any(name == s.name, name == s.three, name == s.one)
		hit = vrt.Any(hit, m)
		want = vrt.If(m, s.code, want)
	}
	vrt.Assert((err == nil) == hit, "a name is found exactly when a type carries it")
	if err == nil {
		vrt.Assert(int(t) == want, "and stands for the first type that does")
		vrt.Reach("found")
	} else {
		vrt.Reach("not found")
	}
}

func C30_longNames() {
	s := listed[vrt.Pick("type", len(listed))]
	b := []byte(s.name)
	b[vrt.Pick("at", len(b))] = vrt.Byte("ch")
	named(string(b))
}

// The reserved ranges are found by their numbers.
func C30_reservedNames() {
	h, l := vrt.Byte("h"), vrt.Byte("l")
	sos := vrt.Pick("sos", 2) == 1
	name := "ProDOSReserved"
	if sos {
		name = "SOSReserved"
	}
	name += string([]byte{h, l})
	t, err := types.FiletypeForName(name)
	digit := func(b byte) int {
		return vrt.If(vrt.All(b >= '0', b <= '9'), int(b)-'0', vrt.If(vrt.All(b >= 'A', b <= 'F'), int(b)-'A'+10, 1000))
	}
	code := digit(h)*16 + digit(l)
	ok := vrt.All(code >= 0xc0, code <= 0xee)
	if sos {
		ok = vrt.Any(code == 0x0d, code == 0x0e, vrt.All(code >= 0x12, code <= 0x18), vrt.All(code >= 0x1c, code <= 0xbf))
	}
	vrt.Assert((err == nil) == ok, "exactly the reserved codes have such a name")
	if err == nil {
		vrt.Assert(int(t) == code, "and it stands for its code")
		vrt.Reach("found")
	}
}

// Both listings: every type once, with its own names.
func C30_listings() {
	all := types.FiletypeInfos(true)
	vrt.Assert(len(all) == len(listed)+9+0xc0-0x1c+0xef-0xc0, "the full listing has every type")
	seen := map[int]bool{}
	for _, i := range all {
		c := int(i.Type)
		s, ok := of(c)
		vrt.Assert(ok && !seen[c], "each once")
		seen[c] = true
		vrt.Assert(i.Name == s.name && i.ThreeLetter == s.three && i.OneLetter == s.one && i.Desc == s.desc && i.Extra == s.extra, "with its own names and description")
		vrt.Assert(i.Stringified == i.Type.String(), "and prints as it is listed")
	}
	short := types.FiletypeInfos(false)
	k := 0
	for _, i := range all {
		if !i.Extra {
			vrt.Assert(k < len(short) && short[k].Type == i.Type && short[k].Name == i.Name, "the short listing is the full one without the extra types")
			k++
		}
	}
	vrt.Assert(k == len(short), "and has no others")
	vrt.Reach("listed")
}

// The filetypes command prints a line for each type of its listing.
func C30_command() {
	all := vrt.Pick("all", 2) == 1
	err := (&cmd.FiletypesCmd{All: all}).Run(&types.Globals{Debug: vrt.Pick("debug", 3)})
	vrt.Assert(err == nil, "filetypes succeeds")
	lines := strings.Split(strings.TrimRight(string(vrt.Stdout()), "\n"), "\n")
	infos := types.FiletypeInfos(all)
	vrt.Assert(len(lines) >= len(infos), "there is a line for each type")
	lines = lines[len(lines)-len(infos):]
	for k, i := range infos {
		l := lines[k]
		vrt.Assert(strings.HasPrefix(l, i.Desc), "each line begins with the description")
		f := strings.Fields(l[len(i.Desc):])
		want := strings.Fields(i.Name + " " + i.ThreeLetter + " " + i.OneLetter)
		vrt.Assert(len(f) == len(want), "and has the names that exist")
		for j := range want {
			vrt.Assert(f[j] == want[j], "and has each name")
		}
	}
	vrt.Reach("printed")
}
