package hcmd

import "github.com/zellyn/diskii/zzverif/vrt"

// level is the debug level of the commands.
var level int

// Each command does with debug output just what it does without.
func C36_lsDOS() {
	level = 1 + vrt.Pick("debug", 3)
	C32_dos()
}

func C36_lsProDOS() {
	level = 1 + vrt.Pick("debug", 3)
	C32_prodos()
}

func C36_lsNakedOS() {
	level = 1 + vrt.Pick("debug", 3)
	C32_nakedos()
}

func C36_refused() {
	level = 1 + vrt.Pick("debug", 3)
	C32_refused()
}

func C36_dumpDOS() {
	level = 2
	C31_dumpDOS()
}

func C36_dumpNakedOS() {
	level = 2
	C31_dumpNakedOS()
}

func C36_put() {
	level = 2
	C26_put()
}

func C36_rm() {
	level = 2
	C26_rm()
}

func C36_unsupported() {
	level = 2
	C26_unsupported()
}

func C36_lsFound() {
	level = 1 + vrt.Pick("debug", 3)
	C32_found()
}

func C36_lsDamaged() {
	level = 1 + vrt.Pick("debug", 3)
	C32_damaged()
}

// Many directories, one inside the other.
func C36_lsDeep() {
	level = 2
	C32_deep()
}
