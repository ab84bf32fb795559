// Package vrt is the run-time of the verification harnesses. The symbolic
// engine replaces these functions by its own; compiled natively they read a
// concrete assignment, so that a solver model can be replayed on the real code.
package vrt

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

type input struct {
	Harness string                     `json:"harness"`
	Vals    map[string]uint64          `json:"vals"`
	Arrs    map[string]map[string]byte `json:"arrs"`
}

var (
	in      input
	count   = map[string]int{}
	dir     string
	out     *os.File
	realOut *os.File
	asserts int
)

// Load reads the assignment and prepares the scratch directory.
func Load(file, scratch string) (string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	if err := json.Unmarshal(b, &in); err != nil {
		return "", err
	}
	dir = scratch
	realOut = os.Stdout
	out, err = os.CreateTemp(scratch, "stdout")
	if err != nil {
		return "", err
	}
	os.Stdout = out
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return "", err
	}
	os.Stdin = null
	return in.Harness, nil
}

// Finish reports that the harness ended normally.
func Finish() {
	fmt.Fprintf(realOut, "ASSERTS %d\nOK\n", asserts)
}

func fresh(name string) string {
	n := count[name]
	count[name] = n + 1
	return name + "#" + strconv.Itoa(n)
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(in.Vals[fresh(name)]) }

// U16 is an arbitrary 16-bit number.
func U16(name string) uint16 { return uint16(in.Vals[fresh(name)]) }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return in.Vals[fresh(name)] != 0 }

// Int is an arbitrary number in lo..hi.
func Int(name string, lo, hi int) int {
	v := lo + int(in.Vals[fresh(name)])
	Assume(lo <= v && v <= hi)
	return v
}

// Pick is a number in 0..n-1, decided by case split.
func Pick(name string, n int) int { return Conc(Int(name, 0, n-1)) }

// Conc makes a value concrete by case split.
func Conc(x int) int { return x }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	nm := fresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.Vals[nm+"["+strconv.Itoa(i)+"]"])
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Image is an object of n arbitrary bytes, represented as one SMT array.
func Image(name string, n int) []byte {
	nm := fresh(name)
	b := make([]byte, n)
	for k, v := range in.Arrs[nm] {
		i, err := strconv.Atoi(k)
		if err == nil && i >= 0 && i < n {
			b[i] = v
		}
	}
	return b
}

// ImageLen is an Image of at most max bytes whose length is the arbitrary n.
func ImageLen(name string, max, n int) []byte {
	b := Image(name, max)
	r := make([]byte, n)
	copy(r, b)
	return r
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		fmt.Fprintln(realOut, "ASSUME-FAILED")
		os.Exit(77)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	asserts++
	if !b {
		fmt.Fprintf(realOut, "ASSERT-FAILED %s\n", msg)
		os.Exit(3)
	}
}

// Reach marks a point that some input must reach.
func Reach(msg string) {}

// All is the conjunction of its arguments, without branching.
func All(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Any is the disjunction of its arguments, without branching.
func Any(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Imp is implication, without branching.
func Imp(a, b bool) bool { return !a || b }

// If selects, without branching.
func If(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Eq compares two byte slices, without branching.
func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

// Clone returns a copy of a byte slice.
func Clone(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

// Observe records a value for comparison between engine and native run.
func Observe(name string, v int) { fmt.Fprintf(realOut, "OBS %s=%d\n", name, v) }

// ObserveBytes records bytes likewise.
func ObserveBytes(name string, b []byte) {
	fmt.Fprintf(realOut, "OBS %s=%s\n", name, hex.EncodeToString(b))
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Path names a file in the scratch directory.
func Path(name string) string { return filepath.Join(dir, name) }

// WriteFile creates a file of the given contents.
func WriteFile(path string, data []byte) {
	if err := os.WriteFile(path, data, 0600); err != nil {
		fmt.Fprintln(realOut, "SCRATCH-FAILED", err)
		os.Exit(78)
	}
}

// ReadFile returns a file's contents and whether it exists.
func ReadFile(path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, false
	}
	return b, true
}

// OpenFile opens an existing file for reading.
func OpenFile(path string) *os.File {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(realOut, "SCRATCH-FAILED", err)
		os.Exit(78)
	}
	return f
}

// FileCount is the number of files in the scratch directory.
func FileCount() int {
	es, err := os.ReadDir(dir)
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range es {
		if filepath.Join(dir, e.Name()) != out.Name() {
			n++
		}
	}
	return n
}

// SetStdin makes data the standard input.
func SetStdin(data []byte) {
	f, err := os.CreateTemp(dir, "stdin")
	if err == nil {
		_, err = f.Write(data)
	}
	if err == nil {
		_, err = f.Seek(0, 0)
	}
	if err != nil {
		fmt.Fprintln(realOut, "SCRATCH-FAILED", err)
		os.Exit(78)
	}
	os.Remove(f.Name())
	os.Stdin = f
}

// Stdout returns what has been written to standard output.
func Stdout() []byte {
	b, err := os.ReadFile(out.Name())
	if err != nil {
		fmt.Fprintln(realOut, "SCRATCH-FAILED", err)
		os.Exit(78)
	}
	return b
}
