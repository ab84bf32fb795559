package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(it *Interp, fn *Fn, args []V) (V, bool)

var intrinsics = map[string]intrFn{}

// packages whose initialisers are never run; what is needed of them is modelled
var noInit = map[string]bool{
	"os": true, "runtime": true, "syscall": true, "time": true, "reflect": true, "internal/poll": true,
	"internal/syscall/unix": true, "internal/godebug": true, "internal/reflectlite": true, "internal/testlog": true,
	"internal/cpu": true, "internal/bytealg": true, "sync": true, "sync/atomic": true, "fmt": true, "runtime/debug": true,
	"internal/abi": true, "unique": true, "internal/runtime/sys": true, "math/rand": true, "context": true,
}

func pure(name string, f func(it *Interp, a []V) V) {
	intrinsics[name] = func(it *Interp, fn *Fn, a []V) (V, bool) { return f(it, a), true }
}

// impure intrinsics have effects that cannot be undone, so they end speculation
func impure(name string, f func(it *Interp, a []V) V) {
	intrinsics[name] = func(it *Interp, fn *Fn, a []V) (V, bool) {
		if it.spec > 0 {
			it.fail("effect " + name)
		}
		return f(it, a), true
	}
}

func maybe(name string, f func(it *Interp, a []V) (V, bool)) {
	intrinsics[name] = func(it *Interp, fn *Fn, a []V) (V, bool) { return f(it, a) }
}

const vrtPkg = "github.com/zellyn/diskii/zzverif/vrt."

func (it *Interp) freshName(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsup("symbolic input name"))
	}
	n := it.names[s]
	it.names[s] = n + 1
	return s + "#" + strconv.Itoa(n)
}

func errno(n uint64) uint64 { return n }

// modelGlobal sets up library globals that are modelled instead of initialised.
func modelGlobal(it *Interp, g *ssa.Global, a *Agg) bool {
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		f := &Agg{cells: []V{{}}, n: 1, host: &VFile{name: "/dev/" + strings.ToLower(g.Name()[0:]), std: g.Name()}}
		a.cells[0] = V{x: f}
		return true
	case "os.ErrNotExist", "os.ErrExist", "os.ErrPermission", "os.ErrInvalid", "os.ErrClosed":
		p := it.P.pkgs["io/fs"]
		if p != nil {
			if gg, ok := p.Members[g.Name()].(*ssa.Global); ok {
				gp := it.globalPtr(gg)
				a.cells[0] = it.get(gp.x.(*Agg), 0)
				return true
			}
		}
	}
	return false
}

// embedded fills a variable carrying a go:embed directive.
func (P *Prog) embedded(it *Interp, g *ssa.Global, a *Agg) {
	b, ok := P.embed[g.String()]
	if !ok {
		return
	}
	switch g.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Slice:
		a.cells[0] = bytesV(append([]byte{}, b...))
	default:
		a.cells[0] = mkStr(string(b))
	}
}

func (it *Interp) boolArgs(v V) []*Term {
	s := it.concSlice(sl(v), 1)
	var ts []*Term
	for i := 0; i < s.len; i++ {
		ts = append(ts, it.boolTerm(it.get(s.a, s.off+i)))
	}
	return ts
}

// bytesEq is the term for equality of two byte slices.
func (it *Interp) bytesEq(a, b V) *Term {
	x, y := sl(a), sl(b)
	r := it.tt.True
	if x.slen != nil || y.slen != nil {
		le := it.tt.Eq(it.lenT(x), it.lenT(y))
		if le.isFalse() {
			return le
		}
		same := x.a == y.a || x.a.arr != nil && x.a.arr == y.a.arr
		if same && x.off == y.off && x.soff == y.soff {
			return le
		}
		n := x.a.n - x.off
		if k := y.a.n - y.off; k < n {
			n = k
		}
		if x.soff == nil && y.soff == nil && n <= 1<<17 {
			ts := []*Term{le}
			for i := 0; i < n; i++ {
				p, q := it.get(x.a, x.off+i), it.get(y.a, y.off+i)
				if p.t == nil && q.t == nil && p.n == q.n || p.t != nil && p.t == q.t {
					continue
				}
				e := it.tt.Eq(it.term(p, 8), it.term(q, 8))
				ts = append(ts, it.tt.Or(it.tt.Ule(it.lenT(x), it.tt.Const(uint64(i), 64)), e))
			}
			return it.tt.AndN(ts)
		}
		x, y = it.concSliceKeepOff(x, 1), it.concSliceKeepOff(y, 1)
	}
	if x.len != y.len {
		return it.tt.False
	}
	if x.a == y.a && x.off == y.off && x.soff == y.soff {
		return it.tt.True
	}
	if x.a.arr != nil && y.a.arr != nil && x.a.arr == y.a.arr && x.off == y.off && x.soff == y.soff {
		return it.tt.True
	}
	ts := make([]*Term, 0, 64)
	fast := x.soff == nil && y.soff == nil && x.a.conc != nil && y.a.conc != nil && x.a.arr == nil && y.a.arr == nil
	for i := 0; i < x.len; i++ {
		if fast {
			var p, q *Term
			if x.a.sym != nil {
				p = x.a.sym[x.off+i]
			}
			if y.a.sym != nil {
				q = y.a.sym[y.off+i]
			}
			if p == nil && q == nil {
				if x.a.conc[x.off+i] != y.a.conc[y.off+i] {
					return it.tt.False
				}
				continue
			}
			if p == q {
				continue
			}
		}
		e := it.tt.Eq(it.term(it.elemAt(byteLay, x, i), 8), it.term(it.elemAt(byteLay, y, i), 8))
		if e.isFalse() {
			return e
		}
		if !e.isTrue() {
			ts = append(ts, e)
		}
	}
	if len(ts) > 0 {
		r = it.tt.AndN(ts)
	}
	return r
}

func asciiFold(it *Interp, b *Term, lo byte) *Term { // add 32 (upper->lower) when in lo..lo+25
	tt := it.tt
	in := tt.And(tt.Ule(tt.Const(uint64(lo), 8), b), tt.Ule(b, tt.Const(uint64(lo)+25, 8)))
	return tt.Ite(in, tt.Bxor(b, tt.Const(32, 8)), b)
}

// allASCII splits on whether every byte is below 0x80.
func (it *Interp) allASCII(c []byte, s []*Term) bool {
	r := it.tt.True
	for i := range c {
		if s != nil && s[i] != nil {
			if s[i].umax >= 0x80 {
				r = it.tt.And(r, it.tt.Ult(s[i], it.tt.Const(0x80, 8)))
			}
		} else if c[i] >= 0x80 {
			return false
		}
	}
	if r.isTrue() {
		return true
	}
	if it.spec > 0 {
		return it.provable(r)
	}
	return it.branch(r)
}

func (it *Interp) indexByte(n int, at func(int) V, c V) V {
	for i := 0; i < n; i++ {
		b := at(i)
		if it.branchT(it.tt.Eq(it.term(b, 8), it.term(c, 8))) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (it *Interp) mkError(msg V) V { // errors.New
	f := it.P.pkgs["errors"].Func("New")
	return it.call(f, []V{msg}, nil)
}

func (it *Interp) typ(pkg, name string) types.Type {
	return it.P.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
}

func (it *Interp) pathErr(op string, path V, en uint64) V {
	pe := it.typ("io/fs", "PathError")
	l := lay(pe)
	a := newAgg(l, 1)
	a.cells[0] = mkStr(op)
	a.cells[1] = path
	a.cells[2] = V{x: &Iface{it.typ("syscall", "Errno"), V{n: en}}}
	return V{x: &Iface{types.NewPointer(pe), V{x: a}}}
}

var ptrPE types.Type

func init() {
	v := func(n string) string { return vrtPkg + n }
	impure(v("Byte"), func(it *Interp, a []V) V { return V{t: it.tt.Var(it.freshName(a[0]), 8)} })
	impure(v("U16"), func(it *Interp, a []V) V { return V{t: it.tt.Var(it.freshName(a[0]), 16)} })
	impure(v("Bool"), func(it *Interp, a []V) V {
		return tv(it.tt.Eq(it.tt.Var(it.freshName(a[0]), 1), it.tt.Const(1, 1)))
	})
	impure(v("Int"), func(it *Interp, a []V) V {
		lo, hi := int64(a[1].n), int64(a[2].n)
		nm := it.freshName(a[0])
		if hi < lo {
			panic(pathEnd{"assume", ""})
		}
		if hi == lo {
			return V{n: uint64(lo)}
		}
		w := uint8(bits.Len64(uint64(hi - lo)))
		x := it.tt.Var(nm, w)
		if uint64(hi-lo) != wmask(w) {
			it.assume(it.tt.Ule(x, it.tt.Const(uint64(hi-lo), w)))
		}
		return tv(it.tt.Add(it.tt.Zext(x, 64), it.tt.Const(uint64(lo), 64)))
	})
	impure(v("Conc"), func(it *Interp, a []V) V {
		if a[0].t == nil {
			return a[0]
		}
		return V{n: it.concretize(a[0].t)}
	})
	impure(v("Bytes"), func(it *Interp, a []V) V {
		nm := it.freshName(a[0])
		n := int(a[1].n)
		ag := &Agg{n: n, conc: make([]byte, n), sym: make([]*Term, n)}
		for i := range ag.sym {
			ag.sym[i] = it.tt.Var(nm+"["+strconv.Itoa(i)+"]", 8)
		}
		return V{x: &SliceV{a: ag, len: n, cap: n}}
	})
	img := func(it *Interp, a []V) *SliceV {
		nm := it.freshName(a[0])
		n := int(a[1].n)
		iw := uint8(bits.Len64(uint64(n)))
		ag := &Agg{n: n, arr: it.tt.ArrVar(nm, iw), iw: iw}
		return &SliceV{a: ag, len: n, cap: n}
	}
	impure(v("Image"), func(it *Interp, a []V) V { return V{x: img(it, a)} })
	impure(v("ImageLen"), func(it *Interp, a []V) V {
		s := img(it, a)
		if a[2].t != nil {
			s.slen, s.scap = a[2].t, a[2].t
		} else {
			s.len, s.cap = int(a[2].n), int(a[2].n)
		}
		return V{x: s}
	})
	impure(v("Assume"), func(it *Interp, a []V) V { it.assume(it.boolTerm(a[0])); return V{} })
	impure(v("Assert"), func(it *Interp, a []V) V {
		s, _ := concStr(a[1])
		it.assert(it.boolTerm(a[0]), s)
		return V{}
	})
	impure(v("Reach"), func(it *Interp, a []V) V {
		s, _ := concStr(a[0])
		it.x.mu.Lock()
		it.x.stat(it.p.h.name).reach[s]++
		it.x.mu.Unlock()
		return V{}
	})
	pure(v("All"), func(it *Interp, a []V) V { return tv(it.tt.AndN(it.boolArgs(a[0]))) })
	pure(v("Any"), func(it *Interp, a []V) V { return tv(it.tt.OrN(it.boolArgs(a[0]))) })
	pure(v("Imp"), func(it *Interp, a []V) V {
		return tv(it.tt.Or(it.tt.Not(it.boolTerm(a[0])), it.boolTerm(a[1])))
	})
	pure(v("If"), func(it *Interp, a []V) V {
		return tv(it.tt.Ite(it.boolTerm(a[0]), it.term(a[1], 64), it.term(a[2], 64)))
	})
	pure(v("Eq"), func(it *Interp, a []V) V { return tv(it.bytesEq(a[0], a[1])) })
	pure(v("Clone"), func(it *Interp, a []V) V {
		s := sl(a[0])
		if s.a.arr != nil && s.off == 0 && s.soff == nil {
			na := &Agg{n: s.a.n, arr: s.a.arr, iw: s.a.iw}
			r := *s
			r.a = na
			return V{x: &r}
		}
		s = it.concSlice(s, 1)
		r := it.mkSlice(byteLay, s.len, s.len)
		it.copySlice(byteLay, sl(r), s)
		return r
	})
	impure(v("Observe"), func(it *Interp, a []V) V {
		s, _ := concStr(a[0])
		it.p.obs = append(it.p.obs, Obs{name: s, kind: 0, vs: []V{a[1]}, w: 64})
		return V{}
	})
	impure(v("ObserveBytes"), func(it *Interp, a []V) V {
		s, _ := concStr(a[0])
		b := it.concSliceKeepOff(sl(a[1]), 1)
		o := Obs{name: s, kind: 1}
		for i := 0; i < b.len; i++ {
			o.vs = append(o.vs, it.elemAt(byteLay, b, i))
		}
		it.p.obs = append(it.p.obs, o)
		return V{}
	})
	pure(v("Path"), func(it *Interp, a []V) V { return it.strConcat(mkStr("/vfs/"), a[0]) })
	impure(v("WriteFile"), func(it *Interp, a []V) V {
		if !it.vfs.write(it.conStr(a[0]), it.fileBytes(a[1])) {
			panic(unsup("scratch write"))
		}
		return V{}
	})
	impure(v("ReadFile"), func(it *Interp, a []V) V {
		n := it.vfs.get(it.conStr(a[0]))
		if n == nil {
			return V{x: []V{{}, {}}}
		}
		return V{x: []V{it.bytesOf(n.data), {n: 1}}}
	})
	impure(v("OpenFile"), func(it *Interp, a []V) V {
		p := it.conStr(a[0])
		return it.openFile(p, a[0], 0)
	})
	impure(v("FileCount"), func(it *Interp, a []V) V { return V{n: uint64(len(it.vfs.files))} })
	impure(v("SetStdin"), func(it *Interp, a []V) V {
		it.vfs.stdin = it.fileBytes(a[0])
		it.vfs.stdinPos = 0
		delete(it.vfs.closed, "Stdin")
		return V{}
	})
	impure(v("Stdout"), func(it *Interp, a []V) V { return it.bytesOf(&Agg2{append([]V{}, it.stdout...)}) })

	// ---- bytealg and friends
	pure("internal/bytealg.IndexByte", func(it *Interp, a []V) V {
		s := it.concSliceKeepOff(sl(a[0]), 1)
		return it.indexByte(s.len, func(i int) V { return it.elemAt(byteLay, s, i) }, a[1])
	})
	pure("internal/bytealg.IndexByteString", func(it *Interp, a []V) V {
		s := it.forceStr(a[0])
		return it.indexByte(it.strLen(s), func(i int) V { return it.strAt(s, i) }, a[1])
	})
	pure("internal/bytealg.LastIndexByteString", func(it *Interp, a []V) V {
		s := it.forceStr(a[0])
		for i := it.strLen(s) - 1; i >= 0; i-- {
			if it.branchT(it.tt.Eq(it.term(it.strAt(s, i), 8), it.term(a[1], 8))) {
				return V{n: uint64(i)}
			}
		}
		return V{n: ^uint64(0)}
	})
	countB := func(it *Interp, n int, at func(int) V, c V) V {
		acc := it.tt.Const(0, 64)
		for i := 0; i < n; i++ {
			e := it.tt.Eq(it.term(at(i), 8), it.term(c, 8))
			acc = it.tt.Add(acc, it.tt.Ite(e, it.tt.Const(1, 64), it.tt.Const(0, 64)))
		}
		return tv(acc)
	}
	pure("internal/bytealg.Count", func(it *Interp, a []V) V {
		s := it.concSliceKeepOff(sl(a[0]), 1)
		return countB(it, s.len, func(i int) V { return it.elemAt(byteLay, s, i) }, a[1])
	})
	pure("internal/bytealg.CountString", func(it *Interp, a []V) V {
		s := it.forceStr(a[0])
		return countB(it, it.strLen(s), func(i int) V { return it.strAt(s, i) }, a[1])
	})
	pure("internal/bytealg.Equal", func(it *Interp, a []V) V { return tv(it.bytesEq(a[0], a[1])) })
	pure("bytes.Equal", func(it *Interp, a []V) V { return tv(it.bytesEq(a[0], a[1])) })
	cmp := func(it *Interp, x, y V) V {
		lt, gt := it.strLess(x, y), it.strLess(y, x)
		return tv(it.tt.Ite(lt, it.tt.Const(^uint64(0), 64), it.tt.Ite(gt, it.tt.Const(1, 64), it.tt.Const(0, 64))))
	}
	pure("internal/bytealg.Compare", func(it *Interp, a []V) V { return cmp(it, it.strFromSlice(a[0]), it.strFromSlice(a[1])) })
	pure("internal/bytealg.CompareString", func(it *Interp, a []V) V { return cmp(it, a[0], a[1]) })
	idx := func(it *Interp, x, y V) V {
		x, y = it.forceStr(x), it.forceStr(y)
		n, m := it.strLen(x), it.strLen(y)
		for i := 0; i+m <= n; i++ {
			if it.branchT(it.strEq(it.strSlice(x, i, i+m), y)) {
				return V{n: uint64(i)}
			}
		}
		return V{n: ^uint64(0)}
	}
	pure("internal/bytealg.IndexString", func(it *Interp, a []V) V { return idx(it, a[0], a[1]) })
	pure("internal/bytealg.Index", func(it *Interp, a []V) V { return idx(it, it.strFromSlice(a[0]), it.strFromSlice(a[1])) })
	pure("strings.Index", func(it *Interp, a []V) V { return idx(it, a[0], a[1]) })
	pure("internal/stringslite.Index", func(it *Interp, a []V) V { return idx(it, a[0], a[1]) })
	pure("bytes.Index", func(it *Interp, a []V) V { return idx(it, it.strFromSlice(a[0]), it.strFromSlice(a[1])) })
	pure("internal/bytealg.MakeNoZero", func(it *Interp, a []V) V {
		n := it.concInt(a[0], types.Typ[types.Int], "")
		return it.mkSlice(byteLay, n, it.roundCap(n))
	})
	pure("(*strings.Builder).copyCheck", func(it *Interp, a []V) V { return V{} })
	pure("internal/stringslite.Clone", func(it *Interp, a []V) V { return a[0] })
	pure("strings.Clone", func(it *Interp, a []V) V { return a[0] })
	maybe("strings.EqualFold", func(it *Interp, a []V) (V, bool) {
		x, okx := concStr(a[0])
		y, oky := concStr(a[1])
		if okx && oky {
			return V{n: b2u(strings.EqualFold(x, y))}, true
		}
		if u, ok := a[0].x.(*UnionStr); ok && oky {
			r := it.tt.False
			for _, al := range u.alts {
				if strings.EqualFold(al.s, y) {
					r = it.tt.Or(r, al.c)
				}
			}
			return tv(r), true
		}
		if u, ok := a[1].x.(*UnionStr); ok && okx {
			r := it.tt.False
			for _, al := range u.alts {
				if strings.EqualFold(al.s, x) {
					r = it.tt.Or(r, al.c)
				}
			}
			return tv(r), true
		}
		ca, sa := it.strCells(a[0])
		cb, sb := it.strCells(a[1])
		if !it.allASCII(ca, sa) || !it.allASCII(cb, sb) {
			return V{}, false
		}
		if len(ca) != len(cb) {
			return V{}, true
		}
		r := it.tt.True
		for i := range ca {
			p, q := asciiFold(it, it.byteTerm(ca, sa, i), 'A'), asciiFold(it, it.byteTerm(cb, sb, i), 'A')
			r = it.tt.And(r, it.tt.Eq(p, q))
			if r.isFalse() {
				break
			}
		}
		return tv(r), true
	})
	caseMap := func(lo byte, conc func(string) string) func(it *Interp, a []V) (V, bool) {
		return func(it *Interp, a []V) (V, bool) {
			if x, ok := concStr(a[0]); ok {
				return mkStr(conc(x)), true
			}
			c, s := it.strCells(a[0])
			if !it.allASCII(c, s) {
				return V{}, false
			}
			rs := make([]*Term, len(c))
			for i := range c {
				rs[i] = asciiFold(it, it.byteTerm(c, s, i), lo)
			}
			return mkSymStr(make([]byte, len(c)), rs), true
		}
	}
	maybe("strings.ToUpper", caseMap('a', strings.ToUpper))
	maybe("strings.ToLower", caseMap('A', strings.ToLower))

	// ---- strconv
	maybe("strconv.Itoa", func(it *Interp, a []V) (V, bool) {
		return it.fmtInt(a[0], KI{kInt, 64, true}, 10, false), true
	})
	maybe("strconv.FormatInt", func(it *Interp, a []V) (V, bool) {
		if a[1].t != nil || a[1].n != 10 && a[1].n != 16 {
			return V{}, false
		}
		return it.fmtInt(a[0], KI{kInt, 64, true}, int(a[1].n), false), true
	})
	maybe("strconv.FormatUint", func(it *Interp, a []V) (V, bool) {
		if a[1].t != nil || a[1].n != 10 && a[1].n != 16 {
			return V{}, false
		}
		return it.fmtInt(a[0], KI{kInt, 64, false}, int(a[1].n), false), true
	})

	// ---- sync, atomic
	nop := func(it *Interp, a []V) V { return V{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "(*sync.Pool).Put", "internal/race.Acquire", "internal/race.Release"} {
		pure(n, nop)
	}
	impure("(*sync.Pool).Get", func(it *Interp, a []V) V {
		p := a[0].x.(*Agg)
		st := it.typ("sync", "Pool").Underlying().(*types.Struct)
		l := lay(it.typ("sync", "Pool"))
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := it.get(p, int(a[0].n)+l.offs[i])
				if f.x == nil {
					return V{}
				}
				return it.callV(f, nil)
			}
		}
		return V{}
	})
	for _, k := range []struct {
		n string
		l *Layout
	}{{"Int32", lay(types.Typ[types.Int32])}, {"Int64", lay(types.Typ[types.Int64])}, {"Uint32", lay(types.Typ[types.Uint32])}, {"Uint64", lay(types.Typ[types.Uint64])}, {"Uintptr", lay(types.Typ[types.Uintptr])}, {"Pointer", lay(types.Typ[types.UnsafePointer])}} {
		k := k
		pure("sync/atomic.Load"+k.n, func(it *Interp, a []V) V { return it.load(k.l, a[0]) })
		impure("sync/atomic.Store"+k.n, func(it *Interp, a []V) V { it.store(k.l, a[0], a[1]); return V{} })
		impure("sync/atomic.Swap"+k.n, func(it *Interp, a []V) V { o := it.load(k.l, a[0]); it.store(k.l, a[0], a[1]); return o })
		impure("sync/atomic.CompareAndSwap"+k.n, func(it *Interp, a []V) V {
			o := it.load(k.l, a[0])
			if it.branchT(it.eqV(k.l.t, o, a[1])) {
				it.store(k.l, a[0], a[2])
				return V{n: 1}
			}
			return V{}
		})
		if k.n != "Pointer" {
			impure("sync/atomic.Add"+k.n, func(it *Interp, a []V) V {
				o := it.load(k.l, a[0])
				r := tv(it.tt.Add(it.term(o, k.l.ki.w), it.term(a[1], k.l.ki.w)))
				it.store(k.l, a[0], r)
				return r
			})
		}
	}

	// ---- errors
	pure("errors.Is", func(it *Interp, a []V) V { return V{n: b2u(it.errorsIs(a[0], a[1]))} })
	impure("errors.As", func(it *Interp, a []V) V {
		tgt := a[1].x.(*Iface)
		el := tgt.t.Underlying().(*types.Pointer).Elem()
		e := a[0]
		for e.x != nil {
			i := e.x.(*Iface)
			if types.IsInterface(el) {
				if it.implements(i.t, el) {
					it.store(lay(el), tgt.v, e)
					return V{n: 1}
				}
			} else if types.Identical(i.t, el) {
				it.store(lay(el), tgt.v, i.v)
				return V{n: 1}
			}
			n, ok := it.callMethod(i, "Unwrap")
			if !ok {
				break
			}
			e = n
		}
		return V{}
	})
	pure("(syscall.Errno).Error", func(it *Interp, a []V) V {
		if a[0].t == nil && a[0].n == 2 {
			return mkStr("no such file or directory")
		}
		return mkStr("errno")
	})

	// ---- math (assembly on amd64)
	f1 := func(n string, f func(float64) float64) {
		k := KI{kFloat, 64, true}
		pure("math."+n, func(it *Interp, a []V) V { return fromFloat(f(toFloat(a[0], k)), k) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Exp", math.Exp)
	f1("Log", math.Log)
	pure("math.Float64bits", func(it *Interp, a []V) V { return V{n: a[0].n} })
	pure("math.Float64frombits", func(it *Interp, a []V) V { return V{n: a[0].n} })
	pure("math.Float32bits", func(it *Interp, a []V) V { return V{n: a[0].n} })
	pure("math.Float32frombits", func(it *Interp, a []V) V { return V{n: a[0].n} })

	// ---- reflect: a Value is its type, a pointer and whether that leads to it
	pure("reflect.ValueOf", func(it *Interp, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			panic(unsup("reflect.ValueOf(nil)"))
		}
		if _, ok := i.t.Underlying().(*types.Pointer); !ok {
			panic(unsup("reflect.ValueOf " + i.t.String()))
		}
		return V{x: &Agg{n: 3, cells: []V{{x: &Agg{host: i.t}}, i.v, {}}}}
	})
	rv := func(v V, set bool) (types.Type, V) {
		c := v.x.(*Agg).cells
		if set != (c[2].n == 1) || c[0].x == nil {
			panic(unsup("this use of reflect.Value"))
		}
		return c[0].x.(*Agg).host.(types.Type), c[1]
	}
	pure("(reflect.Value).Elem", func(it *Interp, a []V) V {
		t, p := rv(a[0], false)
		return V{x: &Agg{n: 3, cells: []V{{x: &Agg{host: t.Underlying().(*types.Pointer).Elem()}}, p, {n: 1}}}}
	})
	pure("(reflect.Value).CanSet", func(it *Interp, a []V) V { return V{n: a[0].x.(*Agg).cells[2].n} })
	setInt := func(signed bool) func(it *Interp, a []V) V {
		return func(it *Interp, a []V) V {
			t, p := rv(a[0], true)
			k := kindOf(t)
			if k.cls != kInt || k.signed != signed {
				panic(unsup("reflect.Value.SetUint or SetInt of " + t.String()))
			}
			x := V{n: a[1].n & wmask(k.w)}
			if a[1].t != nil {
				x = tv(it.tt.Extract(a[1].t, k.w-1, 0))
			}
			it.store(lay(t), p, x)
			return V{}
		}
	}
	impure("(reflect.Value).SetUint", setInt(false))
	impure("(reflect.Value).SetInt", setInt(true))
	pure("(reflect.Value).OverflowUint", func(it *Interp, a []V) V {
		t, _ := rv(a[0], true)
		k := kindOf(t)
		if a[1].t == nil {
			return V{n: b2u(a[1].n > wmask(k.w))}
		}
		return tv(it.tt.Not(it.tt.Ule(a[1].t, it.tt.Const(wmask(k.w), 64))))
	})

	// ---- reflect.DeepEqual, sort.Slice
	pure("reflect.DeepEqual", func(it *Interp, a []V) V {
		ia, _ := a[0].x.(*Iface)
		ib, _ := a[1].x.(*Iface)
		if ia == nil || ib == nil {
			return V{n: b2u(ia == nil && ib == nil)}
		}
		if !types.Identical(ia.t, ib.t) {
			return V{}
		}
		return tv(it.deepEq(ia.t, ia.v, ib.v, 0))
	})
	sortSlice := func(it *Interp, a []V) V {
		i := a[0].x.(*Iface)
		el := lay(i.t.Underlying().(*types.Slice).Elem())
		s := it.concSlice(sl(i.v), el.size)
		less := func(x, y int) bool {
			return it.branchT(it.boolTerm(it.callV(a[1], []V{{n: uint64(x)}, {n: uint64(y)}})))
		}
		// insertion sort by swapping in place (stable)
		for x := 1; x < s.len; x++ {
			for y := x; y > 0 && less(y, y-1); y-- {
				p, q := it.elemPtr(el, s, y), it.elemPtr(el, s, y-1)
				t := it.load(el, p)
				it.store(el, p, it.load(el, q))
				it.store(el, q, t)
			}
		}
		return V{}
	}
	impure("sort.Slice", sortSlice)
	impure("sort.SliceStable", sortSlice)

	// ---- misc
	impure("os.Exit", func(it *Interp, a []V) V { panic(pathEnd{"exit", ""}) })
	pure("os.Getenv", func(it *Interp, a []V) V { return mkStr("") })
	pure("(*internal/godebug.Setting).Value", func(it *Interp, a []V) V { return mkStr("") })
	pure("(*internal/godebug.Setting).IncNonDefault", nop)
	pure("internal/godebug.New", func(it *Interp, a []V) V { return V{x: &Agg{cells: make([]V, 8), n: 8}} })
	pure("runtime.FuncForPC", nop)
	pure("unsafe.Sizeof", nop)
	initFmt()
	initOS()
}

func (it *Interp) deepEq(t types.Type, a, b V, depth int) *Term {
	if depth > 50 {
		panic(unsup("DeepEqual depth"))
	}
	l := lay(t)
	tt := it.tt
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.x == nil) != (b.x == nil) {
			return tt.False
		}
		x, y := it.concSlice(sl(a), l.elem.size), it.concSlice(sl(b), l.elem.size)
		if x.len != y.len {
			return tt.False
		}
		r := tt.True
		for i := 0; i < x.len && !r.isFalse(); i++ {
			r = tt.And(r, it.deepEq(u.Elem(), it.elemAt(l.elem, x, i), it.elemAt(l.elem, y, i), depth+1))
		}
		return r
	case *types.Struct:
		r := tt.True
		aa, ba := a.x.(*Agg), b.x.(*Agg)
		for i, f := range l.flds {
			r = tt.And(r, it.deepEq(u.Field(i).Type(), it.load(f, V{x: aa, n: uint64(l.offs[i])}), it.load(f, V{x: ba, n: uint64(l.offs[i])}), depth+1))
		}
		return r
	case *types.Array:
		r := tt.True
		aa, ba := a.x.(*Agg), b.x.(*Agg)
		for i := 0; i < l.n; i++ {
			o := V{x: aa, n: uint64(i * l.elem.size)}
			p := V{x: ba, n: uint64(i * l.elem.size)}
			r = tt.And(r, it.deepEq(u.Elem(), it.load(l.elem, o), it.load(l.elem, p), depth+1))
		}
		return r
	case *types.Pointer:
		if a.x == nil || b.x == nil {
			return tt.Bool(a.x == nil && b.x == nil)
		}
		el := lay(u.Elem())
		return it.deepEq(u.Elem(), it.load(el, a), it.load(el, b), depth+1)
	case *types.Interface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil || ib == nil {
			return tt.Bool(ia == nil && ib == nil)
		}
		if !types.Identical(ia.t, ib.t) {
			return tt.False
		}
		return it.deepEq(ia.t, ia.v, ib.v, depth+1)
	case *types.Map:
		ma, _ := a.x.(*MapV)
		mb, _ := b.x.(*MapV)
		if ma == nil || mb == nil {
			return tt.Bool(ma == nil && mb == nil)
		}
		it.mapNormalize(u, ma)
		it.mapNormalize(u, mb)
		la, lb := it.mapLen(u, ma), it.mapLen(u, mb)
		if la.n != lb.n {
			return tt.False
		}
		r := tt.True
		for i := range ma.keys {
			if !ma.live[i] {
				continue
			}
			v, ok := it.mapGet(u, lay(u.Elem()), mb, ma.keys[i])
			r = tt.And(r, tt.And(ok, it.deepEq(u.Elem(), ma.vals[i], v, depth+1)))
		}
		return r
	case *types.Signature:
		return tt.Bool(a.x == nil && b.x == nil)
	}
	return it.eqV(t, a, b)
}

func (it *Interp) errorsIs(e, target V) bool {
	ti, _ := target.x.(*Iface)
	for depth := 0; depth < 100; depth++ {
		i, _ := e.x.(*Iface)
		if i == nil || ti == nil {
			return i == nil && ti == nil
		}
		if types.Comparable(ti.t) && types.Identical(i.t, ti.t) && it.branchT(it.eqV(i.t, i.v, ti.v)) {
			return true
		}
		if f := it.P.lookupMethod(i.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if it.branchT(it.boolTerm(it.call(f, []V{i.v, target}, nil))) {
				return true
			}
		}
		f := it.P.lookupMethod(i.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		r := it.call(f, []V{i.v}, nil)
		if kindOf(f.Signature.Results().At(0).Type()).cls == kSlice {
			s := sl(r)
			for k := 0; k < s.len; k++ {
				if it.errorsIs(it.get(s.a, s.off+k), target) {
					return true
				}
			}
			return false
		}
		if r.x == nil {
			return false
		}
		e = r
	}
	return false
}

func (it *Interp) conStr(v V) string {
	v = it.forceStr(v)
	if s, ok := v.x.(string); ok {
		return s
	}
	// case split on every symbolic byte
	x := v.x.(*SymStr)
	b := append([]byte{}, x.c...)
	for i, t := range x.s {
		if t != nil {
			b[i] = byte(it.concretize(t))
		}
	}
	return string(b)
}

func vclean(p string) string {
	if !filepath.IsAbs(p) {
		p = "/cwd/" + p
	}
	return filepath.Clean(p)
}

var _ = fmt.Sprint
var _ = os.Args
