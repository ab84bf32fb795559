package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow exceptions of the interpreter

type TPanic struct { // a panic of the interpreted program
	v   V
	msg string
	rt  bool
}
type specFail struct{ why string } // speculation not possible here
type unsupErr string               // construct the engine does not encode
type pathEnd struct {
	kind string
	msg  string
}

func unsup(s string) unsupErr { return unsupErr(s) }

type undoRec struct {
	a   *Agg
	i   int
	old V
}
type undoLog struct{ log []undoRec }

type deferRec struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

type Frame struct {
	fn       *Fn
	regs     []V
	defers   []deferRec
	pan      *TPanic
	recov    bool
	caller   *Frame
	deferred *Frame // frame whose deferred call this is
}

type methKey struct {
	t types.Type
	m *types.Func
}

type Interp struct {
	asserting bool
	P         *Prog
	tt        *TermTab
	sol       *Solver
	sol2      *Solver
	undo      *undoLog

	// speculation
	guard     *Term
	spec      int
	specSteps int
	specDepth int
	deferFor  *Frame
	specBad   map[specKey]int
	specGood  map[specKey]int

	// globals
	gl     map[*ssa.Global]*Agg // package-level state of the code under test (per path)
	slib   map[*ssa.Global]*Agg // library package state (per worker)
	sinit  map[*ssa.Package]bool
	libRun int
	initOf *ssa.Function

	meth map[methKey]*ssa.Function
	impl map[[2]types.Type]bool

	// path
	steps, maxSteps int64
	depth, maxDepth int
	arena           []V
	ap              int
	p               *Path
	cur             *Frame
	x               *Explorer
	vfs             *VFS
	stdout          []V
	names           map[string]int
	cover           map[*ssa.Function]int
	lastPos         token.Pos
	growCache       map[int]int
}

func newInterp(P *Prog, x *Explorer) *Interp {
	it := &Interp{P: P, x: x, tt: newTermTab()}
	it.slib = map[*ssa.Global]*Agg{}
	it.sinit = map[*ssa.Package]bool{}
	it.meth = map[methKey]*ssa.Function{}
	it.impl = map[[2]types.Type]bool{}
	it.cover = map[*ssa.Function]int{}
	it.growCache = map[int]int{}
	it.arena = make([]V, 1<<20)
	return it
}

func (it *Interp) fail(why string) {
	panic(specFail{why})
}

// rtPanic raises a Go run-time error in the interpreted program.
func (it *Interp) rtPanic(msg string) {
	if it.spec > 0 {
		it.fail("panic: " + msg)
	}
	panic(&TPanic{v: V{x: &Iface{t: it.P.rtErr, v: mkStr(msg)}}, msg: msg, rt: true})
}

// mustNot raises the run-time panic when c holds (forking on it).
func (it *Interp) mustNot(c *Term, msg string) {
	if c.isFalse() {
		return
	}
	if c.isTrue() {
		it.rtPanic(msg)
	}
	if it.spec > 0 {
		if it.provable(it.tt.Not(c)) {
			return
		}
		it.fail("may panic: " + msg)
	}
	if it.branch(c) {
		it.rtPanic(msg)
	}
}

// ---- globals

func (it *Interp) globalPtr(g *ssa.Global) V {
	if it.P.isRepo(g.Pkg) {
		a := it.gl[g]
		if a == nil {
			a = newAgg(lay(g.Type().Underlying().(*types.Pointer).Elem()), 1)
			it.gl[g] = a
			it.P.embedded(it, g, a)
		}
		return V{x: a}
	}
	a := it.slib[g]
	if a == nil {
		a = newAgg(lay(g.Type().Underlying().(*types.Pointer).Elem()), 1)
		it.slib[g] = a
		if modelGlobal(it, g, a) {
			return V{x: a}
		}
	}
	if !it.sinit[g.Pkg] {
		it.sinit[g.Pkg] = true
		if noInit[g.Pkg.Pkg.Path()] {
			return V{x: a}
		}
		it.libInit(g.Pkg)
	}
	return V{x: a}
}

func (it *Interp) libInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	su, sg, ss := it.undo, it.guard, it.spec
	it.undo, it.guard, it.spec = nil, nil, 0
	sst := it.steps
	it.libRun++
	defer func() {
		it.libRun--
		it.steps = sst
		it.undo, it.guard, it.spec = su, sg, ss
	}()
	it.initOf = f
	it.call(f, nil, nil)
}

// ---- values

func (it *Interp) val(fr *Frame, o *Opnd) V {
	switch o.k {
	case oReg:
		return fr.regs[o.r]
	case oConst:
		return o.v
	case oGlobal:
		return it.globalPtr(o.g)
	}
	return V{x: newAgg(o.l, 1)}
}

// ---- loads and stores

func (it *Interp) load(l *Layout, p V) V {
	switch x := p.x.(type) {
	case nil:
		it.rtPanic("invalid memory address or nil pointer dereference")
	case *Agg:
		if l.agg {
			return V{x: it.snapshot(l, x, int(p.n))}
		}
		return it.get(x, int(p.n))
	case *SymPtr:
		return it.loadSym(l, x)
	case unsupErr:
		panic(x)
	}
	panic(fmt.Sprintf("load from %T", p.x))
}

func (it *Interp) idxCond(sp *SymPtr, k int) *Term {
	return it.tt.Eq(sp.idx, it.tt.Const(uint64(k), 64))
}

func (sp *SymPtr) limit() int {
	c := sp.count
	if sp.idx.umax < uint64(c) {
		c = int(sp.idx.umax) + 1
	}
	return c
}

const muxMax = 1100

func (it *Interp) loadSym(l *Layout, sp *SymPtr) V {
	if sp.a.arr != nil {
		if l.agg {
			r := newAgg(l, 1)
			for k := 0; k < l.size; k++ {
				it.rawSet(r, k, tv(it.selSym(sp, k)))
			}
			return V{x: r}
		}
		return tv(it.selSym(sp, 0))
	}
	n := sp.limit()
	if n <= muxMax {
		if !l.agg {
			if r, ok := it.mux(l, sp, 0, n); ok {
				return r
			}
		} else if l.size*n <= 4*muxMax {
			r := newAgg(l, 1)
			if it.muxAgg(l, sp, 0, n, r) {
				return V{x: r}
			}
		}
	}
	return it.load(l, it.concPtr(sp))
}

func (it *Interp) selSym(sp *SymPtr, k int) *Term {
	i := it.tt.Mul(sp.idx, it.tt.Const(uint64(sp.stride), 64))
	i = it.tt.Add(i, it.tt.Const(uint64(sp.base+k), 64))
	return it.sel(sp.a.arr, it.tt.Extract(i, sp.a.iw-1, 0))
}

func (it *Interp) muxAgg(l *Layout, sp *SymPtr, off, n int, r *Agg) bool {
	switch {
	case l.flds != nil:
		for i, f := range l.flds {
			if !it.muxAgg(f, sp, off+l.offs[i], n, r) {
				return false
			}
		}
	case l.agg && l.elem != nil:
		for i := 0; i < l.n; i++ {
			if !it.muxAgg(l.elem, sp, off+i*l.elem.size, n, r) {
				return false
			}
		}
	case l.size == 0:
	default:
		v, ok := it.mux(l, sp, off, n)
		if !ok {
			return false
		}
		it.rawSet(r, off, v)
	}
	return true
}

func (it *Interp) mux(l *Layout, sp *SymPtr, off, n int) (V, bool) {
	acc := it.get(sp.a, sp.base+(n-1)*sp.stride+off)
	for k := n - 2; k >= 0; k-- {
		v := it.get(sp.a, sp.base+k*sp.stride+off)
		var ok bool
		acc, ok = it.mergeV(l, it.idxCond(sp, k), v, acc)
		if !ok {
			return V{}, false
		}
	}
	return acc, true
}

// concPtr resolves a symbolic pointer by case-splitting on its index.
func (it *Interp) concPtr(sp *SymPtr) V {
	k := it.concretize(sp.idx)
	return V{x: sp.a, n: uint64(sp.base + int(k)*sp.stride)}
}

func (it *Interp) store(l *Layout, p V, v V) {
	switch x := p.x.(type) {
	case nil:
		it.rtPanic("invalid memory address or nil pointer dereference")
	case *Agg:
		it.storeAt(l, x, int(p.n), v)
	case *SymPtr:
		it.storeSym(l, x, v)
	case unsupErr:
		panic(x)
	default:
		panic(fmt.Sprintf("store to %T", p.x))
	}
}

// storeAt writes v (of layout l) at cell i, honouring the current guard.
func (it *Interp) storeAt(l *Layout, a *Agg, i int, v V) {
	if l.agg {
		src := v.x.(*Agg)
		if it.guard == nil || a.g == it.guard {
			it.copyCells(a, i, src, 0, l.size)
			return
		}
		it.guardCopy(l, a, i, src, 0)
		return
	}
	if it.guard != nil && a.g != it.guard {
		old := it.get(a, i)
		m, ok := it.mergeV(l, it.guard, v, old)
		if !ok {
			it.fail("store merge")
		}
		v = m
	}
	it.set(a, i, v)
}

func (it *Interp) guardCopy(l *Layout, dst *Agg, di int, src *Agg, si int) {
	switch {
	case l.flds != nil:
		for k, f := range l.flds {
			it.guardCopy(f, dst, di+l.offs[k], src, si+l.offs[k])
		}
	case l.agg && l.elem != nil:
		for k := 0; k < l.n; k++ {
			it.guardCopy(l.elem, dst, di+k*l.elem.size, src, si+k*l.elem.size)
		}
	case l.size == 0:
	default:
		it.storeAt(l, dst, di, it.get(src, si))
	}
}

func (it *Interp) storeSym(l *Layout, sp *SymPtr, v V) {
	if sp.a.arr != nil && !l.agg {
		i := it.tt.Mul(sp.idx, it.tt.Const(uint64(sp.stride), 64))
		i = it.tt.Add(i, it.tt.Const(uint64(sp.base), 64))
		i = it.tt.Extract(i, sp.a.iw-1, 0)
		t := it.term(v, 8)
		if it.guard != nil && sp.a.g != it.guard {
			t = it.tt.Ite(it.guard, t, it.tt.Select(sp.a.arr, i))
		}
		if it.undo != nil {
			it.undo.log = append(it.undo.log, undoRec{sp.a, -1, V{t: sp.a.arr}})
		}
		sp.a.arr = it.tt.Store(sp.a.arr, i, t)
		return
	}
	n := sp.limit()
	if n > muxMax || l.agg {
		if it.spec > 0 {
			it.fail("symbolic store")
		}
		it.store(l, it.concPtr(sp), v)
		return
	}
	// check mergeability first
	nv := make([]V, n)
	for k := 0; k < n; k++ {
		c := it.idxCond(sp, k)
		if it.guard != nil && sp.a.g != it.guard {
			c = it.tt.And(it.guard, c)
		}
		m, ok := it.mergeV(l, c, v, it.get(sp.a, sp.base+k*sp.stride))
		if !ok {
			if it.spec > 0 {
				it.fail("symbolic store")
			}
			it.store(l, it.concPtr(sp), v)
			return
		}
		nv[k] = m
	}
	for k := 0; k < n; k++ {
		it.set(sp.a, sp.base+k*sp.stride, nv[k])
	}
}

// ---- merging

// mergeV returns ite(c, a, b) at leaf or aggregate layout l.
func (it *Interp) mergeV(l *Layout, c *Term, a, b V) (V, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	switch l.ki.cls {
	case kInt:
		if a.t == nil && b.t == nil && a.n == b.n {
			return a, true
		}
		return tv(it.tt.Ite(c, it.term(a, l.ki.w), it.term(b, l.ki.w))), true
	case kBool:
		if a.t == nil && b.t == nil && a.n == b.n {
			return a, true
		}
		return tv(it.tt.Ite(c, it.boolTerm(a), it.boolTerm(b))), true
	case kFloat:
		return a, a.n == b.n
	case kString:
		return it.mergeStr(c, a, b)
	case kPtr, kMap, kFunc, kRef:
		if a.x == b.x && a.n == b.n {
			return a, true
		}
		if sa, ok := a.x.(*SymPtr); ok {
			if sb, ok := b.x.(*SymPtr); ok && *sa == *sb {
				return a, true
			}
		}
		if fa, ok := a.x.(*Agg); ok {
			if fb, ok := b.x.(*Agg); ok && fa == fb {
				return a, a.n == b.n
			}
		}
		return V{}, false
	case kSlice:
		if a.x == nil && b.x == nil {
			return a, true
		}
		sa, _ := a.x.(*SliceV)
		sb, _ := b.x.(*SliceV)
		if sa != nil && sb != nil && *sa == *sb {
			return a, true
		}
		if sa != nil && sb != nil && sa.a == sb.a && sa.off == sb.off && sa.soff == sb.soff {
			r := &SliceV{a: sa.a, off: sa.off, soff: sa.soff}
			r.len, r.cap = sa.len, sa.cap
			r.slen = it.tt.Ite(c, it.lenT(sa), it.lenT(sb))
			r.scap = it.tt.Ite(c, it.capT(sa), it.capT(sb))
			normSlice(r)
			return V{x: r}, true
		}
		return V{}, false
	case kIface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil && ib == nil {
			return V{}, true
		}
		if ia == nil || ib == nil {
			return V{}, false
		}
		if ia == ib {
			return a, true
		}
		if !types.Identical(ia.t, ib.t) {
			return V{}, false
		}
		v, ok := it.mergeV(lay(ia.t), c, ia.v, ib.v)
		if !ok {
			return V{}, false
		}
		return V{x: &Iface{ia.t, v}}, true
	case kAgg:
		r := newAgg(l, 1)
		if !it.mergeAgg(l, c, a.x.(*Agg), b.x.(*Agg), 0, r) {
			return V{}, false
		}
		return V{x: r}, true
	case kTuple:
		ta, tb := a.x.([]V), b.x.([]V)
		tt := l.t.(*types.Tuple)
		r := make([]V, len(ta))
		for i := range ta {
			v, ok := it.mergeV(lay(tt.At(i).Type()), c, ta[i], tb[i])
			if !ok {
				return V{}, false
			}
			r[i] = v
		}
		return V{x: r}, true
	}
	return V{}, false
}

func (it *Interp) mergeAgg(l *Layout, c *Term, a, b *Agg, off int, r *Agg) bool {
	switch {
	case l.flds != nil:
		for i, f := range l.flds {
			if !it.mergeAgg(f, c, a, b, off+l.offs[i], r) {
				return false
			}
		}
	case l.agg && l.elem != nil:
		for i := 0; i < l.n; i++ {
			if !it.mergeAgg(l.elem, c, a, b, off+i*l.elem.size, r) {
				return false
			}
		}
	case l.size == 0:
	default:
		v, ok := it.mergeV(l, c, it.get(a, off), it.get(b, off))
		if !ok {
			return false
		}
		it.rawSet(r, off, v)
	}
	return true
}

const unionMax = 40

func strAlts(v V) ([]strAlt, bool) {
	switch x := v.x.(type) {
	case nil:
		return []strAlt{{nil, ""}}, true
	case string:
		return []strAlt{{nil, x}}, true
	case *UnionStr:
		return x.alts, true
	}
	return nil, false
}

func (it *Interp) mergeStr(c *Term, a, b V) (V, bool) {
	if la, ok := a.x.(*LazyStr); ok {
		if lb, ok := b.x.(*LazyStr); ok && la == lb {
			return a, true
		}
		if !la.ok {
			return V{}, false
		}
		a = la.v
	}
	if lb, ok := b.x.(*LazyStr); ok {
		if !lb.ok {
			return V{}, false
		}
		b = lb.v
	}
	if sa, ok := concStr(a); ok {
		if sb, ok := concStr(b); ok && sa == sb {
			return a, true
		}
	}
	_, ua := a.x.(*UnionStr)
	_, ub := b.x.(*UnionStr)
	if !ua && !ub {
		sa, oka := symBytes(a)
		sb, okb := symBytes(b)
		if oka && okb && len(sa.c) == len(sb.c) && (sa.s != nil || sb.s != nil) {
			n := len(sa.c)
			rc, rs := make([]byte, n), make([]*Term, n)
			for i := 0; i < n; i++ {
				rs[i] = it.tt.Ite(c, it.byteTerm(sa.c, sa.s, i), it.byteTerm(sb.c, sb.s, i))
			}
			return mkSymStr(rc, rs), true
		}
	}
	aa, oka := strAlts(a)
	ba, okb := strAlts(b)
	if !oka || !okb || len(aa)+len(ba) > unionMax {
		return V{}, false
	}
	u := &UnionStr{}
	add := func(g *Term, s string) {
		if g.isFalse() {
			return
		}
		for i := range u.alts {
			if u.alts[i].s == s {
				u.alts[i].c = it.tt.Or(u.alts[i].c, g)
				return
			}
		}
		u.alts = append(u.alts, strAlt{g, s})
	}
	for _, x := range aa {
		g := c
		if x.c != nil {
			g = it.tt.And(c, x.c)
		}
		add(g, x.s)
	}
	nc := it.tt.Not(c)
	for _, x := range ba {
		g := nc
		if x.c != nil {
			g = it.tt.And(nc, x.c)
		}
		add(g, x.s)
	}
	if len(u.alts) == 1 {
		return mkStr(u.alts[0].s), true
	}
	return V{x: u}, true
}

func symBytes(v V) (*SymStr, bool) {
	switch x := v.x.(type) {
	case nil:
		return &SymStr{}, true
	case string:
		return &SymStr{c: []byte(x)}, true
	case *SymStr:
		return x, true
	}
	return nil, false
}

// ---- slices

func (it *Interp) lenT(s *SliceV) *Term {
	if s.slen != nil {
		return s.slen
	}
	return it.tt.Const(uint64(s.len), 64)
}
func (it *Interp) capT(s *SliceV) *Term {
	if s.scap != nil {
		return s.scap
	}
	return it.tt.Const(uint64(s.cap), 64)
}
func (it *Interp) offT(s *SliceV) *Term {
	if s.soff != nil {
		return s.soff
	}
	return it.tt.Const(0, 64)
}

func normSlice(s *SliceV) {
	if s.slen != nil && s.slen.op == OConst {
		s.len = int(s.slen.n)
		s.slen = nil
	}
	if s.scap != nil && s.scap.op == OConst {
		s.cap = int(s.scap.n)
		s.scap = nil
	}
}

// concSlice case-splits until offset and length are concrete.
func (it *Interp) concSlice(s *SliceV, esz int) *SliceV {
	if s.soff == nil && s.slen == nil && s.scap == nil {
		return s
	}
	r := *s
	if r.soff != nil {
		k := it.concretize(r.soff)
		r.off += int(k) * esz
		r.soff = nil
	}
	if r.slen != nil {
		r.len = int(it.concretize(r.slen))
		r.slen = nil
	}
	if r.scap != nil {
		r.cap = int(it.concretize(r.scap))
		r.scap = nil
	}
	return &r
}

func sl(v V) *SliceV {
	if v.x == nil {
		return &SliceV{a: emptyAgg}
	}
	return v.x.(*SliceV)
}

var emptyAgg = &Agg{cells: []V{}}

// elemAt returns element i of a concrete-offset slice.
func (it *Interp) elemAt(l *Layout, s *SliceV, i int) V {
	return it.load(l, it.elemPtr(l, s, i))
}

func (it *Interp) elemPtr(l *Layout, s *SliceV, i int) V {
	if s.soff != nil {
		return it.mkSymPtr(s.a, s.off, it.tt.Add(s.soff, it.tt.Const(uint64(i), 64)), l.size, it.spanOf(s, l))
	}
	return V{x: s.a, n: uint64(s.off + i*l.size)}
}

func (it *Interp) spanOf(s *SliceV, l *Layout) int {
	if l.size == 0 {
		return 1
	}
	return (s.a.n - s.off) / l.size
}

func (it *Interp) mkSymPtr(a *Agg, base int, idx *Term, stride, count int) V {
	if idx.op == OConst {
		return V{x: a, n: uint64(base + int(idx.n)*stride)}
	}
	return V{x: &SymPtr{a, base, idx, stride, count}}
}

func (it *Interp) mkSlice(l *Layout, n, c int) V {
	a := newAgg(l, c)
	a.g = it.guard
	return V{x: &SliceV{a: a, len: n, cap: c}}
}

func bytesV(b []byte) V {
	return V{x: &SliceV{a: &Agg{n: len(b), conc: b}, len: len(b), cap: len(b)}}
}

func (it *Interp) bytesFromStr(v V) V {
	c, s := it.strCells(v)
	a := &Agg{n: len(c), conc: append([]byte{}, c...), g: it.guard}
	for _, t := range s {
		if t != nil {
			a.sym = append([]*Term{}, s...)
			break
		}
	}
	return V{x: &SliceV{a: a, len: len(c), cap: len(c)}}
}

func (it *Interp) strFromSlice(v V) V {
	if v.x == nil {
		return V{}
	}
	s := it.concSliceKeepOff(v.x.(*SliceV), 1)
	if s.soff == nil {
		return it.strFromAgg(s.a, s.off, s.len)
	}
	c := make([]byte, s.len)
	ts := make([]*Term, s.len)
	for i := range ts {
		x := it.elemAt(byteLay, s, i)
		if x.t != nil {
			ts[i] = x.t
		} else {
			c[i] = byte(x.n)
		}
	}
	return mkSymStr(c, ts)
}

// concSliceKeepOff makes the length concrete; a symbolic offset is kept if
// the object is an SMT array.
func (it *Interp) concSliceKeepOff(s *SliceV, esz int) *SliceV {
	if s.soff == nil || s.a.arr != nil {
		if s.slen == nil {
			return s
		}
		r := *s
		if r.slen != nil {
			r.len = int(it.concretize(r.slen))
			r.slen = nil
		}
		return &r
	}
	return it.concSlice(s, esz)
}

var byteLay = &Layout{t: types.Typ[types.Uint8], size: 1, bytes: true, ki: KI{kInt, 8, false}}
var boolLay = &Layout{t: types.Typ[types.Bool], size: 1, ki: KI{cls: kBool}}
var strLay = &Layout{t: types.Typ[types.String], size: 1, ki: KI{cls: kString}}

// copySlice implements copy(dst, src) for element layout l and returns n.
func (it *Interp) copySlice(l *Layout, d, s *SliceV) V {
	d = it.concSliceKeepOff(d, l.size)
	s = it.concSliceKeepOff(s, l.size)
	n := d.len
	if s.len < n {
		n = s.len
	}
	if n == 0 {
		return V{}
	}
	if d.soff == nil && s.soff == nil && (it.guard == nil || d.a.g == it.guard) {
		it.copyCells(d.a, d.off, s.a, s.off, n*l.size)
		return V{n: uint64(n)}
	}
	tmp := make([]V, n)
	for i := range tmp {
		tmp[i] = it.elemAt(l, s, i)
	}
	for i := range tmp {
		it.store(l, it.elemPtr(l, d, i), tmp[i])
	}
	return V{n: uint64(n)}
}

func (it *Interp) roundCap(mem int) int {
	if r, ok := it.growCache[mem]; ok {
		return r
	}
	r := cap(append([]byte(nil), make([]byte, mem)...))
	it.growCache[mem] = r
	return r
}

func (it *Interp) growCap(old, need int, l *Layout) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := int(it.P.sizeof(l.t))
	if es == 0 {
		return need
	}
	return it.roundCap(nc*es) / es
}

func (it *Interp) appendSlice(l *Layout, dv V, src *SliceV, n int) V {
	if n == 0 {
		return dv
	}
	d := sl(dv)
	if d.slen != nil || d.soff != nil {
		d = it.concSlice(d, l.size)
	}
	if d.len+n <= d.cap {
		if it.guard != nil && d.a.g != it.guard {
			it.fail("append in place")
		}
		r := &SliceV{a: d.a, off: d.off, len: d.len + n, cap: d.cap}
		it.copySlice(l, &SliceV{a: d.a, off: d.off + d.len*l.size, len: n, cap: n}, src)
		return V{x: r}
	}
	nc := it.growCap(d.cap, d.len+n, l)
	a := newAgg(l, nc)
	a.g = it.guard
	if it.undo != nil {
		u := it.undo
		it.undo = nil
		it.copyCells(a, 0, d.a, d.off, d.len*l.size)
		it.undo = u
	} else {
		it.copyCells(a, 0, d.a, d.off, d.len*l.size)
	}
	it.copySlice(l, &SliceV{a: a, off: d.len * l.size, len: n, cap: n}, src)
	return V{x: &SliceV{a: a, len: d.len + n, cap: nc}}
}

// ---- calls

func (it *Interp) call(f *ssa.Function, args []V, env []V) V {
	fn := it.P.fn(f)
	if fn.intr != nil {
		if r, ok := fn.intr(it, fn, args); ok {
			return r
		}
	}
	if !fn.repo && f.Synthetic == "package initializer" {
		// libraries are initialised when their state is first used
		if it.initOf != f {
			return V{}
		}
		it.initOf = nil
	}
	if len(fn.blocks) == 0 {
		panic(unsup("no body: " + f.String()))
	}
	it.depth++
	if it.depth > it.maxDepth {
		if it.spec > 0 {
			it.depth--
			it.fail("depth")
		}
		panic(pathEnd{"depth", f.String()})
	}
	if it.spec > 0 && it.depth > it.specDepth+12 {
		it.depth--
		it.fail("spec depth")
	}
	if fn.repo {
		it.cover[f]++
	}
	if it.ap+fn.nregs > len(it.arena) {
		na := make([]V, 2*len(it.arena)+fn.nregs)
		// frames keep their old backing; only new frames use the new arena
		it.arena = na
		it.ap = 0
	}
	saveAp, saveArena := it.ap, it.arena
	regs := it.arena[it.ap : it.ap+fn.nregs]
	it.ap += fn.nregs
	for i := range regs {
		regs[i] = V{}
	}
	fr := &Frame{fn: fn, regs: regs, caller: it.cur}
	for i, r := range fn.params {
		regs[r] = args[i]
	}
	for i, r := range fn.free {
		regs[r] = env[i]
	}
	it.cur = fr
	var res V
	if fn.hasDefer {
		res = it.runDefer(fr)
	} else {
		res = it.exec(fr, fn.blocks[0], 0, false)
	}
	it.cur = fr.caller
	it.depth--
	it.ap = saveAp
	it.arena = saveArena
	return res
}

func (it *Interp) runDefer(fr *Frame) (res V) {
	if it.spec > 0 {
		it.fail("defer in speculation")
	}
	ap, ar, depth := it.ap, it.arena, it.depth
	run := func() (done bool) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*TPanic)
				if !ok {
					panic(r)
				}
				it.ap, it.arena, it.depth, it.cur = ap, ar, depth, fr
				fr.pan = tp
				fr.recov = false
				done = false
			}
		}()
		res = it.exec(fr, fr.fn.blocks[0], 0, false)
		return true
	}
	if run() {
		return res
	}
	// panicking: run deferred calls
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*TPanic)
					if !ok {
						panic(r)
					}
					it.ap, it.arena, it.depth, it.cur = ap, ar, depth, fr
					fr.pan = tp
					fr.recov = false
				}
			}()
			it.callDeferred(fr, d)
		}()
		if fr.recov {
			fr.pan = nil
			fr.recov = false
			// run remaining deferred calls normally via the recover block
			if fr.fn.rec != nil {
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					it.callDeferred(fr, d)
				}
				return it.exec(fr, fr.fn.rec, 0, false)
			}
			return it.zeroResults(fr.fn.f.Signature.Results())
		}
	}
	panic(fr.pan)
}

func (it *Interp) zeroResults(t *types.Tuple) V {
	switch t.Len() {
	case 0:
		return V{}
	case 1:
		return it.zero(lay(t.At(0).Type()))
	}
	r := make([]V, t.Len())
	for i := range r {
		r[i] = it.zero(lay(t.At(i).Type()))
	}
	return V{x: r}
}

func (it *Interp) callDeferred(fr *Frame, d deferRec) {
	save := it.deferFor
	it.deferFor = fr
	defer func() { it.deferFor = save }()
	if b, ok := d.fn.x.(*ssa.Builtin); ok {
		it.builtin(b, d.args, d.call, nil)
		return
	}
	it.callV(d.fn, d.args)
}

func (it *Interp) callV(f V, args []V) V {
	switch x := f.x.(type) {
	case *ssa.Function:
		return it.call(x, args, nil)
	case *Closure:
		if x.host != nil {
			return x.host(it, args)
		}
		return it.call(x.fn, args, x.env)
	case nil:
		it.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(unsup(fmt.Sprintf("call of %T", f.x)))
}

func (it *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := it.meth[k]; ok {
		return f
	}
	f := it.P.lookupMethod(t, m.Pkg(), m.Name())
	it.meth[k] = f
	return f
}

func (it *Interp) invoke(recv V, m *types.Func, args []V) V {
	i, _ := recv.x.(*Iface)
	if i == nil {
		it.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
	}
	f := it.method(i.t, m)
	if f == nil {
		panic(unsup("method " + m.String() + " of " + i.t.String()))
	}
	return it.call(f, append([]V{i.v}, args...), nil)
}

// callMethod invokes a named method on an interface value if it exists.
func (it *Interp) callMethod(i *Iface, name string) (V, bool) {
	f := it.P.lookupMethod(i.t, nil, name)
	if f == nil {
		return V{}, false
	}
	return it.call(f, []V{i.v}, nil), true
}

func (it *Interp) doCall(fr *Frame, I *Ins) V {
	c := I.call
	if c.IsInvoke() {
		recv := it.val(fr, &I.a)
		args := make([]V, len(I.args))
		for k := range I.args {
			args[k] = it.val(fr, &I.args[k])
		}
		return it.invoke(recv, c.Method, args)
	}
	args := make([]V, len(I.args))
	for k := range I.args {
		args[k] = it.val(fr, &I.args[k])
	}
	fv := it.val(fr, &I.a)
	if b, ok := fv.x.(*ssa.Builtin); ok {
		return it.builtin(b, args, c, fr)
	}
	return it.callV(fv, args)
}

// ---- the main loop

func (it *Interp) exec(fr *Frame, blk *Blk, pos int, skipPhi bool) V {
	for {
		if !skipPhi && len(blk.phis) > 0 {
			it.phis(fr, blk, pos)
		}
		skipPhi = false
		var next *Blk
		for i := range blk.ins {
			I := &blk.ins[i]
			it.steps++
			if it.steps&0xffff == 0 {
				it.checkStop()
			}
			if it.steps > it.maxSteps {
				it.lastPos = I.in.Pos()
				if it.spec > 0 {
					it.fail("steps")
				}
				panic(pathEnd{"steps", fr.fn.f.String()})
			}
			if it.spec > 0 {
				it.specSteps--
				if it.specSteps < 0 {
					it.fail("spec steps")
				}
			}
			switch I.op {
			case opJump:
				next, pos = blk.succ[0], blk.succPos[0]
			case opIf:
				c := it.val(fr, &I.a)
				if c.t == nil {
					k := 1
					if c.n != 0 {
						k = 0
					}
					next, pos = blk.succ[k], blk.succPos[k]
				} else {
					var ret V
					var isRet bool
					next, pos, skipPhi, ret, isRet = it.symIf(fr, blk, c.t)
					if isRet {
						return ret
					}
				}
			case opReturn:
				return it.retVal(fr, I)
			case opPanic:
				v := it.val(fr, &I.a)
				if it.spec > 0 {
					it.fail("panic")
				}
				panic(&TPanic{v: v, msg: it.panicMsg(v)})
			default:
				it.step(fr, I)
			}
		}
		if next == nil {
			panic("block without terminator")
		}
		blk = next
	}
}

func (it *Interp) panicMsg(v V) string {
	i, _ := v.x.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := i.v.x.(string); ok {
		return s
	}
	return i.t.String()
}

func (it *Interp) retVal(fr *Frame, I *Ins) V {
	switch len(I.args) {
	case 0:
		return V{}
	case 1:
		return it.val(fr, &I.args[0])
	}
	r := make([]V, len(I.args))
	for k := range I.args {
		r[k] = it.val(fr, &I.args[k])
	}
	return V{x: r}
}

func (it *Interp) phis(fr *Frame, blk *Blk, pos int) {
	if len(blk.phis) == 1 {
		p := &blk.phis[0]
		fr.regs[p.dst] = it.val(fr, &p.edges[pos])
		return
	}
	var buf [16]V
	tmp := buf[:0]
	for i := range blk.phis {
		tmp = append(tmp, it.val(fr, &blk.phis[i].edges[pos]))
	}
	for i := range blk.phis {
		fr.regs[blk.phis[i].dst] = tmp[i]
	}
}

func (it *Interp) step(fr *Frame, I *Ins) {
	regs := fr.regs
	switch I.op {
	case opNop:
	case opBin:
		regs[I.dst] = it.binop(I, it.val(fr, &I.a), it.val(fr, &I.b))
	case opUn:
		regs[I.dst] = it.unop(I, it.val(fr, &I.a))
	case opLoad:
		regs[I.dst] = it.load(I.l, it.val(fr, &I.a))
	case opStore:
		it.store(I.l, it.val(fr, &I.a), it.val(fr, &I.b))
	case opAlloc:
		a := newAgg(I.l, 1)
		a.g = it.guard
		regs[I.dst] = V{x: a}
	case opCall:
		v := it.doCall(fr, I)
		regs[I.dst] = v
	case opChangeType:
		regs[I.dst] = it.val(fr, &I.a)
	case opChangeIface:
		regs[I.dst] = it.val(fr, &I.a)
	case opConvert:
		regs[I.dst] = it.convert(I, it.val(fr, &I.a))
	case opMakeIface:
		regs[I.dst] = V{x: &Iface{I.l.t, it.val(fr, &I.a)}}
	case opExtract:
		regs[I.dst] = it.val(fr, &I.a).x.([]V)[I.n]
	case opField:
		a := it.val(fr, &I.a).x.(*Agg)
		if I.l.agg {
			regs[I.dst] = V{x: it.snapshot(I.l, a, I.n)}
		} else {
			regs[I.dst] = it.get(a, I.n)
		}
	case opFieldAddr:
		p := it.val(fr, &I.a)
		switch x := p.x.(type) {
		case nil:
			it.rtPanic("invalid memory address or nil pointer dereference")
		case *Agg:
			regs[I.dst] = V{x: x, n: p.n + uint64(I.n)}
		case *SymPtr:
			q := *x
			q.base += I.n
			regs[I.dst] = V{x: &q}
		default:
			panic(unsup(fmt.Sprintf("field of %T", p.x)))
		}
	case opIndex:
		regs[I.dst] = it.index(I, it.val(fr, &I.a), it.val(fr, &I.b))
	case opIndexAddr:
		regs[I.dst] = it.indexAddr(I, it.val(fr, &I.a), it.val(fr, &I.b))
	case opLookup:
		regs[I.dst] = it.lookup(I, it.val(fr, &I.a), it.val(fr, &I.b))
	case opMakeClosure:
		c := &Closure{fn: it.val(fr, &I.a).x.(*ssa.Function)}
		for k := range I.args {
			c.env = append(c.env, it.val(fr, &I.args[k]))
		}
		regs[I.dst] = V{x: c}
	case opMakeMap:
		regs[I.dst] = V{x: newMap()}
	case opMakeSlice:
		n, c := it.concInt(it.val(fr, &I.a), I.in.(*ssa.MakeSlice).Len.Type(), "makeslice: len out of range"), it.concInt(it.val(fr, &I.b), I.in.(*ssa.MakeSlice).Cap.Type(), "makeslice: cap out of range")
		if n < 0 || n > 1<<28 {
			it.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<28 {
			it.rtPanic("makeslice: cap out of range")
		}
		regs[I.dst] = it.mkSlice(I.l, n, c)
	case opMapUpdate:
		if it.spec > 0 {
			it.fail("map update")
		}
		m, _ := it.val(fr, &I.a).x.(*MapV)
		if m == nil {
			it.rtPanic("assignment to entry in nil map")
		}
		it.mapSet(I.l.t.Underlying().(*types.Map), m, it.val(fr, &I.b), it.val(fr, &I.c))
	case opRange:
		regs[I.dst] = it.rangeStart(I, it.val(fr, &I.a))
	case opNext:
		regs[I.dst] = it.next(I, it.val(fr, &I.a))
	case opSlice:
		regs[I.dst] = it.slice(fr, I)
	case opTypeAssert:
		regs[I.dst] = it.typeAssert(I, it.val(fr, &I.a))
	case opDefer:
		d := deferRec{call: I.call}
		for k := range I.args {
			d.args = append(d.args, it.val(fr, &I.args[k]))
		}
		fv := it.val(fr, &I.a)
		if I.call.IsInvoke() {
			i, _ := fv.x.(*Iface)
			if i == nil {
				it.rtPanic("nil interface in defer")
			}
			d.fn = V{x: it.method(i.t, I.call.Method)}
			d.args = append([]V{i.v}, d.args...)
		} else {
			d.fn = fv
		}
		fr.defers = append(fr.defers, d)
	case opRunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			it.callDeferred(fr, d)
		}
	case opSliceToArr:
		v := it.val(fr, &I.a)
		s := sl(v)
		n := I.l.n
		it.mustNot(it.tt.Slt(it.lenT(s), it.tt.Const(uint64(n), 64)), "cannot convert slice to array pointer")
		if v.x == nil {
			regs[I.dst] = V{}
			break
		}
		s = it.concSlice(s, I.l.elem.size)
		regs[I.dst] = V{x: s.a, n: uint64(s.off)}
	default:
		panic(unsup("instruction " + I.in.String()))
	}
}

// concInt makes an integer operand concrete (signed interpretation).
func (it *Interp) concInt(v V, t types.Type, msg string) int {
	ki := kindOf(t)
	n := v.n
	if v.t != nil {
		n = it.concretize(v.t)
	}
	if ki.signed {
		return int(sx(n, ki.w))
	}
	if n > 1<<62 {
		return -1
	}
	return int(n)
}

func (it *Interp) ext64(v V, ki KI) *Term {
	if v.t == nil {
		n := v.n
		if ki.signed {
			n = uint64(sx(n, ki.w))
		}
		return it.tt.Const(n, 64)
	}
	if ki.w == 64 {
		return v.t
	}
	if ki.signed {
		return it.tt.Sext(v.t, 64)
	}
	return it.tt.Zext(v.t, 64)
}

func (it *Interp) indexAddr(I *Ins, x, iv V) V {
	es := I.l.size
	if I.n >= 0 { // pointer to array
		switch p := x.x.(type) {
		case nil:
			it.rtPanic("invalid memory address or nil pointer dereference")
		case *Agg:
			if iv.t == nil {
				i := int64(iv.n)
				if I.ki.signed {
					i = sx(iv.n, I.ki.w)
				}
				if i < 0 || i >= int64(I.n) {
					it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, I.n))
				}
				return V{x: p, n: x.n + uint64(int(i)*es)}
			}
			idx := it.ext64(iv, I.ki)
			it.mustNot(it.tt.Not(it.tt.Ult(idx, it.tt.Const(uint64(I.n), 64))), "index out of range (array)")
			return it.mkSymPtr(p, int(x.n), idx, es, I.n)
		case *SymPtr:
			if iv.t == nil {
				i := int(iv.n)
				if i >= I.n {
					it.rtPanic("index out of range (array)")
				}
				q := *p
				q.base += i * es
				return V{x: &q}
			}
			return it.indexAddr(I, it.concPtr(p), iv)
		}
		panic(unsup(fmt.Sprintf("index of %T", x.x)))
	}
	s := sl(x)
	if iv.t == nil && s.slen == nil {
		i := int64(iv.n)
		if I.ki.signed {
			i = sx(iv.n, I.ki.w)
		}
		if i < 0 || i >= int64(s.len) {
			it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, s.len))
		}
		return it.elemPtr(I.l, s, int(i))
	}
	idx := it.ext64(iv, I.ki)
	it.mustNot(it.tt.Not(it.tt.Ult(idx, it.lenT(s))), "index out of range (slice)")
	cnt := s.len
	if s.slen != nil || s.soff != nil {
		cnt = it.spanOf(s, I.l)
	}
	return it.mkSymPtr(s.a, s.off, it.tt.Add(it.offT(s), idx), es, cnt)
}

func (it *Interp) index(I *Ins, x, iv V) V {
	if I.l.ki.cls == kString {
		return it.strIndex(I, x, iv)
	}
	a := x.x.(*Agg)
	el := I.l.elem
	if iv.t == nil {
		i := int64(iv.n)
		if I.ki.signed {
			i = sx(iv.n, I.ki.w)
		}
		if i < 0 || i >= int64(I.l.n) {
			it.rtPanic("index out of range (array value)")
		}
		return it.load(el, V{x: a, n: uint64(int(i) * el.size)})
	}
	idx := it.ext64(iv, I.ki)
	it.mustNot(it.tt.Not(it.tt.Ult(idx, it.tt.Const(uint64(I.l.n), 64))), "index out of range (array value)")
	return it.load(el, it.mkSymPtr(a, 0, idx, el.size, I.l.n))
}

func (it *Interp) strIndex(I *Ins, x, iv V) V {
	x = it.forceStr(x)
	n := it.strLen(x)
	if iv.t == nil {
		i := int64(iv.n)
		if I.ki.signed {
			i = sx(iv.n, I.ki.w)
		}
		if i < 0 || i >= int64(n) {
			it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return it.strAt(x, int(i))
	}
	idx := it.ext64(iv, I.ki)
	it.mustNot(it.tt.Not(it.tt.Ult(idx, it.tt.Const(uint64(n), 64))), "index out of range (string)")
	c, s := it.strCells(x)
	if n > muxMax {
		return it.strAt(x, int(it.concretize(idx)))
	}
	acc := it.byteTerm(c, s, n-1)
	for k := n - 2; k >= 0; k-- {
		acc = it.tt.Ite(it.tt.Eq(idx, it.tt.Const(uint64(k), 64)), it.byteTerm(c, s, k), acc)
	}
	return tv(acc)
}

func (it *Interp) unop(I *Ins, a V) V {
	switch I.tok {
	case token.NOT:
		if a.t == nil {
			return V{n: 1 - a.n}
		}
		return tv(it.tt.Not(a.t))
	case token.SUB:
		if I.ki.cls == kFloat {
			return fromFloat(-toFloat(a, I.ki), I.ki)
		}
		if a.t == nil {
			return V{n: -a.n & wmask(I.ki.w)}
		}
		return tv(it.tt.Neg(a.t))
	case token.XOR:
		if a.t == nil {
			return V{n: ^a.n & wmask(I.ki.w)}
		}
		return tv(it.tt.Bnot(a.t))
	}
	panic(unsup("unop " + I.tok.String()))
}

func (it *Interp) binop(I *Ins, a, b V) V {
	switch I.ki.cls {
	case kInt:
		if a.t == nil && b.t == nil {
			return it.concBin(I, a.n, b.n)
		}
		return it.symBin(I, a, b)
	case kBool:
		switch I.tok {
		case token.EQL:
			return tv(it.tt.Eq(it.boolTerm(a), it.boolTerm(b)))
		case token.NEQ:
			return tv(it.tt.Not(it.tt.Eq(it.boolTerm(a), it.boolTerm(b))))
		case token.AND, token.LAND:
			return tv(it.tt.And(it.boolTerm(a), it.boolTerm(b)))
		case token.OR, token.LOR:
			return tv(it.tt.Or(it.boolTerm(a), it.boolTerm(b)))
		}
	case kString:
		switch I.tok {
		case token.ADD:
			return it.strConcat(a, b)
		case token.EQL:
			return tv(it.strEq(a, b))
		case token.NEQ:
			return tv(it.tt.Not(it.strEq(a, b)))
		case token.LSS:
			return tv(it.strLess(a, b))
		case token.GTR:
			return tv(it.strLess(b, a))
		case token.LEQ:
			return tv(it.tt.Not(it.strLess(b, a)))
		case token.GEQ:
			return tv(it.tt.Not(it.strLess(a, b)))
		}
	case kFloat:
		x, y := toFloat(a, I.ki), toFloat(b, I.ki)
		switch I.tok {
		case token.ADD:
			return fromFloat(x+y, I.ki)
		case token.SUB:
			return fromFloat(x-y, I.ki)
		case token.MUL:
			return fromFloat(x*y, I.ki)
		case token.QUO:
			return fromFloat(x/y, I.ki)
		case token.EQL:
			return V{n: b2u(x == y)}
		case token.NEQ:
			return V{n: b2u(x != y)}
		case token.LSS:
			return V{n: b2u(x < y)}
		case token.LEQ:
			return V{n: b2u(x <= y)}
		case token.GTR:
			return V{n: b2u(x > y)}
		case token.GEQ:
			return V{n: b2u(x >= y)}
		}
	default:
		switch I.tok {
		case token.EQL:
			return tv(it.eqV(I.l.t, a, b))
		case token.NEQ:
			return tv(it.tt.Not(it.eqV(I.l.t, a, b)))
		}
	}
	panic(unsup("binop " + I.in.String()))
}

func (it *Interp) concBin(I *Ins, x, y uint64) V {
	w := I.ki.w
	m := wmask(w)
	switch I.tok {
	case token.ADD:
		return V{n: (x + y) & m}
	case token.SUB:
		return V{n: (x - y) & m}
	case token.MUL:
		return V{n: (x * y) & m}
	case token.QUO:
		if y == 0 {
			it.rtPanic("integer divide by zero")
		}
		if I.ki.signed {
			if sx(y, w) == -1 {
				return V{n: -x & m}
			}
			return V{n: uint64(sx(x, w)/sx(y, w)) & m}
		}
		return V{n: x / y}
	case token.REM:
		if y == 0 {
			it.rtPanic("integer divide by zero")
		}
		if I.ki.signed {
			if sx(y, w) == -1 {
				return V{}
			}
			return V{n: uint64(sx(x, w)%sx(y, w)) & m}
		}
		return V{n: x % y}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: x ^ y}
	case token.AND_NOT:
		return V{n: x &^ y}
	case token.SHL:
		if I.ki2.signed && sx(y, I.ki2.w) < 0 {
			it.rtPanic("negative shift amount")
		}
		if y >= uint64(w) {
			return V{}
		}
		return V{n: (x << y) & m}
	case token.SHR:
		if I.ki2.signed && sx(y, I.ki2.w) < 0 {
			it.rtPanic("negative shift amount")
		}
		if I.ki.signed {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return V{n: uint64(sx(x, w)>>y) & m}
		}
		if y >= uint64(w) {
			return V{}
		}
		return V{n: x >> y}
	case token.EQL:
		return V{n: b2u(x == y)}
	case token.NEQ:
		return V{n: b2u(x != y)}
	}
	if I.ki.signed {
		p, q := sx(x, w), sx(y, w)
		switch I.tok {
		case token.LSS:
			return V{n: b2u(p < q)}
		case token.LEQ:
			return V{n: b2u(p <= q)}
		case token.GTR:
			return V{n: b2u(p > q)}
		case token.GEQ:
			return V{n: b2u(p >= q)}
		}
	} else {
		switch I.tok {
		case token.LSS:
			return V{n: b2u(x < y)}
		case token.LEQ:
			return V{n: b2u(x <= y)}
		case token.GTR:
			return V{n: b2u(x > y)}
		case token.GEQ:
			return V{n: b2u(x >= y)}
		}
	}
	panic(unsup("binop " + I.in.String()))
}

func (it *Interp) symBin(I *Ins, a, b V) V {
	tt := it.tt
	w := I.ki.w
	if I.tok == token.SHL || I.tok == token.SHR {
		x := it.term(a, w)
		cw := I.ki2.w
		y := it.term(b, cw)
		if I.ki2.signed {
			it.mustNot(tt.Slt(y, tt.Const(0, cw)), "negative shift amount")
		}
		switch {
		case cw < w:
			y = tt.Zext(y, w)
		case cw > w:
			big := tt.Not(tt.Ult(y, tt.Const(uint64(w), cw)))
			y = tt.Ite(big, tt.Const(uint64(w), w), tt.Extract(y, w-1, 0))
		}
		if I.tok == token.SHL {
			return tv(tt.Shl(x, y))
		}
		if I.ki.signed {
			return tv(tt.Ashr(x, y))
		}
		return tv(tt.Lshr(x, y))
	}
	x, y := it.term(a, w), it.term(b, w)
	switch I.tok {
	case token.ADD:
		return tv(tt.Add(x, y))
	case token.SUB:
		return tv(tt.Sub(x, y))
	case token.MUL:
		return tv(tt.Mul(x, y))
	case token.QUO, token.REM:
		it.mustNot(tt.Eq(y, tt.Const(0, w)), "integer divide by zero")
		if I.ki.signed {
			if I.tok == token.QUO {
				return tv(tt.Sdiv(x, y))
			}
			return tv(tt.Srem(x, y))
		}
		if I.tok == token.QUO {
			return tv(tt.Udiv(x, y))
		}
		return tv(tt.Urem(x, y))
	case token.AND:
		return tv(tt.Band(x, y))
	case token.OR:
		return tv(tt.Bor(x, y))
	case token.XOR:
		return tv(tt.Bxor(x, y))
	case token.AND_NOT:
		return tv(tt.Band(x, tt.Bnot(y)))
	case token.EQL:
		return tv(tt.Eq(x, y))
	case token.NEQ:
		return tv(tt.Not(tt.Eq(x, y)))
	case token.LSS:
		if I.ki.signed {
			return tv(tt.Slt(x, y))
		}
		return tv(tt.Ult(x, y))
	case token.GTR:
		if I.ki.signed {
			return tv(tt.Slt(y, x))
		}
		return tv(tt.Ult(y, x))
	case token.LEQ:
		if I.ki.signed {
			return tv(tt.Sle(x, y))
		}
		return tv(tt.Ule(x, y))
	case token.GEQ:
		if I.ki.signed {
			return tv(tt.Sle(y, x))
		}
		return tv(tt.Ule(y, x))
	}
	panic(unsup("binop " + I.in.String()))
}

func (it *Interp) convert(I *Ins, a V) V {
	f, t := I.ki, I.ki2
	switch {
	case f.cls == kInt && t.cls == kInt:
		if a.t == nil {
			n := a.n
			if f.signed {
				n = uint64(sx(n, f.w))
			}
			return V{n: n & wmask(t.w)}
		}
		switch {
		case t.w == f.w:
			return a
		case t.w < f.w:
			return tv(it.tt.Extract(a.t, t.w-1, 0))
		case f.signed:
			return tv(it.tt.Sext(a.t, t.w))
		}
		return tv(it.tt.Zext(a.t, t.w))
	case f.cls == kInt && t.cls == kFloat:
		if a.t != nil {
			a = V{n: it.concretize(a.t)}
		}
		if f.signed {
			return fromFloat(float64(sx(a.n, f.w)), t)
		}
		return fromFloat(float64(a.n), t)
	case f.cls == kFloat && t.cls == kInt:
		x := toFloat(a, f)
		if t.signed {
			return V{n: uint64(int64(x)) & wmask(t.w)}
		}
		return V{n: uint64(x) & wmask(t.w)}
	case f.cls == kFloat && t.cls == kFloat:
		return fromFloat(toFloat(a, f), t)
	case f.cls == kInt && t.cls == kString:
		return it.runeToStr(a, f)
	case f.cls == kSlice && t.cls == kString:
		if I.l.elem.bytes {
			return it.strFromSlice(a)
		}
		s := it.concSlice(sl(a), 1)
		r := mkStr("")
		for i := 0; i < s.len; i++ {
			r = it.strConcat(r, it.runeToStr(it.get(s.a, s.off+i), KI{kInt, 32, true}))
		}
		return r
	case f.cls == kString && t.cls == kSlice:
		el := lay(I.in.(ssa.Value).Type().Underlying().(*types.Slice).Elem())
		if el.bytes {
			return it.bytesFromStr(a)
		}
		var rs []V
		si := &strIter{s: it.forceStr(a)}
		for {
			r, _, ok := it.nextRune(si)
			if !ok {
				break
			}
			rs = append(rs, r)
		}
		return V{x: &SliceV{a: &Agg{n: len(rs), cells: append(make([]V, 0, len(rs)), rs...)}, len: len(rs), cap: len(rs)}}
	case f.cls == kPtr && t.cls == kPtr:
		return a
	case f.cls == kPtr && t.cls == kInt, f.cls == kInt && t.cls == kPtr:
		panic(unsup("pointer/uintptr conversion"))
	case f.cls == t.cls:
		return a
	}
	panic(unsup("convert " + I.in.String()))
}

func (it *Interp) runeToStr(a V, f KI) V {
	if a.t == nil {
		n := int64(a.n)
		if f.signed {
			n = sx(a.n, f.w)
		}
		if n < 0 || n > 0x10ffff {
			return mkStr("\uFFFD")
		}
		return mkStr(string(rune(n)))
	}
	x := it.ext64(a, f)
	tt := it.tt
	if x.umax < 0x80 || it.branch(tt.Ult(x, tt.Const(0x80, 64))) {
		return mkSymStr(make([]byte, 1), []*Term{tt.Extract(x, 7, 0)})
	}
	if x.umax < 0x800 || it.branch(tt.Ult(x, tt.Const(0x800, 64))) {
		hi := tt.Bor(tt.Const(0xC0, 8), tt.Extract(tt.Lshr(x, tt.Const(6, 64)), 7, 0))
		lo := tt.Bor(tt.Const(0x80, 8), tt.Band(tt.Extract(x, 7, 0), tt.Const(0x3f, 8)))
		return mkSymStr(make([]byte, 2), []*Term{hi, lo})
	}
	n := it.concretize(x)
	if n > 0x10ffff {
		return mkStr("\uFFFD")
	}
	return mkStr(string(rune(n)))
}

func (it *Interp) slice(fr *Frame, I *Ins) V {
	x := it.val(fr, &I.a)
	in := I.in.(*ssa.Slice)
	opt := func(o *Opnd, bit int, v ssa.Value) (V, KI, bool) {
		if I.n&bit == 0 {
			return V{}, KI{}, false
		}
		return it.val(fr, o), kindOf(v.Type()), true
	}
	lo, lk, hasLo := opt(&I.b, 1, in.Low)
	hi, hk, hasHi := opt(&I.c, 2, in.High)
	mx, mk, hasMx := opt(&I.d, 4, in.Max)
	tt := it.tt
	if I.l.ki.cls == kString {
		x = it.forceStr(x)
		n := it.strLen(x)
		l, h := 0, n
		if lo.t != nil || hi.t != nil {
			lt, ht := tt.Const(0, 64), tt.Const(uint64(n), 64)
			if hasLo {
				lt = it.ext64(lo, lk)
			}
			if hasHi {
				ht = it.ext64(hi, hk)
			}
			it.mustNot(tt.Not(tt.And(tt.Ule(lt, ht), tt.Ule(ht, tt.Const(uint64(n), 64)))), "slice bounds out of range (string)")
			l, h = int(it.concretize(lt)), int(it.concretize(ht))
			return it.strSlice(x, l, h)
		}
		if hasLo {
			l = int(it.ext64(lo, lk).n)
		}
		if hasHi {
			h = int(it.ext64(hi, hk).n)
		}
		if l < 0 || h < l || h > n {
			it.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return it.strSlice(x, l, h)
	}
	// array pointer or slice
	var s *SliceV
	var el *Layout
	if I.l.ki.cls == kPtr {
		al := lay(in.X.Type().Underlying().(*types.Pointer).Elem())
		el = al.elem
		switch p := x.x.(type) {
		case nil:
			it.rtPanic("invalid memory address or nil pointer dereference")
		case *Agg:
			s = &SliceV{a: p, off: int(x.n), len: al.n, cap: al.n}
		case *SymPtr:
			q := it.concPtr(p)
			s = &SliceV{a: q.x.(*Agg), off: int(q.n), len: al.n, cap: al.n}
		default:
			panic(unsup("slice of pointer"))
		}
	} else {
		el = I.l.elem
		s = sl(x)
		if x.x == nil {
			// slicing nil
			if (!hasLo || lo.t == nil && lo.n == 0) && (!hasHi || hi.t == nil && hi.n == 0) {
				return x
			}
		}
	}
	lt, ht, ct := tt.Const(0, 64), it.lenT(s), it.capT(s)
	if hasLo {
		lt = it.ext64(lo, lk)
	}
	if hasHi {
		ht = it.ext64(hi, hk)
	}
	if hasMx {
		ct = it.ext64(mx, mk)
		it.mustNot(tt.Not(tt.Ule(ct, it.capT(s))), "slice bounds out of range (max)")
	}
	if lt.op == OConst && ht.op == OConst && ct.op == OConst {
		l, h, c := int64(lt.n), int64(ht.n), int64(ct.n)
		if l < 0 || h < l || c < h {
			it.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
		}
		r := &SliceV{a: s.a, off: s.off + int(l)*el.size, len: int(h - l), cap: int(c - l), soff: s.soff}
		return V{x: r}
	}
	it.mustNot(tt.Not(tt.And(tt.Ule(lt, ht), tt.Ule(ht, ct))), "slice bounds out of range")
	r := &SliceV{a: s.a, off: s.off, soff: s.soff}
	if lt.op == OConst {
		r.off += int(lt.n) * el.size
	} else {
		if s.a.arr == nil && it.spanOf(s, el) > muxMax {
			k := it.concretize(lt)
			lt = tt.Const(k, 64)
			r.off += int(k) * el.size
		} else {
			r.soff = tt.Add(it.offT(s), lt)
		}
	}
	r.slen = tt.Sub(ht, lt)
	r.scap = tt.Sub(ct, lt)
	normSlice(r)
	return V{x: r}
}

func (it *Interp) typeAssert(I *Ins, v V) V {
	i, _ := v.x.(*Iface)
	ok := false
	if i != nil {
		if I.l.ki.cls == kIface {
			ok = it.implements(i.t, I.l.t)
		} else {
			ok = types.Identical(i.t, I.l.t)
		}
	}
	var r V
	if ok {
		if I.l.ki.cls == kIface {
			r = v
		} else {
			r = i.v
		}
	} else {
		if !I.ok {
			it.rtPanic("interface conversion: " + I.in.String())
		}
		r = it.zero(I.l)
	}
	if I.ok {
		return V{x: []V{r, {n: b2u(ok)}}}
	}
	return r
}

func (it *Interp) implements(t, iface types.Type) bool {
	k := [2]types.Type{t, iface}
	if r, ok := it.impl[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	it.impl[k] = r
	return r
}

// ---- ranges

func (it *Interp) rangeStart(I *Ins, v V) V {
	if I.l.ki.cls == kString {
		return V{x: &mapIter{str: &strIter{s: it.forceStr(v)}}}
	}
	m, _ := v.x.(*MapV)
	mi := &mapIter{m: m}
	if m != nil {
		it.mapNormalize(I.l.t.Underlying().(*types.Map), m)
		for i := range m.keys {
			mi.order = append(mi.order, i)
		}
		if it.x != nil && it.x.revMaps && len(mi.order) > 1 {
			atomic.StoreInt32(&it.x.rangedMaps, 1)
			for a, b := 0, len(mi.order)-1; a < b; a, b = a+1, b-1 {
				mi.order[a], mi.order[b] = mi.order[b], mi.order[a]
			}
		}
	}
	return V{x: mi}
}

func (it *Interp) nextRune(si *strIter) (V, int, bool) {
	n := it.strLen(si.s)
	if si.pos >= n {
		return V{}, 0, false
	}
	at := si.pos
	b := it.strAt(si.s, at)
	if b.t == nil && b.n < 0x80 {
		si.pos++
		return V{n: b.n}, at, true
	}
	if b.t != nil && (b.t.umax < 0x80 || it.branch(it.tt.Ult(b.t, it.tt.Const(0x80, 8)))) {
		si.pos++
		return tv(it.tt.Zext(b.t, 32)), at, true
	}
	rest := it.strSlice(si.s, at, n)
	if s, ok := rest.x.(string); ok {
		for i, r := range s {
			if i == 0 {
				w := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(s, "\uFFFD") {
					w = 1
				}
				si.pos += w
				return V{n: uint64(uint32(r))}, at, true
			}
		}
	}
	f := it.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	t := it.call(f, []V{rest}, nil).x.([]V)
	sz := t[1].n
	if t[1].t != nil {
		sz = it.concretize(t[1].t)
	}
	si.pos += int(sz)
	return t[0], at, true
}

func (it *Interp) next(I *Ins, v V) V {
	mi := v.x.(*mapIter)
	if it.spec > 0 {
		it.fail("range next")
	}
	if mi.str != nil {
		r, at, ok := it.nextRune(mi.str)
		if !ok {
			return V{x: []V{{}, {}, {}}}
		}
		return V{x: []V{{n: 1}, {n: uint64(at)}, r}}
	}
	tup := I.in.(*ssa.Next).Type().(*types.Tuple)
	if mi.m != nil {
		for mi.pos < len(mi.order) {
			i := mi.order[mi.pos]
			mi.pos++
			if i < len(mi.m.keys) && mi.m.live[i] {
				return V{x: []V{{n: 1}, mi.m.keys[i], mi.m.vals[i]}}
			}
		}
	}
	z := func(t types.Type) V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return V{}
		}
		return it.zero(lay(t))
	}
	return V{x: []V{{}, z(tup.At(1).Type()), z(tup.At(2).Type())}}
}

// ---- maps
// Concrete keys live in an index. As soon as a symbolic key is written the map
// becomes a log: entries may alias, the newest matching entry wins.

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

func (it *Interp) mapSet(mt *types.Map, m *MapV, k, v V) {
	if !m.logm {
		ks, ok := it.keyStr(mt.Key(), k)
		if ok {
			if i, ok := m.idx[ks]; ok {
				m.vals[i] = v
				return
			}
			m.idx[ks] = len(m.keys)
			m.keys = append(m.keys, k)
			m.vals = append(m.vals, v)
			m.live = append(m.live, true)
			m.n++
			return
		}
		it.mapToLog(m)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
}

func (it *Interp) mapToLog(m *MapV) {
	var ks, vs []V
	var lv []bool
	for i := range m.keys {
		if m.live[i] {
			ks, vs, lv = append(ks, m.keys[i]), append(vs, m.vals[i]), append(lv, true)
		}
	}
	m.keys, m.vals, m.live = ks, vs, lv
	m.logm = true
	m.idx = nil
}

func (it *Interp) mapDelete(mt *types.Map, m *MapV, k V) {
	if it.spec > 0 {
		it.fail("map delete")
	}
	if !m.logm {
		ks, ok := it.keyStr(mt.Key(), k)
		if ok {
			if i, ok := m.idx[ks]; ok {
				delete(m.idx, ks)
				m.live[i] = false
				m.n--
			}
			return
		}
		it.mapToLog(m)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, V{})
	m.live = append(m.live, false)
}

// mapNormalize resolves aliasing by case-splitting, giving distinct keys.
func (it *Interp) mapNormalize(mt *types.Map, m *MapV) {
	if !m.logm {
		return
	}
	var ks, vs []V
	var lv []bool
	for i := range m.keys {
		found := -1
		for j := range ks {
			if it.branchT(it.eqV(mt.Key(), ks[j], m.keys[i])) {
				found = j
				break
			}
		}
		if found >= 0 {
			vs[found], lv[found] = m.vals[i], m.live[i]
			continue
		}
		ks, vs, lv = append(ks, m.keys[i]), append(vs, m.vals[i]), append(lv, m.live[i])
	}
	m.keys, m.vals, m.live = nil, nil, nil
	for j := range ks {
		if lv[j] {
			m.keys, m.vals, m.live = append(m.keys, ks[j]), append(m.vals, vs[j]), append(m.live, true)
		}
	}
	m.n = len(m.keys)
}

func (it *Interp) mapLen(mt *types.Map, m *MapV) V {
	if m == nil {
		return V{}
	}
	if m.logm {
		it.mapNormalize(mt, m)
		return V{n: uint64(len(m.keys))}
	}
	return V{n: uint64(m.n)}
}

func (it *Interp) lookup(I *Ins, x, k V) V {
	if I.l.ki.cls == kString {
		return it.strIndex(I, x, k)
	}
	mt := I.l.t.Underlying().(*types.Map)
	el := lay(mt.Elem())
	m, _ := x.x.(*MapV)
	var r V
	var ok *Term
	if m == nil {
		r, ok = it.zero(el), it.tt.False
	} else {
		r, ok = it.mapGet(mt, el, m, k)
	}
	if I.ok {
		return V{x: []V{r, tv(ok)}}
	}
	return r
}

// mapUnion looks a symbolic integer key up in a map of concrete integer keys to
// concrete strings. The second result is nil if that is not the case.
func (it *Interp) mapUnion(mt *types.Map, m *MapV, k V) (V, *Term) {
	kk := kindOf(mt.Key())
	if m.logm || k.t == nil || kk.cls != kInt || kindOf(mt.Elem()).cls != kString {
		return V{}, nil
	}
	type ent struct {
		n uint64
		s string
	}
	var es []ent
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		s, ok := concStr(m.vals[i])
		if m.keys[i].t != nil || !ok {
			return V{}, nil
		}
		es = append(es, ent{m.keys[i].n, s})
	}
	if len(es) < 8 {
		return V{}, nil
	}
	w := k.t.w
	for i := range es {
		if w < 64 {
			es[i].n &= 1<<w - 1
		}
	}
	sort.Slice(es, func(a, b int) bool { return es[a].n < es[b].n })
	runs := func(same func(a, b ent) bool, f func(lo, hi ent, c *Term)) {
		for i := 0; i < len(es); {
			j := i
			for j+1 < len(es) && es[j+1].n == es[j].n+1 && same(es[j], es[j+1]) {
				j++
			}
			var c *Term
			if i == j {
				c = it.tt.Eq(k.t, it.tt.Const(es[i].n, w))
			} else {
				c = it.tt.And(it.tt.Ule(it.tt.Const(es[i].n, w), k.t), it.tt.Ule(k.t, it.tt.Const(es[j].n, w)))
			}
			f(es[i], es[j], c)
			i = j + 1
		}
	}
	in := it.tt.False
	runs(func(a, b ent) bool { return true }, func(lo, hi ent, c *Term) { in = it.tt.Or(in, c) })
	u := &UnionStr{}
	add := func(c *Term, s string) {
		if c.isFalse() {
			return
		}
		for i := range u.alts {
			if u.alts[i].s == s {
				u.alts[i].c = it.tt.Or(u.alts[i].c, c)
				return
			}
		}
		u.alts = append(u.alts, strAlt{c, s})
	}
	add(it.tt.Not(in), "")
	runs(func(a, b ent) bool { return a.s == b.s }, func(lo, hi ent, c *Term) { add(c, lo.s) })
	if len(u.alts) == 1 {
		return mkStr(u.alts[0].s), in
	}
	return V{x: u}, in
}

func (it *Interp) mapGet(mt *types.Map, el *Layout, m *MapV, k V) (V, *Term) {
	zero := it.zero(el)
	if !m.logm {
		ks, conc := it.keyStr(mt.Key(), k)
		if conc {
			if i, ok := m.idx[ks]; ok {
				return m.vals[i], it.tt.True
			}
			return zero, it.tt.False
		}
	}
	if u, ok := it.mapUnion(mt, m, k); ok != nil {
		return u, ok
	}
	acc, ok := zero, it.tt.False
	// oldest first, newest wins
	mergeable := true
	for i := range m.keys {
		if !m.logm && !m.live[i] {
			continue
		}
		c := it.eqV(mt.Key(), m.keys[i], k)
		if c.isFalse() {
			continue
		}
		v := m.vals[i]
		if !m.live[i] {
			v = zero
		}
		nv, good := it.mergeV(el, c, v, acc)
		if !good {
			mergeable = false
			break
		}
		acc = nv
		ok = it.tt.Ite(c, it.tt.Bool(m.live[i]), ok)
	}
	if mergeable {
		return acc, ok
	}
	for i := len(m.keys) - 1; i >= 0; i-- {
		if !m.logm && !m.live[i] {
			continue
		}
		if it.branchT(it.eqV(mt.Key(), m.keys[i], k)) {
			if !m.live[i] {
				return zero, it.tt.False
			}
			return m.vals[i], it.tt.True
		}
	}
	return zero, it.tt.False
}

// ---- builtins

func (it *Interp) builtin(b *ssa.Builtin, args []V, c *ssa.CallCommon, fr *Frame) V {
	switch b.Name() {
	case "len":
		switch kindOf(c.Args[0].Type()).cls {
		case kString:
			if u, ok := args[0].x.(*UnionStr); ok {
				acc := it.tt.Const(uint64(len(u.alts[len(u.alts)-1].s)), 64)
				for i := len(u.alts) - 2; i >= 0; i-- {
					acc = it.tt.Ite(u.alts[i].c, it.tt.Const(uint64(len(u.alts[i].s)), 64), acc)
				}
				return tv(acc)
			}
			return V{n: uint64(it.strLen(args[0]))}
		case kSlice:
			s := sl(args[0])
			if s.slen != nil {
				return V{t: s.slen}
			}
			return V{n: uint64(s.len)}
		case kMap:
			m, _ := args[0].x.(*MapV)
			return it.mapLen(c.Args[0].Type().Underlying().(*types.Map), m)
		case kAgg:
			return V{n: uint64(lay(c.Args[0].Type()).n)}
		case kPtr:
			return V{n: uint64(lay(c.Args[0].Type().Underlying().(*types.Pointer).Elem()).n)}
		}
	case "cap":
		switch kindOf(c.Args[0].Type()).cls {
		case kSlice:
			s := sl(args[0])
			if s.scap != nil {
				return V{t: s.scap}
			}
			return V{n: uint64(s.cap)}
		case kAgg:
			return V{n: uint64(lay(c.Args[0].Type()).n)}
		case kPtr:
			return V{n: uint64(lay(c.Args[0].Type().Underlying().(*types.Pointer).Elem()).n)}
		}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		el := lay(st.Elem())
		if len(args) == 1 {
			return args[0]
		}
		var src *SliceV
		if kindOf(c.Args[1].Type()).cls == kString {
			src = sl(it.bytesFromStr(args[1]))
		} else {
			src = it.concSliceKeepOff(sl(args[1]), el.size)
		}
		return it.appendSlice(el, args[0], src, src.len)
	case "copy":
		el := lay(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		var src *SliceV
		if kindOf(c.Args[1].Type()).cls == kString {
			src = sl(it.bytesFromStr(args[1]))
		} else {
			src = sl(args[1])
		}
		return it.copySlice(el, sl(args[0]), src)
	case "delete":
		m, _ := args[0].x.(*MapV)
		if m != nil {
			it.mapDelete(c.Args[0].Type().Underlying().(*types.Map), m, args[1])
		}
		return V{}
	case "panic":
		panic(&TPanic{v: args[0], msg: it.panicMsg(args[0])})
	case "recover":
		// valid only when called directly by a deferred function of a panicking frame
		if it.cur != nil {
			d := it.deferFor
			if d != nil && it.cur.caller == d && d.pan != nil && !d.recov {
				d.recov = true
				return d.pan.v
			}
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		acc := args[0]
		ki := kindOf(c.Args[0].Type())
		for _, v := range args[1:] {
			if ki.cls != kInt {
				panic(unsup("min/max"))
			}
			x, y := it.term(acc, ki.w), it.term(v, ki.w)
			var lt *Term
			if ki.signed {
				lt = it.tt.Slt(x, y)
			} else {
				lt = it.tt.Ult(x, y)
			}
			if b.Name() == "min" {
				acc = tv(it.tt.Ite(lt, x, y))
			} else {
				acc = tv(it.tt.Ite(lt, y, x))
			}
		}
		return acc
	case "clear":
		switch kindOf(c.Args[0].Type()).cls {
		case kSlice:
			s := it.concSlice(sl(args[0]), 1)
			el := lay(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < s.len; i++ {
				it.store(el, it.elemPtr(el, s, i), it.zero(el))
			}
		case kMap:
			if m, _ := args[0].x.(*MapV); m != nil {
				*m = *newMap()
			}
		}
		return V{}
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			it.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := it.concInt(args[1], c.Args[1].Type(), "")
		if n == 0 {
			return mkStr("")
		}
		a := args[0].x.(*Agg)
		return it.strFromAgg(a, int(args[0].n), n)
	case "StringData":
		v := it.bytesFromStr(args[0])
		s := sl(v)
		return V{x: s.a, n: uint64(s.off)}
	case "Slice": // unsafe.Slice
		n := it.concInt(args[1], c.Args[1].Type(), "")
		if args[0].x == nil {
			return V{}
		}
		return V{x: &SliceV{a: args[0].x.(*Agg), off: int(args[0].n), len: n, cap: n}}
	case "SliceData":
		s := sl(args[0])
		if args[0].x == nil {
			return V{}
		}
		s = it.concSlice(s, 1)
		return V{x: s.a, n: uint64(s.off)}
	}
	panic(unsup("builtin " + b.Name()))
}

var _ = math.Pi
var _ = bits.Len
