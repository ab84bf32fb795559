package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// V is a run-time value. Scalars: n (concrete, masked to width) or t
// (symbolic). Pointers: x=*Agg (or *SymPtr), n=cell offset; nil pointer: x==nil.
// Structs and arrays: x=*Agg (immutable snapshot). Slices: x=*SliceV.
// Strings: x=string | *SymStr | *LazyStr | *UnionStr, nil means "".
// Interfaces: x=*Iface or nil. Functions: *ssa.Function, *Closure, *ssa.Builtin.
type V struct {
	n uint64
	t *Term
	x interface{}
}

// Agg is a flat object: a sequence of leaf cells.
type Agg struct {
	n     int
	cells []V
	conc  []byte  // byte mode
	sym   []*Term // byte mode, nil if nothing symbolic
	arr   *Term   // SMT-array mode
	iw    uint8
	g     *Term       // guard under which the object was allocated
	host  interface{} // modelled library object
}

type SymPtr struct {
	a      *Agg
	base   int
	idx    *Term // 64-bit
	stride int
	count  int // number of elements idx may address (idx < count)
}

type SliceV struct {
	a             *Agg
	off, len, cap int   // in cells for off, elements for len/cap
	soff          *Term // symbolic element offset added to off (times esz)
	slen, scap    *Term
}

type SymStr struct {
	c []byte
	s []*Term
}

type LazyStr struct {
	f  func(it *Interp) V
	v  V
	ok bool
}

type UnionStr struct {
	alts []strAlt // conditions are exclusive and exhaustive
}
type strAlt struct {
	c *Term
	s string
}

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn   *ssa.Function
	env  []V
	host func(*Interp, []V) V
}

type MapV struct {
	keys, vals []V
	live       []bool
	idx        map[string]int // concrete keys
	n          int
	logm       bool // entries may alias; newest wins; live=false is a tombstone
}

type mapIter struct {
	m     *MapV
	pos   int
	kt    types.Type
	str   *strIter
	order []int
}
type strIter struct {
	s   V
	pos int
}

// ---- layouts

type Layout struct {
	t     types.Type
	size  int
	bytes bool // every leaf is a uint8
	offs  []int
	elem  *Layout
	n     int
	agg   bool // struct or array
	ki    KI
	flds  []*Layout
}

const (
	kRef = iota
	kInt
	kBool
	kFloat
	kString
	kIface
	kPtr
	kSlice
	kMap
	kFunc
	kAgg
	kTuple
	kComplex
)

type KI struct {
	cls    uint8
	w      uint8
	signed bool
}

var layMu sync.RWMutex
var layCache = map[types.Type]*Layout{}

func kindOf(t types.Type) KI {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return KI{cls: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return KI{kInt, 64, true}
		case types.Int8:
			return KI{kInt, 8, true}
		case types.Int16:
			return KI{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return KI{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return KI{kInt, 64, false}
		case types.Uint8:
			return KI{kInt, 8, false}
		case types.Uint16:
			return KI{kInt, 16, false}
		case types.Uint32:
			return KI{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			return KI{kFloat, 64, true}
		case types.Float32:
			return KI{kFloat, 32, true}
		case types.String, types.UntypedString:
			return KI{cls: kString}
		case types.UnsafePointer, types.UntypedNil:
			return KI{cls: kPtr}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return KI{cls: kComplex}
		}
	case *types.Pointer:
		return KI{cls: kPtr}
	case *types.Slice:
		return KI{cls: kSlice}
	case *types.Map:
		return KI{cls: kMap}
	case *types.Signature:
		return KI{cls: kFunc}
	case *types.Interface:
		return KI{cls: kIface}
	case *types.Struct, *types.Array:
		return KI{cls: kAgg}
	case *types.Tuple:
		return KI{cls: kTuple}
	}
	return KI{cls: kRef}
}

func lay(t types.Type) *Layout {
	layMu.RLock()
	l := layCache[t]
	layMu.RUnlock()
	if l != nil {
		return l
	}
	l = &Layout{t: t, ki: kindOf(t)}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		l.bytes = true
		for i := 0; i < u.NumFields(); i++ {
			f := lay(u.Field(i).Type())
			l.offs = append(l.offs, l.size)
			l.flds = append(l.flds, f)
			l.size += f.size
			if !f.bytes && f.size > 0 {
				l.bytes = false
			}
		}
		if l.size == 0 {
			l.bytes = false
		}
	case *types.Array:
		l.agg = true
		l.elem = lay(u.Elem())
		l.n = int(u.Len())
		l.size = l.n * l.elem.size
		l.bytes = l.elem.bytes && l.size > 0
	default:
		l.size = 1
		l.bytes = l.ki.cls == kInt && l.ki.w == 8 && !l.ki.signed
		switch u := t.Underlying().(type) {
		case *types.Slice:
			l.elem = lay(u.Elem())
		}
	}
	layMu.Lock()
	layCache[t] = l
	layMu.Unlock()
	return l
}

func newAgg(l *Layout, n int) *Agg { // n elements of layout l
	sz := l.size * n
	a := &Agg{n: sz}
	if l.bytes {
		a.conc = make([]byte, sz)
	} else {
		a.cells = make([]V, sz)
	}
	return a
}

func (it *Interp) get(a *Agg, i int) V {
	if a.cells != nil {
		return a.cells[i]
	}
	if a.arr != nil {
		return tv(it.sel(a.arr, it.tt.Const(uint64(i), a.iw)))
	}
	if a.sym != nil {
		if t := a.sym[i]; t != nil {
			return V{t: t}
		}
	}
	return V{n: uint64(a.conc[i])}
}

func (it *Interp) set(a *Agg, i int, v V) {
	if it.undo != nil {
		if a.arr != nil {
			it.undo.log = append(it.undo.log, undoRec{a, -1, V{t: a.arr}})
		} else {
			it.undo.log = append(it.undo.log, undoRec{a, i, it.get(a, i)})
		}
	}
	it.rawSet(a, i, v)
}

func (it *Interp) rawSet(a *Agg, i int, v V) {
	if a.cells != nil {
		a.cells[i] = v
		return
	}
	if a.arr != nil {
		t := v.t
		if t == nil {
			t = it.tt.Const(v.n, 8)
		}
		a.arr = it.tt.Store(a.arr, it.tt.Const(uint64(i), a.iw), t)
		return
	}
	if v.t != nil {
		if v.t.op == OConst {
			v.n = v.t.n
			v.t = nil
		} else {
			if a.sym == nil {
				a.sym = make([]*Term, a.n)
			}
			a.sym[i] = v.t
			return
		}
	}
	a.conc[i] = byte(v.n)
	if a.sym != nil {
		a.sym[i] = nil
	}
}

// copyCells copies n cells (handles overlap).
func (it *Interp) copyCells(dst *Agg, di int, src *Agg, si, n int) {
	if n <= 0 {
		return
	}
	if it.undo != nil {
		if dst.arr != nil {
			it.undo.log = append(it.undo.log, undoRec{dst, -1, V{t: dst.arr}})
		} else {
			for k := 0; k < n; k++ {
				it.undo.log = append(it.undo.log, undoRec{dst, di + k, it.get(dst, di+k)})
			}
		}
	}
	switch {
	case dst.cells != nil && src.cells != nil:
		copy(dst.cells[di:di+n], src.cells[si:si+n])
	case dst.conc != nil && src.conc != nil && dst.arr == nil && src.arr == nil:
		copy(dst.conc[di:di+n], src.conc[si:si+n])
		if src.sym != nil {
			if dst.sym == nil {
				any := false
				for _, t := range src.sym[si : si+n] {
					if t != nil {
						any = true
						break
					}
				}
				if any {
					dst.sym = make([]*Term, dst.n)
				}
			}
			if dst.sym != nil {
				copy(dst.sym[di:di+n], src.sym[si:si+n])
			}
		} else if dst.sym != nil {
			s := dst.sym[di : di+n]
			for k := range s {
				s[k] = nil
			}
		}
	default:
		tmp := make([]V, n)
		for k := range tmp {
			tmp[k] = it.get(src, si+k)
		}
		for k := range tmp {
			it.rawSet(dst, di+k, tmp[k])
		}
	}
}

func (it *Interp) snapshot(l *Layout, a *Agg, off int) *Agg {
	r := newAgg(l, 1)
	u := it.undo
	it.undo = nil
	it.copyCells(r, 0, a, off, l.size)
	it.undo = u
	return r
}

func (it *Interp) zero(l *Layout) V {
	if l.agg {
		return V{x: newAgg(l, 1)}
	}
	return V{}
}

// ---- strings

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{x: s}
}

// forceStr turns any string value into string or *SymStr form.
func (it *Interp) forceStr(v V) V {
	for {
		switch x := v.x.(type) {
		case nil:
			return V{x: ""}
		case string:
			return v
		case *SymStr:
			return v
		case *LazyStr:
			if !x.ok {
				x.v = x.f(it)
				x.ok = true
			}
			v = x.v
		case *UnionStr:
			for i, a := range x.alts {
				if i == len(x.alts)-1 || it.branch(a.c) {
					v = V{x: a.s}
					break
				}
			}
		default:
			panic(fmt.Sprintf("forceStr %T", v.x))
		}
	}
}

func (it *Interp) strLen(v V) int {
	v = it.forceStr(v)
	switch x := v.x.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.c)
	}
	panic("strLen")
}

func (it *Interp) strAt(v V, i int) V {
	switch x := v.x.(type) {
	case string:
		return V{n: uint64(x[i])}
	case *SymStr:
		if x.s[i] != nil {
			return V{t: x.s[i]}
		}
		return V{n: uint64(x.c[i])}
	}
	panic("strAt on unforced string")
}

// strFromAgg builds a string from cells of a byte object.
func (it *Interp) strFromAgg(a *Agg, off, n int) V {
	if n == 0 {
		return V{x: ""}
	}
	if a.arr == nil && a.conc != nil {
		any := false
		if a.sym != nil {
			for _, t := range a.sym[off : off+n] {
				if t != nil {
					any = true
					break
				}
			}
		}
		if !any {
			return V{x: string(a.conc[off : off+n])}
		}
		return V{x: &SymStr{append([]byte{}, a.conc[off:off+n]...), append([]*Term{}, a.sym[off:off+n]...)}}
	}
	c := make([]byte, n)
	s := make([]*Term, n)
	any := false
	for i := 0; i < n; i++ {
		v := it.get(a, off+i)
		if v.t != nil {
			s[i] = v.t
			any = true
		} else {
			c[i] = byte(v.n)
		}
	}
	if !any {
		return V{x: string(c)}
	}
	return V{x: &SymStr{c, s}}
}

func (it *Interp) strCells(v V) ([]byte, []*Term) {
	v = it.forceStr(v)
	switch x := v.x.(type) {
	case string:
		return []byte(x), nil
	case *SymStr:
		return x.c, x.s
	}
	panic("strCells")
}

func mkSymStr(c []byte, s []*Term) V {
	for i, t := range s {
		if t != nil {
			if t.op == OConst {
				c[i] = byte(t.n)
				s[i] = nil
			}
		}
	}
	for _, t := range s {
		if t != nil {
			return V{x: &SymStr{c, s}}
		}
	}
	return V{x: string(c)}
}

func (it *Interp) strSlice(v V, lo, hi int) V {
	v = it.forceStr(v)
	switch x := v.x.(type) {
	case string:
		return V{x: x[lo:hi]}
	case *SymStr:
		return mkSymStr(append([]byte{}, x.c[lo:hi]...), append([]*Term{}, x.s[lo:hi]...))
	}
	panic("strSlice")
}

func (it *Interp) strConcat(a, b V) V {
	a, b = it.forceStr(a), it.forceStr(b)
	sa, oka := a.x.(string)
	sb, okb := b.x.(string)
	if oka && okb {
		return V{x: sa + sb}
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	ca, ta := it.strCells(a)
	cb, tb := it.strCells(b)
	n := len(ca) + len(cb)
	c := make([]byte, 0, n)
	c = append(append(c, ca...), cb...)
	s := make([]*Term, n)
	copy(s, ta)
	if tb != nil {
		copy(s[len(ca):], tb)
	}
	return mkSymStr(c, s)
}

func (it *Interp) byteTerm(c []byte, s []*Term, i int) *Term {
	if s != nil && s[i] != nil {
		return s[i]
	}
	return it.tt.Const(uint64(c[i]), 8)
}

// strEq returns the term for a == b.
func (it *Interp) strEq(a, b V) *Term {
	if u, ok := a.x.(*UnionStr); ok {
		if sb, ok := concStr(b); ok {
			return it.unionEq(u, sb)
		}
	}
	if u, ok := b.x.(*UnionStr); ok {
		if sa, ok := concStr(a); ok {
			return it.unionEq(u, sa)
		}
	}
	a, b = it.forceStr(a), it.forceStr(b)
	sa, oka := a.x.(string)
	sb, okb := b.x.(string)
	if oka && okb {
		return it.tt.Bool(sa == sb)
	}
	ca, ta := it.strCells(a)
	cb, tb := it.strCells(b)
	if len(ca) != len(cb) {
		return it.tt.False
	}
	ts := make([]*Term, 0, len(ca))
	for i := range ca {
		e := it.tt.Eq(it.byteTerm(ca, ta, i), it.byteTerm(cb, tb, i))
		if e.isFalse() {
			return e
		}
		if !e.isTrue() {
			ts = append(ts, e)
		}
	}
	return it.tt.AndN(ts)
}

func concStr(v V) (string, bool) {
	switch x := v.x.(type) {
	case nil:
		return "", true
	case string:
		return x, true
	}
	return "", false
}

func (it *Interp) unionEq(u *UnionStr, s string) *Term {
	r := it.tt.False
	for _, a := range u.alts {
		if a.s == s {
			r = it.tt.Or(r, a.c)
		}
	}
	return r
}

// strLess returns the term for a < b (lexicographic).
func (it *Interp) strLess(a, b V) *Term {
	ca, ta := it.strCells(a)
	cb, tb := it.strCells(b)
	tt := it.tt
	n := len(ca)
	if len(cb) < n {
		n = len(cb)
	}
	r := tt.Bool(len(ca) < len(cb))
	for i := n - 1; i >= 0; i-- {
		x, y := it.byteTerm(ca, ta, i), it.byteTerm(cb, tb, i)
		r = tt.Or(tt.Ult(x, y), tt.And(tt.Eq(x, y), r))
	}
	return r
}

// ---- equality

func (it *Interp) term(v V, w uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return it.tt.Const(v.n, w)
}

func (it *Interp) boolTerm(v V) *Term {
	if v.t != nil {
		return v.t
	}
	return it.tt.Bool(v.n != 0)
}

func tv(t *Term) V {
	if t.op == OConst {
		return V{n: t.n}
	}
	return V{t: t}
}

// eqV returns the term for a == b at type t.
func (it *Interp) eqV(t types.Type, a, b V) *Term {
	l := lay(t)
	switch l.ki.cls {
	case kInt:
		if a.t == nil && b.t == nil {
			return it.tt.Bool(a.n == b.n)
		}
		return it.tt.Eq(it.term(a, l.ki.w), it.term(b, l.ki.w))
	case kBool:
		if a.t == nil && b.t == nil {
			return it.tt.Bool(a.n == b.n)
		}
		return it.tt.Eq(it.boolTerm(a), it.boolTerm(b))
	case kFloat:
		return it.tt.Bool(toFloat(a, l.ki) == toFloat(b, l.ki))
	case kString:
		return it.strEq(a, b)
	case kPtr:
		if sp, ok := a.x.(*SymPtr); ok {
			a = it.concPtr(sp)
		}
		if sp, ok := b.x.(*SymPtr); ok {
			b = it.concPtr(sp)
		}
		return it.tt.Bool(a.x == b.x && (a.x == nil || a.n == b.n))
	case kIface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil || ib == nil {
			return it.tt.Bool(ia == nil && ib == nil)
		}
		if !types.Identical(ia.t, ib.t) {
			return it.tt.False
		}
		if !types.Comparable(ia.t) {
			it.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		return it.eqV(ia.t, ia.v, ib.v)
	case kAgg:
		aa, _ := a.x.(*Agg)
		ba, _ := b.x.(*Agg)
		return it.eqAgg(l, aa, 0, ba, 0)
	case kSlice:
		return it.tt.Bool((a.x == nil) == (b.x == nil) && a.x == nil)
	case kMap, kFunc, kRef:
		return it.tt.Bool(a.x == b.x)
	}
	panic(unsup("eq on " + t.String()))
}

func (it *Interp) eqAgg(l *Layout, a *Agg, ao int, b *Agg, bo int) *Term {
	r := it.tt.True
	switch {
	case l.flds != nil:
		for i, f := range l.flds {
			r = it.tt.And(r, it.eqAgg(f, a, ao+l.offs[i], b, bo+l.offs[i]))
			if r.isFalse() {
				return r
			}
		}
	case l.elem != nil && l.agg:
		for i := 0; i < l.n; i++ {
			r = it.tt.And(r, it.eqAgg(l.elem, a, ao+i*l.elem.size, b, bo+i*l.elem.size))
			if r.isFalse() {
				return r
			}
		}
	case l.size == 0:
	default:
		return it.eqV(l.t, it.get(a, ao), it.get(b, bo))
	}
	return r
}

// keyStr returns a canonical key for a fully concrete value, or false.
func (it *Interp) keyStr(t types.Type, v V) (string, bool) {
	l := lay(t)
	switch l.ki.cls {
	case kInt, kBool, kFloat:
		if v.t != nil {
			return "", false
		}
		return fmt.Sprintf("%x", v.n), true
	case kString:
		if _, ok := v.x.(*UnionStr); ok {
			v = it.forceStr(v)
		}
		if _, ok := v.x.(*LazyStr); ok {
			v = it.forceStr(v)
		}
		s, ok := concStr(v)
		return s, ok
	case kPtr, kMap, kFunc, kRef:
		if sp, ok := v.x.(*SymPtr); ok {
			v = it.concPtr(sp)
		}
		if v.x == nil {
			return "nil", true
		}
		return fmt.Sprintf("%p+%d", v.x, v.n), true
	case kIface:
		i, _ := v.x.(*Iface)
		if i == nil {
			return "nil", true
		}
		s, ok := it.keyStr(i.t, i.v)
		return types.TypeString(i.t, nil) + "|" + s, ok
	case kAgg:
		a := v.x.(*Agg)
		return it.keyAgg(l, a, 0)
	}
	panic(unsup("map key " + t.String()))
}

func (it *Interp) keyAgg(l *Layout, a *Agg, off int) (string, bool) {
	switch {
	case l.flds != nil:
		r := ""
		for i, f := range l.flds {
			s, ok := it.keyAgg(f, a, off+l.offs[i])
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:", len(s)) + s
		}
		return r, true
	case l.agg && l.elem != nil:
		r := ""
		for i := 0; i < l.n; i++ {
			s, ok := it.keyAgg(l.elem, a, off+i*l.elem.size)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:", len(s)) + s
		}
		return r, true
	case l.size == 0:
		return "", true
	}
	return it.keyStr(l.t, it.get(a, off))
}
