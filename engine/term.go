package main

import (
	"fmt"
	"math/bits"
)

// Terms: hash-consed bit-vector / Boolean / array expressions.

type Op uint8

const (
	OConst  Op = iota // n, width w (w==0: Bool)
	OVar              // name
	OArrVar           // name; array var, n = index width
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // n = hi<<8|lo
	OZext
	OSext
	OSelect
	OStore
)

const wArr = 255

type Term struct {
	op      Op
	w       uint8
	raw     bool
	a, b, c *Term
	n       uint64
	name    string
	id      int32
	ones    uint64 // mask of bits that may be one (BV only)
	umax    uint64
	epoch   int32
	val     uint64
	mark    int32
	refs    int32
	vars    []int32 // cached free vars (sorted by discovery); valid if varsOK
	varsOK  bool
	keys    []int32 // cached variables and array reads
	keysOK  bool
}

type tkey struct {
	op      Op
	w       uint8
	raw     bool
	a, b, c int32
	n       uint64
	name    string
}

type TermTab struct {
	index map[*Term]bool // array indexes of the last query
	tab   map[tkey]*Term
	next  int32
	epoch int32
	markN int32
	True  *Term
	False *Term
	vars  []*Term // by var index
	vidx  map[*Term]int32
}

func newTermTab() *TermTab {
	tt := &TermTab{tab: map[tkey]*Term{}, epoch: 1, vidx: map[*Term]int32{}}
	tt.True = tt.mk(OConst, 0, nil, nil, nil, 1, "")
	tt.False = tt.mk(OConst, 0, nil, nil, nil, 0, "")
	return tt
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func fillMask(x uint64) uint64 { // all bits up to the highest set bit of x
	if x == 0 {
		return 0
	}
	n := bits.Len64(x)
	if n == 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, n uint64, name string) *Term {
	return tt.mkr(op, w, a, b, c, n, name, false)
}

func (tt *TermTab) mkr(op Op, w uint8, a, b, c *Term, n uint64, name string, raw bool) *Term {
	k := tkey{op, w, raw, tid(a), tid(b), tid(c), n, name}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, raw: raw, a: a, b: b, c: c, n: n, name: name, id: tt.next}
	tt.next++
	if tt.next&0xfff == 0 && tt.next > 500000 && memHigh.Load() {
		panic(unsup("memory limit"))
	}
	if w > 0 && w != wArr {
		t.bounds()
	}
	tt.tab[k] = t
	if op == OVar || op == OArrVar {
		tt.vidx[t] = int32(len(tt.vars))
		tt.vars = append(tt.vars, t)
	}
	return t
}

func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxu(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func (t *Term) bounds() {
	m := wmask(t.w)
	o, u := m, m
	switch t.op {
	case OConst:
		o, u = t.n, t.n
	case OZext:
		o, u = t.a.ones, t.a.umax
	case OBand:
		o = t.a.ones & t.b.ones
		u = minu(t.a.umax, t.b.umax)
	case OBor, OBxor:
		o = t.a.ones | t.b.ones
	case OAdd:
		s, carry := bits.Add64(t.a.umax, t.b.umax, 0)
		if carry == 0 && s <= m {
			u = s
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.umax, t.b.umax)
		if hi == 0 && lo <= m {
			u = lo
		}
	case OIte:
		o = t.b.ones | t.c.ones
		u = maxu(t.b.umax, t.c.umax)
	case OUdiv:
		u = m
		if t.b.op == OConst && t.b.n != 0 {
			u = t.a.umax / t.b.n
		}
	case OUrem:
		u = m
		if t.b.op == OConst && t.b.n != 0 {
			u = minu(t.b.n-1, t.a.umax)
		}
	case OShl:
		if t.b.op == OConst && t.b.n < 64 {
			o = (t.a.ones << t.b.n) & m
		}
	case OLshr:
		if t.b.op == OConst {
			if t.b.n < 64 {
				o = t.a.ones >> t.b.n
				u = t.a.umax >> t.b.n
			} else {
				o, u = 0, 0
			}
		} else {
			u = t.a.umax
		}
	case OConcat:
		o = t.a.ones<<t.b.w | t.b.ones
	case OExtract:
		lo := t.n & 255
		o = (t.a.ones >> lo) & m
		if lo == 0 && t.a.umax <= m {
			u = t.a.umax
		}
	}
	o &= fillMask(u)
	u = minu(u, o)
	t.ones, t.umax = o&m, u&m
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.n == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.n == 0 }

func sx(n uint64, w uint8) int64 {
	if w >= 64 {
		return int64(n)
	}
	sh := 64 - uint(w)
	return int64(n<<sh) >> sh
}

func (tt *TermTab) Const(n uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, n&wmask(w), "")
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTab) Var(name string, w uint8) *Term { return tt.mk(OVar, w, nil, nil, nil, 0, name) }
func (tt *TermTab) ArrVar(name string, iw uint8) *Term {
	return tt.mk(OArrVar, wArr, nil, nil, nil, uint64(iw), name)
}

func (tt *TermTab) Not(a *Term) *Term {
	switch {
	case a.op == OConst:
		return tt.Bool(a.n == 0)
	case a.op == ONot:
		return a.a
	case a.op == OUlt:
		return tt.Ule(a.b, a.a)
	case a.op == OUle:
		return tt.Ult(a.b, a.a)
	case a.op == OSlt:
		return tt.mk(OSle, 0, a.b, a.a, nil, 0, "")
	case a.op == OSle:
		return tt.mk(OSlt, 0, a.b, a.a, nil, 0, "")
	}
	return tt.mk(ONot, 0, a, nil, nil, 0, "")
}

func (tt *TermTab) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return tt.False
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return tt.False
	}
	return tt.mk(OAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return tt.True
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return tt.True
	}
	return tt.mk(OOr, 0, a, b, nil, 0, "")
}

func (tt *TermTab) AndN(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return tt.True
	case 1:
		return ts[0]
	}
	m := len(ts) / 2
	return tt.And(tt.AndN(ts[:m]), tt.AndN(ts[m:]))
}
func (tt *TermTab) OrN(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return tt.False
	case 1:
		return ts[0]
	}
	m := len(ts) / 2
	return tt.Or(tt.OrN(ts[:m]), tt.OrN(ts[m:]))
}

// andRaw builds a conjunction that is not simplified (its leaves go to the
// solver as they are).
func (tt *TermTab) andRaw(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return tt.True
	case 1:
		return ts[0]
	}
	m := len(ts) / 2
	return tt.mkr(OAnd, 0, tt.andRaw(ts[:m]), tt.andRaw(ts[m:]), nil, 0, "", true)
}
func (tt *TermTab) eqRaw(a, b *Term) *Term {
	return tt.mkr(OEq, 0, a, b, nil, 0, "", true)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	switch {
	case c.isTrue():
		return a
	case c.isFalse():
		return b
	case a == b:
		return a
	case c.op == ONot:
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		switch {
		case a.isTrue():
			return tt.Or(c, b)
		case a.isFalse():
			return tt.And(tt.Not(c), b)
		case b.isTrue():
			return tt.Or(tt.Not(c), a)
		case b.isFalse():
			return tt.And(c, a)
		}
	}
	if b.op == OIte && b.a == c {
		return tt.Ite(c, a, b.c)
	}
	if a.op == OIte && a.a == c {
		return tt.Ite(c, a.b, b)
	}
	if b.op == OIte && b.b == a {
		return tt.Ite(tt.Or(c, b.a), a, b.c)
	}
	return tt.mk(OIte, a.w, c, a, b, 0, "")
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.n == b.n)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tt.Not(b)
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.w > 0 {
		if b.n > a.umax || b.n&^a.ones != 0 {
			return tt.False
		}
		switch a.op {
		case OZext:
			return tt.Eq(a.a, tt.Const(b.n, a.a.w))
		case OSext:
			t := uint64(sx(b.n, a.a.w)) & wmask(a.w)
			if t != b.n {
				return tt.False
			}
			return tt.Eq(a.a, tt.Const(b.n, a.a.w))
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				switch {
				case a.b.n == b.n && a.c.n == b.n:
					return tt.True
				case a.b.n == b.n:
					return a.a
				case a.c.n == b.n:
					return tt.Not(a.a)
				default:
					return tt.False
				}
			}
			if a.b.op == OConst && a.b.n != b.n {
				return tt.And(tt.Not(a.a), tt.Eq(a.c, b))
			}
			if a.c.op == OConst && a.c.n != b.n {
				return tt.And(a.a, tt.Eq(a.b, b))
			}
			if a.b.op == OConst && a.b.n == b.n {
				return tt.Or(a.a, tt.Eq(a.c, b))
			}
			if a.c.op == OConst && a.c.n == b.n {
				return tt.Or(tt.Not(a.a), tt.Eq(a.b, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(b.n-a.b.n, a.w))
			}
		case OBxor:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(b.n^a.b.n, a.w))
			}
		case OConcat:
			return tt.And(tt.Eq(a.a, tt.Const(b.n>>a.b.w, a.a.w)), tt.Eq(a.b, tt.Const(b.n, a.b.w)))
		}
	}
	if a.op == OZext && b.op == OZext {
		w := a.a.w
		if b.a.w > w {
			w = b.a.w
		}
		if w < a.w {
			return tt.Eq(tt.Zext(a.a, w), tt.Zext(b.a, w))
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
	}
	if a.umax < b.lowBound() || b.umax < a.lowBound() {
		return tt.False
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0, "")
}

func (t *Term) lowBound() uint64 {
	if t.op == OConst {
		return t.n
	}
	return 0
}

// narrow returns the smallest width that holds both a and b, if both are
// known to have leading zero bits.
func narrowW(a, b *Term) uint8 {
	n := bits.Len64(a.umax | b.umax)
	if n == 0 {
		n = 1
	}
	return uint8(n)
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.n < b.n)
	}
	if b.op == OConst {
		if b.n == 0 {
			return tt.False
		}
		if a.umax < b.n {
			return tt.True
		}
		if b.n == 1 {
			return tt.Eq(a, tt.Const(0, a.w))
		}
	}
	if a.op == OConst {
		if a.n >= b.umax {
			return tt.False
		}
		if a.n == 0 {
			return tt.Not(tt.Eq(b, tt.Const(0, b.w)))
		}
	}
	if w := narrowW(a, b); w < a.w {
		return tt.Ult(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0))
	}
	return tt.mk(OUlt, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Ule(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.n <= b.n)
	}
	if b.op == OConst {
		if a.umax <= b.n {
			return tt.True
		}
		if b.n == 0 {
			return tt.Eq(a, b)
		}
	}
	if a.op == OConst {
		if a.n > b.umax {
			return tt.False
		}
		if a.n == 0 {
			return tt.True
		}
	}
	if w := narrowW(a, b); w < a.w {
		return tt.Ule(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0))
	}
	return tt.mk(OUle, 0, a, b, nil, 0, "")
}

func signBit(w uint8) uint64 { return uint64(1) << (w - 1) }

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(sx(a.n, a.w) < sx(b.n, b.w))
	}
	if a.umax < signBit(a.w) && b.umax < signBit(b.w) {
		return tt.Ult(a, b)
	}
	if a.op == OSext && b.op == OConst {
		if v := sx(b.n, b.w); sx(uint64(v)&wmask(a.a.w), a.a.w) == v {
			return tt.Slt(a.a, tt.Const(uint64(v), a.a.w))
		}
	}
	return tt.mk(OSlt, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

// splitAdd splits t into base+const.
func (tt *TermTab) splitAdd(t *Term) (*Term, uint64) {
	if t.op == OConst {
		return nil, t.n
	}
	if t.op == OAdd && t.b.op == OConst {
		return t.a, t.b.n
	}
	if t.op == OBor && t.b.op == OConst && t.a.ones&t.b.n == 0 {
		return t.a, t.b.n
	}
	if t.op == OConcat && t.b.op == OConst && t.b.n != 0 {
		return tt.Concat(t.a, tt.Const(0, t.b.w)), t.b.n
	}
	return t, 0
}

func (tt *TermTab) Add(a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return tt.Const(a.n+b.n, w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.n == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return tt.Add(a.a, tt.Const(a.b.n+b.n, w))
		}
		if a.op == OZext && a.a.op == OAdd && a.a.b.op == OConst && a.a.a.umax+a.a.b.n <= wmask(a.a.w) && a.a.w < 64 {
			return tt.Add(tt.Zext(a.a.a, w), tt.Const(a.a.b.n+b.n, w))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return tt.Ite(a.a, tt.Const(a.b.n+b.n, w), tt.Const(a.c.n+b.n, w))
		}
	} else {
		if a.op == OAdd && a.b.op == OConst {
			return tt.Add(tt.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.op == OConst {
			return tt.Add(tt.Add(a, b.a), b.b)
		}
	}
	if a.ones&b.ones == 0 {
		return tt.Bor(a, b)
	}
	s, carry := bits.Add64(a.umax, b.umax, 0)
	if carry == 0 && s <= wmask(w) {
		nw := uint8(bits.Len64(s))
		if nw == 0 {
			nw = 1
		}
		if nw < w {
			return tt.Zext(tt.mk(OAdd, nw, tt.Extract(a, nw-1, 0), tt.Extract(b, nw-1, 0), nil, 0, ""), w)
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAdd, w, a, b, nil, 0, "")
}

func (tt *TermTab) Neg(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(-a.n, a.w)
	}
	return tt.mk(ONeg, a.w, a, nil, nil, 0, "")
}

func (tt *TermTab) Sub(a, b *Term) *Term {
	if a == b {
		return tt.Const(0, a.w)
	}
	if b.op == OConst {
		return tt.Add(a, tt.Const(-b.n, a.w))
	}
	if a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst {
		return tt.Ite(b.a, tt.Const(a.n-b.b.n, a.w), tt.Const(a.n-b.c.n, a.w))
	}
	ab, ac := tt.splitAdd(a)
	bb, bc := tt.splitAdd(b)
	if ab != nil && ab == bb {
		return tt.Const(ac-bc, a.w)
	}
	// (x+y)-x
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if a.op == OZext && a.a.op == OAdd && b.op == OZext && b.a.op != OConst {
		// zext(p+q) - zext(p') where p is the zero-extended p'
		p, q := a.a.a, a.a.b
		if tt.Zext(p, a.w) == b {
			return tt.Zext(q, a.w)
		}
		if tt.Zext(q, a.w) == b {
			return tt.Zext(p, a.w)
		}
	}
	return tt.mk(OSub, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Mul(a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return tt.Const(a.n*b.n, w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.n == 0 {
			return b
		}
		if b.n == 1 {
			return a
		}
		if b.n&(b.n-1) == 0 {
			return tt.Shl(a, tt.Const(uint64(bits.TrailingZeros64(b.n)), w))
		}
	}
	hi, lo := bits.Mul64(a.umax, b.umax)
	if hi == 0 && lo <= wmask(w) {
		nw := uint8(bits.Len64(lo))
		if nw == 0 {
			nw = 1
		}
		if nw < w {
			return tt.Zext(tt.mk(OMul, nw, tt.Extract(a, nw-1, 0), tt.Extract(b, nw-1, 0), nil, 0, ""), w)
		}
	}
	return tt.mk(OMul, w, a, b, nil, 0, "")
}

// Udiv/Urem/Sdiv/Srem: callers guarantee b != 0.
func (tt *TermTab) Udiv(a, b *Term) *Term {
	if b.op == OConst {
		if b.n == 1 {
			return a
		}
		if a.op == OConst {
			return tt.Const(a.n/b.n, a.w)
		}
		if b.n&(b.n-1) == 0 {
			return tt.Lshr(a, tt.Const(uint64(bits.TrailingZeros64(b.n)), a.w))
		}
		if a.umax < b.n {
			return tt.Const(0, a.w)
		}
	}
	if w := narrowW(a, b); w < a.w {
		return tt.Zext(tt.Udiv(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0)), a.w)
	}
	return tt.mk(OUdiv, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Urem(a, b *Term) *Term {
	if b.op == OConst {
		if b.n == 1 {
			return tt.Const(0, a.w)
		}
		if a.op == OConst {
			return tt.Const(a.n%b.n, a.w)
		}
		if b.n&(b.n-1) == 0 {
			return tt.Band(a, tt.Const(b.n-1, a.w))
		}
		if a.umax < b.n {
			return a
		}
	}
	if w := narrowW(a, b); w < a.w {
		return tt.Zext(tt.Urem(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0)), a.w)
	}
	return tt.mk(OUrem, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Sdiv(a, b *Term) *Term {
	if a.umax < signBit(a.w) && b.umax < signBit(b.w) {
		return tt.Udiv(a, b)
	}
	if a.op == OConst && b.op == OConst {
		if b.n == wmask(b.w) {
			return tt.Const(-a.n, a.w)
		}
		return tt.Const(uint64(sx(a.n, a.w)/sx(b.n, b.w)), a.w)
	}
	return tt.mk(OSdiv, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Srem(a, b *Term) *Term {
	if a.umax < signBit(a.w) && b.umax < signBit(b.w) {
		return tt.Urem(a, b)
	}
	if a.op == OConst && b.op == OConst {
		if b.n == wmask(b.w) {
			return tt.Const(0, a.w)
		}
		return tt.Const(uint64(sx(a.n, a.w)%sx(b.n, b.w)), a.w)
	}
	return tt.mk(OSrem, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Band(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return tt.Const(a.n&b.n, a.w)
		}
		if b.n&a.ones == 0 {
			return tt.Const(0, a.w)
		}
		if b.n&a.ones == a.ones {
			return a
		}
		// low mask: extract
		if b.n&(b.n+1) == 0 {
			k := uint8(bits.Len64(b.n))
			return tt.Zext(tt.Extract(a, k-1, 0), a.w)
		}
		if a.op == OBand && a.b.op == OConst {
			return tt.Band(a.a, tt.Const(a.b.n&b.n, a.w))
		}
	}
	if a == b {
		return a
	}
	if a.ones&b.ones == 0 {
		return tt.Const(0, a.w)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBand, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Bor(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return tt.Const(a.n|b.n, a.w)
		}
		if b.n == 0 {
			return a
		}
		if b.n == wmask(b.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	// disjoint: try concat form: a has low bits only, b has high bits only
	if r := tt.tryConcat(a, b); r != nil {
		return r
	}
	if r := tt.tryConcat(b, a); r != nil {
		return r
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBor, a.w, a, b, nil, 0, "")
}

// tryConcat: lo occupies bits [0,k), hi occupies bits [k,w).
func (tt *TermTab) tryConcat(lo, hi *Term) *Term {
	if lo.op == OConst || hi.op == OConst {
		return nil
	}
	k := uint8(bits.Len64(lo.ones))
	if k == 0 || k >= lo.w {
		return nil
	}
	tz := uint8(bits.TrailingZeros64(hi.ones))
	if tz < k || tz >= hi.w {
		return nil
	}
	hw := uint8(bits.Len64(hi.ones))
	h := tt.Extract(hi, hw-1, tz)
	l := tt.Extract(lo, tz-1, 0)
	// only when it simplifies structurally
	return tt.Zext(tt.Concat(h, l), lo.w)
}

func (tt *TermTab) Bxor(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return tt.Const(a.n^b.n, a.w)
		}
		if b.n == 0 {
			return a
		}
		if a.op == OBxor && a.b.op == OConst {
			return tt.Bxor(a.a, tt.Const(a.b.n^b.n, a.w))
		}
	}
	if a == b {
		return tt.Const(0, a.w)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBxor, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Bnot(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(^a.n, a.w)
	}
	if a.op == OBnot {
		return a.a
	}
	return tt.mk(OBnot, a.w, a, nil, nil, 0, "")
}

// Shifts with Go semantics: shift count >= width gives 0 (or sign fill), which
// is also SMT-LIB semantics. b has the same width as a.
// constIte splits a choice between at most four constants, so that a shift by
// it becomes a choice between constant shifts.
func (tt *TermTab) constIte(t *Term) (c, x, y *Term, ok bool) {
	w := t.w
	if t.op == OZext {
		t = t.a
	}
	if t.op != OIte {
		return
	}
	if n := constLeaves(t, 4); n > 4 {
		return
	}
	return t.a, tt.Zext(t.b, w), tt.Zext(t.c, w), true
}

// constLeaves counts the leaves of a tree of choices between constants; it is
// over max when there are more, or when one is not a constant.
func constLeaves(t *Term, max int) int {
	switch {
	case t.op == OConst:
		return 1
	case t.op != OIte || max < 2:
		return max + 1
	}
	n := constLeaves(t.b, max-1)
	if n > max-1 {
		return max + 1
	}
	return n + constLeaves(t.c, max-n)
}

func (tt *TermTab) Shl(a, b *Term) *Term {
	if a.op != OConst {
		if c, x, y, ok := tt.constIte(b); ok {
			return tt.Ite(c, tt.Shl(a, x), tt.Shl(a, y))
		}
	}
	if b.op == OConst {
		if b.n == 0 {
			return a
		}
		if b.n >= uint64(a.w) {
			return tt.Const(0, a.w)
		}
		if a.op == OConst {
			return tt.Const(a.n<<b.n, a.w)
		}
		if a.op == OShl && a.b.op == OConst && a.b.n+b.n < uint64(a.w) {
			return tt.Shl(a.a, tt.Const(a.b.n+b.n, a.w))
		}
		// a shifted sum is the sum of the shifted terms, as in x*c + y*d
		if s := a; s.op == OAdd || s.op == OZext && s.a.op == OAdd {
			if s.op == OZext {
				s = s.a
			}
			t, carry := bits.Add64(s.a.umax, s.b.umax, 0)
			if s == a || carry == 0 && t <= wmask(s.w) {
				return tt.Add(tt.Shl(tt.Zext(s.a, a.w), b), tt.Shl(tt.Zext(s.b, a.w), b))
			}
		}
	}
	return tt.mk(OShl, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Lshr(a, b *Term) *Term {
	if a.op != OConst {
		if c, x, y, ok := tt.constIte(b); ok {
			return tt.Ite(c, tt.Lshr(a, x), tt.Lshr(a, y))
		}
	}
	if b.op == OConst {
		if b.n == 0 {
			return a
		}
		if b.n >= uint64(a.w) || a.umax>>b.n == 0 {
			return tt.Const(0, a.w)
		}
		if a.op == OConst {
			return tt.Const(a.n>>b.n, a.w)
		}
		return tt.Zext(tt.Extract(a, a.w-1, uint8(b.n)), a.w)
	}
	return tt.mk(OLshr, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Ashr(a, b *Term) *Term {
	if a.op != OConst {
		if c, x, y, ok := tt.constIte(b); ok {
			return tt.Ite(c, tt.Ashr(a, x), tt.Ashr(a, y))
		}
	}
	if a.umax < signBit(a.w) {
		return tt.Lshr(a, b)
	}
	if b.op == OConst {
		if b.n == 0 {
			return a
		}
		n := b.n
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if a.op == OConst {
			return tt.Const(uint64(sx(a.n, a.w)>>n), a.w)
		}
		return tt.Sext(tt.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return tt.mk(OAshr, a.w, a, b, nil, 0, "")
}

func (tt *TermTab) Concat(h, l *Term) *Term {
	w := h.w + l.w
	if h.op == OConst && l.op == OConst {
		return tt.Const(h.n<<l.w|l.n, w)
	}
	if h.op == OConst && h.n == 0 {
		return tt.Zext(l, w)
	}
	if h.op == OZext {
		return tt.Zext(tt.Concat(h.a, l), w)
	}
	if h.op == OExtract && l.op == OExtract && h.a == l.a && (h.n&255) == (l.n>>8)+1 {
		return tt.Extract(h.a, uint8(h.n>>8), uint8(l.n&255))
	}
	return tt.mk(OConcat, w, h, l, nil, 0, "")
}

func (tt *TermTab) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return tt.Const(a.n>>lo, w)
	}
	if (a.ones>>lo)&wmask(w) == 0 {
		return tt.Const(0, w)
	}
	switch a.op {
	case OExtract:
		l := uint8(a.n & 255)
		return tt.Extract(a.a, hi+l, lo+l)
	case OZext:
		iw := a.a.w
		if hi < iw {
			return tt.Extract(a.a, hi, lo)
		}
		// lo < iw (otherwise ones would be zero)
		return tt.Zext(tt.Extract(a.a, iw-1, lo), w)
	case OSext:
		iw := a.a.w
		if hi < iw {
			return tt.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return tt.Sext(a.a, w)
		}
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return tt.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return tt.Extract(a.a, hi-lw, lo-lw)
		}
		return tt.Concat(tt.Extract(a.a, hi-lw, 0), tt.Extract(a.b, lw-1, lo))
	case OBand:
		return tt.Band(tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OBor:
		return tt.Bor(tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OBxor:
		return tt.Bxor(tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OBnot:
		return tt.Bnot(tt.Extract(a.a, hi, lo))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst || w <= 8 {
			return tt.Ite(a.a, tt.Extract(a.b, hi, lo), tt.Extract(a.c, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return tt.Add(tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return tt.Sub(tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return tt.Mul(tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		}
	case OShl:
		if a.b.op == OConst {
			s := uint8(a.b.n)
			if lo >= s {
				return tt.Extract(a.a, hi-s, lo-s)
			}
			if hi >= s { // lo < s <= hi
				return tt.Concat(tt.Extract(a.a, hi-s, 0), tt.Const(0, s-lo))
			}
		}
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, w-1, 0)
	}
	if a.op == OConst {
		return tt.Const(a.n, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, a, nil, nil, 0, "")
}

func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, w-1, 0)
	}
	if a.op == OConst {
		return tt.Const(uint64(sx(a.n, a.w)), w)
	}
	if a.umax < signBit(a.w) {
		return tt.Zext(a, w)
	}
	if a.op == OSext {
		return tt.Sext(a.a, w)
	}
	return tt.mk(OSext, w, a, nil, nil, 0, "")
}

// selectRun reads from a run of stores at consecutive addresses base+c without
// one array axiom per store.
func (tt *TermTab) selectRun(arr, i, base *Term) *Term {
	m := map[uint64]*Term{}
	lo, hi := ^uint64(0), uint64(0)
	a := arr
	for a.op == OStore {
		b, c := tt.splitAdd(a.b)
		if b != base {
			break
		}
		if m[c] == nil {
			m[c] = a.c
			if c < lo {
				lo = c
			}
			if c > hi {
				hi = c
			}
		}
		a = a.a
	}
	n := uint64(len(m))
	if n < 4 || hi-lo != n-1 {
		return nil
	}
	start := tt.Const(lo, i.w)
	if base != nil {
		start = tt.Add(base, start)
	}
	off := tt.Sub(i, start)
	var tree func(bit int, v uint64) *Term
	nb := 0
	for uint64(1)<<uint(nb) < n {
		nb++
	}
	tree = func(bit int, v uint64) *Term {
		if bit < 0 {
			if v >= n {
				return m[hi]
			}
			return m[lo+v]
		}
		if v >= n {
			return m[hi]
		}
		b := tt.Eq(tt.Extract(off, uint8(bit), uint8(bit)), tt.Const(1, 1))
		return tt.Ite(b, tree(bit-1, v|1<<uint(bit)), tree(bit-1, v))
	}
	return tt.Ite(tt.Ult(off, tt.Const(n, i.w)), tree(nb-1, 0), tt.Select(a, i))
}

func (tt *TermTab) Select(arr, i *Term) *Term {
	for arr.op == OStore {
		if arr.b == i {
			return arr.c
		}
		if arr.b.op == OConst && i.op == OConst {
			arr = arr.a
			continue
		}
		b1, c1 := tt.splitAdd(arr.b)
		b2, c2 := tt.splitAdd(i)
		if b1 == b2 && c1 != c2 {
			arr = arr.a
			continue
		}
		if r := tt.selectRun(arr, i, b1); r != nil {
			return r
		}
		break
	}
	return tt.mk(OSelect, 8, arr, i, nil, 0, "")
}

func (tt *TermTab) Store(arr, i, v *Term) *Term {
	if arr.op == OStore && arr.b == i {
		arr = arr.a
	}
	return tt.mk(OStore, wArr, arr, i, v, arr.n, "")
}

// ---- model & evaluation

type Model struct {
	v   map[string]uint64
	arr map[string]map[uint64]byte
}

func newModel() *Model {
	return &Model{v: map[string]uint64{}, arr: map[string]map[uint64]byte{}}
}

func (m *Model) clone() *Model {
	r := newModel()
	for k, v := range m.v {
		r.v[k] = v
	}
	for k, a := range m.arr {
		c := make(map[uint64]byte, len(a))
		for i, b := range a {
			c[i] = b
		}
		r.arr[k] = c
	}
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTab) Eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.n
	}
	if t.epoch == tt.epoch {
		return t.val
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.v[t.name]
	case ONot:
		r = 1 - tt.Eval(t.a, m)
	case OAnd:
		r = 0
		if tt.Eval(t.a, m) == 1 {
			r = tt.Eval(t.b, m)
		}
	case OOr:
		r = 1
		if tt.Eval(t.a, m) == 0 {
			r = tt.Eval(t.b, m)
		}
	case OIte:
		if tt.Eval(t.a, m) == 1 {
			r = tt.Eval(t.b, m)
		} else {
			r = tt.Eval(t.c, m)
		}
	case OSelect:
		i := tt.Eval(t.b, m)
		arr := t.a
		for arr.op == OStore {
			if tt.Eval(arr.b, m) == i {
				break
			}
			arr = arr.a
		}
		if arr.op == OStore {
			r = tt.Eval(arr.c, m)
		} else {
			r = uint64(m.arr[arr.name][i])
		}
	default:
		x := tt.Eval(t.a, m)
		var y uint64
		if t.b != nil {
			y = tt.Eval(t.b, m)
		}
		w := t.a.w
		switch t.op {
		case OEq:
			r = b2u(x == y)
		case OUlt:
			r = b2u(x < y)
		case OUle:
			r = b2u(x <= y)
		case OSlt:
			r = b2u(sx(x, w) < sx(y, w))
		case OSle:
			r = b2u(sx(x, w) <= sx(y, w))
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUdiv:
			if y == 0 {
				r = wmask(w)
			} else {
				r = x / y
			}
		case OUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSdiv:
			switch {
			case y == 0:
				if sx(x, w) >= 0 {
					r = wmask(w)
				} else {
					r = 1
				}
			case y == wmask(w):
				r = -x
			default:
				r = uint64(sx(x, w) / sx(y, w))
			}
		case OSrem:
			switch {
			case y == 0:
				r = x
			case y == wmask(w):
				r = 0
			default:
				r = uint64(sx(x, w) % sx(y, w))
			}
		case OBand:
			r = x & y
		case OBor:
			r = x | y
		case OBxor:
			r = x ^ y
		case OBnot:
			r = ^x
		case ONeg:
			r = -x
		case OShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sx(x, w) >> y)
		case OConcat:
			r = x<<t.b.w | y
		case OExtract:
			r = x >> (t.n & 255)
		case OZext:
			r = x
		case OSext:
			r = uint64(sx(x, w))
		default:
			panic(fmt.Sprintf("eval op %d", t.op))
		}
		r &= wmask2(t.w)
	}
	t.epoch = tt.epoch
	t.val = r
	return r
}

func wmask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return wmask(w)
}

// Vars returns the indexes of the variables of t.
func (tt *TermTab) Vars(t *Term) []int32 {
	if t.varsOK {
		return t.vars
	}
	tt.markN++
	var out []int32
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || t.mark == tt.markN {
			return
		}
		t.mark = tt.markN
		if t.op == OVar || t.op == OArrVar {
			out = append(out, tt.vidx[t])
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	rec(t)
	t.vars, t.varsOK = out, true
	return out
}

// Keys returns the variables and array reads a term is built from; what an
// array read itself depends on is not included.
func (tt *TermTab) Keys(t *Term) []int32 {
	if t.keysOK {
		return t.keys
	}
	tt.markN++
	var out []int32
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || t.mark == tt.markN {
			return
		}
		t.mark = tt.markN
		if t.op == OVar || t.op == OArrVar || t.op == OSelect {
			out = append(out, t.id)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	rec(t)
	t.keys, t.keysOK = out, true
	return out
}
