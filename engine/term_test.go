package main

import (
	"math/rand"
	"testing"
)

// Random differential test of the simplifying constructors against raw nodes.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	tt := newTermTab()
	widths := []uint8{1, 3, 8, 16, 64}
	type pair struct{ s, r *Term }
	for iter := 0; iter < 20000; iter++ {
		var gen func(w uint8, d int) pair
		raw := func(op Op, w uint8, a, b, c *Term, n uint64) *Term {
			return tt.mkr(op, w, a, b, c, n, "", true)
		}
		gen = func(w uint8, d int) pair {
			if d == 0 || rng.Intn(6) == 0 {
				if rng.Intn(3) == 0 {
					n := rng.Uint64() >> uint(rng.Intn(64))
					if w == 0 {
						n &= 1
					}
					c := tt.Const(n, w)
					if w == 0 {
						c = tt.Bool(n == 1)
					}
					return pair{c, c}
				}
				v := tt.Var(string(rune('a'+rng.Intn(3)))+string(rune('A'+w)), w)
				return pair{v, v}
			}
			if w == 0 {
				switch rng.Intn(9) {
				case 0:
					a := gen(0, d-1)
					return pair{tt.Not(a.s), raw(ONot, 0, a.r, nil, nil, 0)}
				case 1:
					a, b := gen(0, d-1), gen(0, d-1)
					return pair{tt.And(a.s, b.s), raw(OAnd, 0, a.r, b.r, nil, 0)}
				case 2:
					a, b := gen(0, d-1), gen(0, d-1)
					return pair{tt.Or(a.s, b.s), raw(OOr, 0, a.r, b.r, nil, 0)}
				case 3:
					a, b := gen(0, d-1), gen(0, d-1)
					return pair{tt.Eq(a.s, b.s), raw(OEq, 0, a.r, b.r, nil, 0)}
				}
				ww := widths[rng.Intn(len(widths))]
				a, b := gen(ww, d-1), gen(ww, d-1)
				switch rng.Intn(5) {
				case 0:
					return pair{tt.Eq(a.s, b.s), raw(OEq, 0, a.r, b.r, nil, 0)}
				case 1:
					return pair{tt.Ult(a.s, b.s), raw(OUlt, 0, a.r, b.r, nil, 0)}
				case 2:
					return pair{tt.Ule(a.s, b.s), raw(OUle, 0, a.r, b.r, nil, 0)}
				case 3:
					return pair{tt.Slt(a.s, b.s), raw(OSlt, 0, a.r, b.r, nil, 0)}
				default:
					return pair{tt.Sle(a.s, b.s), raw(OSle, 0, a.r, b.r, nil, 0)}
				}
			}
			switch rng.Intn(19) {
			case 0:
				c, a, b := gen(0, d-1), gen(w, d-1), gen(w, d-1)
				return pair{tt.Ite(c.s, a.s, b.s), raw(OIte, w, c.r, a.r, b.r, 0)}
			case 1, 15:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Add(a.s, b.s), raw(OAdd, w, a.r, b.r, nil, 0)}
			case 2:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Sub(a.s, b.s), raw(OSub, w, a.r, b.r, nil, 0)}
			case 3:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Mul(a.s, b.s), raw(OMul, w, a.r, b.r, nil, 0)}
			case 4:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Band(a.s, b.s), raw(OBand, w, a.r, b.r, nil, 0)}
			case 5, 16:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Bor(a.s, b.s), raw(OBor, w, a.r, b.r, nil, 0)}
			case 6:
				a, b := gen(w, d-1), gen(w, d-1)
				return pair{tt.Bxor(a.s, b.s), raw(OBxor, w, a.r, b.r, nil, 0)}
			case 7, 17:
				a := gen(w, d-1)
				k := tt.Const(uint64(rng.Intn(int(w)+2)), w)
				switch rng.Intn(3) {
				case 0:
					return pair{tt.Shl(a.s, k), raw(OShl, w, a.r, k, nil, 0)}
				case 1:
					return pair{tt.Lshr(a.s, k), raw(OLshr, w, a.r, k, nil, 0)}
				default:
					return pair{tt.Ashr(a.s, k), raw(OAshr, w, a.r, k, nil, 0)}
				}
			case 8:
				a, b := gen(w, d-1), gen(w, d-1)
				switch rng.Intn(3) {
				case 0:
					return pair{tt.Shl(a.s, b.s), raw(OShl, w, a.r, b.r, nil, 0)}
				case 1:
					return pair{tt.Lshr(a.s, b.s), raw(OLshr, w, a.r, b.r, nil, 0)}
				default:
					return pair{tt.Ashr(a.s, b.s), raw(OAshr, w, a.r, b.r, nil, 0)}
				}
			case 9:
				a := gen(w, d-1)
				n := rng.Uint64()>>uint(rng.Intn(64))&wmask(w) | 1
				k := tt.Const(n, w)
				switch rng.Intn(4) {
				case 0:
					return pair{tt.Udiv(a.s, k), raw(OUdiv, w, a.r, k, nil, 0)}
				case 1:
					return pair{tt.Urem(a.s, k), raw(OUrem, w, a.r, k, nil, 0)}
				case 2:
					return pair{tt.Sdiv(a.s, k), raw(OSdiv, w, a.r, k, nil, 0)}
				default:
					return pair{tt.Srem(a.s, k), raw(OSrem, w, a.r, k, nil, 0)}
				}
			case 10, 18:
				if w == 1 {
					return gen(w, d-1)
				}
				var ww uint8
				for {
					ww = widths[rng.Intn(len(widths))]
					if ww < w {
						break
					}
				}
				a := gen(ww, d-1)
				if rng.Intn(3) > 0 {
					return pair{tt.Zext(a.s, w), raw(OZext, w, a.r, nil, nil, 0)}
				}
				return pair{tt.Sext(a.s, w), raw(OSext, w, a.r, nil, nil, 0)}
			case 11, 14:
				if w == 64 {
					return gen(w, d-1)
				}
				a := gen(64, d-1)
				lo := uint8(rng.Intn(int(64 - w + 1)))
				return pair{tt.Extract(a.s, lo+w-1, lo), raw(OExtract, w, a.r, nil, nil, uint64(lo+w-1)<<8|uint64(lo))}
			case 12:
				if w == 16 {
					a, b := gen(8, d-1), gen(8, d-1)
					return pair{tt.Concat(a.s, b.s), raw(OConcat, w, a.r, b.r, nil, 0)}
				}
				return gen(w, d-1)
			default:
				a := gen(w, d-1)
				if rng.Intn(2) == 0 {
					return pair{tt.Bnot(a.s), raw(OBnot, w, a.r, nil, nil, 0)}
				}
				return pair{tt.Neg(a.s), raw(ONeg, w, a.r, nil, nil, 0)}
			}
		}
		w := append([]uint8{0}, widths...)[rng.Intn(6)]
		p := gen(w, 5)
		if p.s.w != p.r.w {
			t.Fatalf("width mismatch %d %d", p.s.w, p.r.w)
		}
		for k := 0; k < 12; k++ {
			m := newModel()
			for _, v := range tt.vars {
				m.v[v.name] = (rng.Uint64() >> uint(rng.Intn(64))) & wmask2(v.w)
				if rng.Intn(4) == 0 {
					m.v[v.name] = wmask2(v.w)
				}
			}
			tt.epoch++
			a, b := tt.Eval(p.s, m), tt.Eval(p.r, m)
			if a != b {
				t.Fatalf("iter %d: simplified %s = %d, raw %s = %d under %v", iter, smtStr(p.s), a, smtStr(p.r), b, m.v)
			}
			if p.s.w > 0 && (a > p.s.umax || a&^p.s.ones != 0) {
				t.Fatalf("bounds wrong for %s: %d umax %d ones %x", smtStr(p.s), a, p.s.umax, p.s.ones)
			}
		}
	}
}
