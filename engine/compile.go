package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	opNop = iota
	opAlloc
	opBin
	opUn
	opLoad
	opCall
	opChangeType
	opConvert
	opChangeIface
	opMakeIface
	opExtract
	opField
	opFieldAddr
	opIndex
	opIndexAddr
	opLookup
	opMakeClosure
	opMakeMap
	opMakeSlice
	opMapUpdate
	opRange
	opNext
	opSlice
	opStore
	opTypeAssert
	opDefer
	opRunDefers
	opPanic
	opReturn
	opJump
	opIf
	opSliceToArr
	opUnsup
)

const (
	oReg = iota
	oConst
	oGlobal
	oAggZero
)

type Opnd struct {
	k uint8
	r int32
	v V
	g *ssa.Global
	l *Layout
}

type Ins struct {
	op   uint8
	tok  token.Token
	ok   bool // comma-ok
	dst  int32
	a, b Opnd
	c, d Opnd
	args []Opnd
	ki   KI // operand kind
	ki2  KI // result kind
	l    *Layout
	n    int
	in   ssa.Instruction
	call *ssa.CallCommon
	spec bool // may be executed speculatively
}

type PhiI struct {
	dst   int32
	edges []Opnd
	l     *Layout
}

type Blk struct {
	idx     int
	phis    []PhiI
	ins     []Ins
	npreds  int
	succ    []*Blk
	succPos []int // position of the edge among the successor's preds
	spec    bool  // whole block may be executed speculatively
	hasSt   bool  // contains stores or calls
	rpo     int
}

type Fn struct {
	f        *ssa.Function
	nregs    int
	blocks   []*Blk
	hasDefer bool
	rec      *Blk
	params   []int32
	free     []int32
	named    []int32
	repo     bool
	intr     func(it *Interp, fn *Fn, args []V) (V, bool)
}

type Prog struct {
	prog  *ssa.Program
	mu    sync.RWMutex
	fns   map[*ssa.Function]*Fn
	repo  string // import path prefix of the code under test
	dir   string
	sizes types.Sizes
	pkgs  map[string]*ssa.Package
	rtErr types.Type
	embed map[string][]byte
	mmu   sync.Mutex
}

func (P *Prog) isRepo(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	s := p.Pkg.Path()
	return s == P.repo || strings.HasPrefix(s, P.repo+"/")
}

func (P *Prog) sizeof(t types.Type) int64 {
	P.mmu.Lock()
	defer P.mmu.Unlock()
	return P.sizes.Sizeof(t)
}

func (P *Prog) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	P.mmu.Lock()
	defer P.mmu.Unlock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (P *Prog) fn(f *ssa.Function) *Fn {
	P.mu.RLock()
	c := P.fns[f]
	P.mu.RUnlock()
	if c != nil {
		return c
	}
	c = P.compile(f)
	P.mu.Lock()
	if o := P.fns[f]; o != nil {
		c = o
	} else {
		P.fns[f] = c
	}
	P.mu.Unlock()
	return c
}

func constV(c *ssa.Const) (V, *Layout) {
	l := lay(c.Type())
	if c.Value == nil {
		if l.agg {
			return V{}, l
		}
		return V{}, nil
	}
	switch l.ki.cls {
	case kBool:
		return V{n: b2u(constant.BoolVal(c.Value))}, nil
	case kInt:
		v := constant.ToInt(c.Value)
		if l.ki.signed {
			if n, ok := constant.Int64Val(v); ok {
				return V{n: uint64(n) & wmask(l.ki.w)}, nil
			}
		}
		n, _ := constant.Uint64Val(v)
		if constant.Sign(v) < 0 {
			i, _ := constant.Int64Val(v)
			n = uint64(i)
		}
		return V{n: n & wmask(l.ki.w)}, nil
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return fromFloat(f, l.ki), nil
	case kString:
		if c.Value.Kind() == constant.String {
			return V{x: constant.StringVal(c.Value)}, nil
		}
	case kComplex:
		return V{}, nil
	}
	return V{x: unsupErr("const " + c.String())}, nil
}

func toFloat(v V, ki KI) float64 {
	if v.t != nil {
		panic(unsup("symbolic float"))
	}
	if ki.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func fromFloat(f float64, ki KI) V {
	if ki.w == 32 {
		return V{n: uint64(math.Float32bits(float32(f)))}
	}
	return V{n: math.Float64bits(f)}
}

func (P *Prog) compile(f *ssa.Function) *Fn {
	fn := &Fn{f: f}
	regs := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		r := int32(fn.nregs)
		fn.nregs++
		regs[v] = r
		return r
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, alloc(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, alloc(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	opnd := func(v ssa.Value) Opnd {
		switch x := v.(type) {
		case nil:
			return Opnd{k: oConst}
		case *ssa.Const:
			cv, l := constV(x)
			if l != nil {
				return Opnd{k: oAggZero, l: l}
			}
			return Opnd{k: oConst, v: cv}
		case *ssa.Global:
			return Opnd{k: oGlobal, g: x}
		case *ssa.Function:
			return Opnd{k: oConst, v: V{x: x}}
		case *ssa.Builtin:
			return Opnd{k: oConst, v: V{x: x}}
		}
		return Opnd{k: oReg, r: regs[v]}
	}
	blks := make([]*Blk, len(f.Blocks))
	for i := range f.Blocks {
		blks[i] = &Blk{idx: i, npreds: len(f.Blocks[i].Preds)}
	}
	for i, b := range f.Blocks {
		k := blks[i]
		k.spec = true
		for si, s := range b.Succs {
			k.succ = append(k.succ, blks[s.Index])
			nth := 0
			for sj := 0; sj < si; sj++ {
				if b.Succs[sj] == s {
					nth++
				}
			}
			pos := -1
			for pi, p := range s.Preds {
				if p == b {
					if nth == 0 {
						pos = pi
						break
					}
					nth--
				}
			}
			k.succPos = append(k.succPos, pos)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := PhiI{dst: regs[ph], l: lay(ph.Type())}
				for _, e := range ph.Edges {
					p.edges = append(p.edges, opnd(e))
				}
				k.phis = append(k.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			I := Ins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				I.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				I.op = opAlloc
				I.l = lay(x.Type().Underlying().(*types.Pointer).Elem())
				I.spec = true
			case *ssa.BinOp:
				I.op = opBin
				I.tok = x.Op
				I.a, I.b = opnd(x.X), opnd(x.Y)
				I.ki = kindOf(x.X.Type())
				I.ki2 = kindOf(x.Y.Type())
				I.l = lay(x.X.Type())
				I.spec = true
			case *ssa.UnOp:
				I.a = opnd(x.X)
				I.ki = kindOf(x.X.Type())
				if x.Op == token.MUL {
					I.op = opLoad
					I.l = lay(x.Type())
					I.spec = true
				} else if x.Op == token.ARROW {
					I.op = opUnsup
				} else {
					I.op = opUn
					I.tok = x.Op
					I.spec = true
				}
			case *ssa.Call:
				I.op = opCall
				I.call = &x.Call
				if !x.Call.IsInvoke() {
					I.a = opnd(x.Call.Value)
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "len", "cap", "min", "max":
							I.spec = true
						case "copy", "append":
							I.spec = true
							k.hasSt = true
						}
					} else {
						I.spec = true
						k.hasSt = true
					}
				} else {
					I.a = opnd(x.Call.Value)
					I.spec = true
					k.hasSt = true
				}
				for _, a := range x.Call.Args {
					I.args = append(I.args, opnd(a))
				}
			case *ssa.Defer:
				I.op = opDefer
				I.call = &x.Call
				I.a = opnd(x.Call.Value)
				for _, a := range x.Call.Args {
					I.args = append(I.args, opnd(a))
				}
				fn.hasDefer = true
			case *ssa.RunDefers:
				I.op = opRunDefers
			case *ssa.ChangeType:
				I.op = opChangeType
				I.a = opnd(x.X)
				I.spec = true
			case *ssa.Convert:
				I.op = opConvert
				I.a = opnd(x.X)
				I.ki = kindOf(x.X.Type())
				I.ki2 = kindOf(x.Type())
				I.l = lay(x.X.Type())
				I.spec = true
			case *ssa.MultiConvert:
				I.op = opUnsup
			case *ssa.ChangeInterface:
				I.op = opChangeIface
				I.a = opnd(x.X)
				I.spec = true
			case *ssa.MakeInterface:
				I.op = opMakeIface
				I.a = opnd(x.X)
				I.l = lay(x.X.Type())
				I.spec = true
			case *ssa.Extract:
				I.op = opExtract
				I.a = opnd(x.Tuple)
				I.n = x.Index
				I.spec = true
			case *ssa.Field:
				I.op = opField
				I.a = opnd(x.X)
				sl := lay(x.X.Type())
				I.n = sl.offs[x.Field]
				I.l = sl.flds[x.Field]
				I.spec = true
			case *ssa.FieldAddr:
				I.op = opFieldAddr
				I.a = opnd(x.X)
				sl := lay(x.X.Type().Underlying().(*types.Pointer).Elem())
				I.n = sl.offs[x.Field]
				I.spec = true
			case *ssa.Index:
				I.op = opIndex
				I.a, I.b = opnd(x.X), opnd(x.Index)
				I.l = lay(x.X.Type())
				I.ki = kindOf(x.Index.Type())
				I.spec = true
			case *ssa.IndexAddr:
				I.op = opIndexAddr
				I.a, I.b = opnd(x.X), opnd(x.Index)
				I.ki = kindOf(x.Index.Type())
				switch u := x.X.Type().Underlying().(type) {
				case *types.Slice:
					I.l = lay(u.Elem())
					I.n = -1
				case *types.Pointer:
					al := lay(u.Elem())
					I.l = al.elem
					I.n = al.n
				}
				I.spec = true
			case *ssa.Lookup:
				I.op = opLookup
				I.a, I.b = opnd(x.X), opnd(x.Index)
				I.ok = x.CommaOk
				I.ki = kindOf(x.Index.Type())
				I.l = lay(x.X.Type())
				I.spec = true
			case *ssa.MakeClosure:
				I.op = opMakeClosure
				I.a = opnd(x.Fn)
				for _, a := range x.Bindings {
					I.args = append(I.args, opnd(a))
				}
			case *ssa.MakeMap:
				I.op = opMakeMap
			case *ssa.MakeSlice:
				I.op = opMakeSlice
				I.a, I.b = opnd(x.Len), opnd(x.Cap)
				I.l = lay(x.Type().Underlying().(*types.Slice).Elem())
				I.spec = true
			case *ssa.MapUpdate:
				I.op = opMapUpdate
				I.a, I.b, I.c = opnd(x.Map), opnd(x.Key), opnd(x.Value)
				I.l = lay(x.Map.Type())
			case *ssa.Range:
				I.op = opRange
				I.a = opnd(x.X)
				I.l = lay(x.X.Type())
			case *ssa.Next:
				I.op = opNext
				I.a = opnd(x.Iter)
				I.ok = x.IsString
			case *ssa.Slice:
				I.op = opSlice
				I.a = opnd(x.X)
				I.n = 0
				if x.Low != nil {
					I.b = opnd(x.Low)
					I.n |= 1
				}
				if x.High != nil {
					I.c = opnd(x.High)
					I.n |= 2
				}
				if x.Max != nil {
					I.d = opnd(x.Max)
					I.n |= 4
				}
				I.l = lay(x.X.Type())
				I.spec = true
			case *ssa.SliceToArrayPointer:
				I.op = opSliceToArr
				I.a = opnd(x.X)
				I.l = lay(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Store:
				I.op = opStore
				I.a, I.b = opnd(x.Addr), opnd(x.Val)
				I.l = lay(x.Val.Type())
				I.spec = true
				k.hasSt = true
			case *ssa.TypeAssert:
				I.op = opTypeAssert
				I.a = opnd(x.X)
				I.ok = x.CommaOk
				I.l = lay(x.AssertedType)
				I.spec = true
			case *ssa.Panic:
				I.op = opPanic
				I.a = opnd(x.X)
			case *ssa.Return:
				I.op = opReturn
				for _, r := range x.Results {
					I.args = append(I.args, opnd(r))
				}
				I.spec = true
			case *ssa.Jump:
				I.op = opJump
				I.spec = true
			case *ssa.If:
				I.op = opIf
				I.a = opnd(x.Cond)
				I.spec = true
			default:
				I.op = opUnsup
			}
			if !I.spec {
				k.spec = false
			}
			k.ins = append(k.ins, I)
		}
		if len(k.ins) > 60 {
			k.spec = false
		}
	}
	fn.blocks = blks
	// reverse post-order
	if len(blks) > 0 {
		seen := make([]bool, len(blks))
		n := len(blks)
		var dfs func(b *Blk)
		dfs = func(b *Blk) {
			seen[b.idx] = true
			for i := len(b.succ) - 1; i >= 0; i-- {
				if !seen[b.succ[i].idx] {
					dfs(b.succ[i])
				}
			}
			n--
			b.rpo = n
		}
		dfs(blks[0])
	}
	fn.repo = P.isRepo(f.Pkg)
	fn.intr = intrinsics[f.String()]
	if f.Recover != nil {
		fn.rec = blks[f.Recover.Index]
	}
	return fn
}
