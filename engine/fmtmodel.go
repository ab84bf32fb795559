package main

import (
	"fmt"
	"go/types"
	"strings"
)

// fmtInt formats an integer; symbolic values are split on their digit count.
func (it *Interp) fmtInt(v V, ki KI, base int, upper bool) V {
	if v.t == nil {
		var s string
		if ki.signed {
			n := sx(v.n, ki.w)
			if base == 16 {
				s = fmt.Sprintf("%x", n)
			} else {
				s = fmt.Sprintf("%d", n)
			}
		} else if base == 16 {
			s = fmt.Sprintf("%x", v.n)
		} else {
			s = fmt.Sprintf("%d", v.n)
		}
		if upper {
			s = strings.ToUpper(s)
		}
		return mkStr(s)
	}
	tt := it.tt
	x := it.ext64(v, ki)
	neg := ""
	if ki.signed && x.umax >= 1<<63 {
		if it.branch(tt.Slt(x, tt.Const(0, 64))) {
			neg = "-"
			x = tt.Neg(x)
		}
	}
	nd := 1
	lim := uint64(base)
	for nd < 17 {
		if x.umax < lim {
			break
		}
		if it.branch(tt.Ult(x, tt.Const(lim, 64))) {
			break
		}
		nd++
		if lim > 1<<63/uint64(base) {
			panic(unsup("formatting wide symbolic integer"))
		}
		lim *= uint64(base)
	}
	ds := make([]*Term, nd)
	p := uint64(1)
	for i := nd - 1; i >= 0; i-- {
		d := tt.Urem(tt.Udiv(x, tt.Const(p, 64)), tt.Const(uint64(base), 64))
		d8 := tt.Extract(d, 7, 0)
		c := tt.Add(d8, tt.Const('0', 8))
		if base == 16 {
			a := uint64('a' - 10)
			if upper {
				a = 'A' - 10
			}
			c = tt.Ite(tt.Ult(d8, tt.Const(10, 8)), c, tt.Add(d8, tt.Const(a, 8)))
		}
		ds[i] = c
		p *= uint64(base)
	}
	r := mkSymStr(make([]byte, nd), ds)
	if neg != "" {
		r = it.strConcat(mkStr(neg), r)
	}
	return r
}

type fspec struct {
	flags string
	width int
	prec  int
	hasW  bool
	hasP  bool
	verb  byte
}

func (f *fspec) has(c byte) bool { return strings.IndexByte(f.flags, c) >= 0 }

func (f *fspec) String() string {
	s := "%" + f.flags
	if f.hasW {
		s += fmt.Sprint(f.width)
	}
	if f.hasP {
		s += "." + fmt.Sprint(f.prec)
	}
	return s + string(rune(f.verb))
}

func (it *Interp) pad(f *fspec, s V) V {
	if !f.hasW {
		return s
	}
	n := it.strLen(s)
	if n >= f.width {
		return s
	}
	if f.has('-') {
		return it.strConcat(s, mkStr(strings.Repeat(" ", f.width-n)))
	}
	if f.has('0') {
		if b := it.strAt(it.forceStr(s), 0); b.t == nil && b.n == '-' {
			return it.strConcat(mkStr("-"+strings.Repeat("0", f.width-n)), it.strSlice(s, 1, n))
		}
		return it.strConcat(mkStr(strings.Repeat("0", f.width-n)), s)
	}
	return it.strConcat(mkStr(strings.Repeat(" ", f.width-n)), s)
}

// fmtArg formats one operand.
func (it *Interp) fmtArg(f *fspec, arg V, depth int) V {
	i, _ := arg.x.(*Iface)
	if i == nil {
		if f.verb == 'v' || f.verb == 'w' || f.verb == 's' {
			if f.verb == 'v' || f.verb == 'w' {
				return it.pad(f, mkStr("<nil>"))
			}
			return mkStr("%!s(<nil>)")
		}
		return mkStr("%!" + string(rune(f.verb)) + "(<nil>)")
	}
	if f.verb == 'w' {
		g := *f
		g.verb = 'v'
		f = &g
	}
	if f.verb == 'T' {
		return mkStr(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	if f.verb == 'p' {
		return mkStr("0xc000000000")
	}
	if depth > 30 {
		panic(unsup("fmt depth"))
	}
	if strings.IndexByte("vsxXq", f.verb) >= 0 && !f.has('#') {
		for _, m := range []string{"Error", "String"} {
			fn := it.P.lookupMethod(i.t, nil, m)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && kindOf(fn.Signature.Results().At(0).Type()).cls == kString {
				if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr && i.v.x == nil {
					return mkStr("<nil>")
				}
				s := it.call(fn, []V{i.v}, nil)
				return it.fmtStr(f, s)
			}
		}
	}
	l := lay(i.t)
	switch l.ki.cls {
	case kBool:
		b := it.branchT(it.boolTerm(i.v))
		return it.pad(f, mkStr(fmt.Sprint(b)))
	case kInt:
		if i.v.t == nil {
			if l.ki.signed {
				return mkStr(fmt.Sprintf(f.String(), sx(i.v.n, l.ki.w)))
			}
			return mkStr(fmt.Sprintf(f.String(), i.v.n))
		}
		if f.has('#') || f.has('+') || f.has(' ') || f.hasP {
			panic(unsup("format flag on symbolic integer"))
		}
		switch f.verb {
		case 'd', 'v':
			return it.pad(f, it.fmtInt(i.v, l.ki, 10, false))
		case 'x':
			return it.pad(f, it.fmtInt(i.v, l.ki, 16, false))
		case 'X':
			return it.pad(f, it.fmtInt(i.v, l.ki, 16, true))
		case 'c':
			return it.pad(f, it.runeToStr(i.v, l.ki))
		}
		n := it.concretize(i.v.t)
		return it.fmtArg(f, V{x: &Iface{i.t, V{n: n}}}, depth)
	case kFloat:
		return mkStr(fmt.Sprintf(f.String(), toFloat(i.v, l.ki)))
	case kString:
		return it.fmtStr(f, i.v)
	case kSlice, kAgg:
		if _, isStruct := i.t.Underlying().(*types.Struct); isStruct {
			st := i.t.Underlying().(*types.Struct)
			r := mkStr("{")
			for k, fl := range l.flds {
				if k > 0 {
					r = it.strConcat(r, mkStr(" "))
				}
				if f.has('+') || f.has('#') {
					r = it.strConcat(r, mkStr(st.Field(k).Name()+":"))
				}
				fv := it.load(fl, V{x: i.v.x, n: uint64(l.offs[k])})
				ft := st.Field(k).Type()
				if types.IsInterface(ft) {
					r = it.strConcat(r, it.fmtArg(f, fv, depth+1))
				} else {
					r = it.strConcat(r, it.fmtArg(f, V{x: &Iface{ft, fv}}, depth+1))
				}
			}
			return it.strConcat(r, mkStr("}"))
		}
		var s *SliceV
		var el *Layout
		if l.ki.cls == kSlice {
			el = l.elem
			s = it.concSlice(sl(i.v), el.size)
		} else {
			el = l.elem
			s = &SliceV{a: i.v.x.(*Agg), len: l.n, cap: l.n}
		}
		if el.bytes && strings.IndexByte("sqxX", f.verb) >= 0 {
			return it.fmtStr(f, it.strFromAgg(s.a, s.off, s.len))
		}
		r := mkStr("[")
		for k := 0; k < s.len; k++ {
			if k > 0 {
				r = it.strConcat(r, mkStr(" "))
			}
			ev := it.elemAt(el, s, k)
			if types.IsInterface(el.t) {
				r = it.strConcat(r, it.fmtArg(f, ev, depth+1))
			} else {
				r = it.strConcat(r, it.fmtArg(f, V{x: &Iface{el.t, ev}}, depth+1))
			}
		}
		return it.strConcat(r, mkStr("]"))
	case kPtr:
		if i.v.x == nil {
			return mkStr("<nil>")
		}
		if el := i.t.Underlying().(*types.Pointer).Elem(); depth == 0 && lay(el).agg {
			return it.strConcat(mkStr("&"), it.fmtArg(f, V{x: &Iface{el, it.load(lay(el), i.v)}}, depth+1))
		}
		return mkStr("0xc000000000")
	case kMap:
		if f.verb == 'v' {
			if m, _ := i.v.x.(*MapV); m == nil || m.n == 0 && !m.logm {
				return mkStr("map[]")
			}
		}
	}
	panic(unsup("formatting " + i.t.String() + " with %" + string(rune(f.verb))))
}

func (it *Interp) fmtStr(f *fspec, s V) V {
	s = it.forceStr(s)
	if c, ok := s.x.(string); ok {
		return mkStr(fmt.Sprintf(f.String(), c))
	}
	if f.hasP {
		panic(unsup("precision on symbolic string"))
	}
	switch f.verb {
	case 's', 'v':
		c, t := it.strCells(s)
		if f.hasW && !it.allASCII(c, t) {
			panic(unsup("width on symbolic non-ASCII string"))
		}
		g := *f
		g.flags = strings.ReplaceAll(g.flags, "0", "")
		return it.pad(&g, s)
	case 'q':
		return mkStr(fmt.Sprintf("%q", it.conStr(s)))
	case 'x', 'X':
		x := s.x.(*SymStr)
		r := mkStr("")
		for k := range x.c {
			r = it.strConcat(r, it.pad(&fspec{flags: "0", width: 2, hasW: true}, it.fmtInt(it.strAt(s, k), KI{kInt, 8, false}, 16, f.verb == 'X')))
		}
		return r
	}
	panic(unsup("formatting symbolic string with %" + string(rune(f.verb))))
}

func (it *Interp) ifaceArgs(v V) []V {
	s := it.concSlice(sl(v), 1)
	r := make([]V, s.len)
	for i := range r {
		r[i] = it.get(s.a, s.off+i)
	}
	return r
}

func (it *Interp) sprintf(format string, args []V) V {
	out := mkStr("")
	lit := ""
	flush := func() {
		if lit != "" {
			out = it.strConcat(out, mkStr(lit))
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			lit += string([]byte{c})
			i++
			continue
		}
		i++
		var f fspec
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			f.flags += string(rune(format[i]))
			i++
		}
		if i < len(format) && format[i] == '*' {
			f.hasW = true
			if ai < len(args) {
				if w, ok := args[ai].x.(*Iface); ok && w.v.t == nil {
					f.width = int(w.v.n)
				}
			}
			ai++
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			f.hasW = true
			f.width = f.width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			f.hasP = true
			i++
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				f.prec = f.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			lit += "%!(NOVERB)"
			break
		}
		if format[i] == '[' || format[i] >= 0x80 {
			panic(unsup("format string " + format))
		}
		f.verb = format[i]
		i++
		if f.verb == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			lit += "%!" + string(rune(f.verb)) + "(MISSING)"
			continue
		}
		flush()
		out = it.strConcat(out, it.fmtArg(&f, args[ai], 0))
		ai++
	}
	if ai < len(args) {
		lit += "%!(EXTRA)"
	}
	flush()
	return out
}

func (it *Interp) sprint(args []V, ln bool) V {
	out := mkStr("")
	prevStr := true
	for k, a := range args {
		i, _ := a.x.(*Iface)
		isStr := i != nil && kindOf(i.t).cls == kString
		if k > 0 && (ln || !isStr && !prevStr) {
			out = it.strConcat(out, mkStr(" "))
		}
		out = it.strConcat(out, it.fmtArg(&fspec{verb: 'v'}, a, 0))
		prevStr = isStr
	}
	if ln {
		out = it.strConcat(out, mkStr("\n"))
	}
	return out
}

// strMayFold reports whether every argument is concrete, in which case the
// string is built at once.
func allConcrete(args []V) bool {
	for _, a := range args {
		i, _ := a.x.(*Iface)
		if i == nil {
			continue
		}
		if i.v.t != nil {
			return false
		}
		switch kindOf(i.t).cls {
		case kInt, kBool, kFloat:
		case kString:
			if _, ok := concStr(i.v); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (it *Interp) lazy(f func(it *Interp) V) V {
	return V{x: &LazyStr{f: func(it *Interp) V { return it.forceStr(f(it)) }}}
}

func (it *Interp) writeTo(w V, s V) V {
	i, _ := w.x.(*Iface)
	if i == nil {
		it.rtPanic("nil writer")
	}
	if a, ok := i.v.x.(*Agg); ok && a.host != nil {
		vf := a.host.(*VFile)
		if vf.std == "Stderr" {
			return V{x: []V{{}, {}}}
		}
		return it.fileWrite(vf, it.bytesFromStr(s))
	}
	f := it.P.lookupMethod(i.t, nil, "Write")
	return it.call(f, []V{i.v, it.bytesFromStr(s)}, nil)
}

func (it *Interp) errorf(a []V) V {
	format, ok := concStr(a[0])
	if !ok {
		panic(unsup("symbolic format"))
	}
	args := it.ifaceArgs(a[1])
	nw := 0
	var wrapped []V
	// find the operands of %w verbs
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.*", format[i]) >= 0 {
			if format[i] == '*' {
				ai++
			}
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) {
			if e, ok := args[ai].x.(*Iface); ok && e != nil {
				nw++
				wrapped = append(wrapped, args[ai])
			}
		}
		ai++
	}
	msg := it.lazy(func(it *Interp) V { return it.sprintf(format, args) })
	switch nw {
	case 0:
		et := it.typ("errors", "errorString")
		ag := newAgg(lay(et), 1)
		ag.g = it.guard
		ag.cells[0] = msg
		return V{x: &Iface{types.NewPointer(et), V{x: ag}}}
	case 1:
		et := it.typ("fmt", "wrapError")
		ag := newAgg(lay(et), 1)
		ag.cells[0] = msg
		ag.cells[1] = wrapped[0]
		return V{x: &Iface{types.NewPointer(et), V{x: ag}}}
	}
	et := it.typ("fmt", "wrapErrors")
	ag := newAgg(lay(et), 1)
	ag.cells[0] = msg
	ag.cells[1] = V{x: &SliceV{a: &Agg{cells: wrapped, n: nw}, len: nw, cap: nw}}
	return V{x: &Iface{types.NewPointer(et), V{x: ag}}}
}

func initFmt() {
	pure("fmt.Errorf", func(it *Interp, a []V) V { return it.errorf(a) })
	pure("fmt.Sprintf", func(it *Interp, a []V) V {
		format, ok := concStr(a[0])
		if !ok {
			format = it.conStr(a[0])
		}
		args := it.ifaceArgs(a[1])
		if allConcrete(args) {
			return it.sprintf(format, args)
		}
		return it.lazy(func(it *Interp) V { return it.sprintf(format, args) })
	})
	pure("fmt.Sprint", func(it *Interp, a []V) V { return it.sprint(it.ifaceArgs(a[0]), false) })
	pure("fmt.Sprintln", func(it *Interp, a []V) V { return it.sprint(it.ifaceArgs(a[0]), true) })
	isErr := func(w V) bool {
		i, _ := w.x.(*Iface)
		if i == nil {
			return false
		}
		a, ok := i.v.x.(*Agg)
		return ok && a.host != nil && a.host.(*VFile).std == "Stderr"
	}
	impure("fmt.Fprintf", func(it *Interp, a []V) V {
		if isErr(a[0]) {
			return V{x: []V{{}, {}}}
		}
		return it.writeTo(a[0], it.sprintf(it.conStr(a[1]), it.ifaceArgs(a[2])))
	})
	impure("fmt.Fprintln", func(it *Interp, a []V) V {
		if isErr(a[0]) {
			return V{x: []V{{}, {}}}
		}
		return it.writeTo(a[0], it.sprint(it.ifaceArgs(a[1]), true))
	})
	impure("fmt.Fprint", func(it *Interp, a []V) V {
		if isErr(a[0]) {
			return V{x: []V{{}, {}}}
		}
		return it.writeTo(a[0], it.sprint(it.ifaceArgs(a[1]), false))
	})
	out := func(it *Interp, s V) V {
		c, t := it.strCells(s)
		for i := range c {
			it.stdout = append(it.stdout, tv(it.byteTerm(c, t, i)))
		}
		return V{x: []V{{n: uint64(len(c))}, {}}}
	}
	impure("fmt.Printf", func(it *Interp, a []V) V { return out(it, it.sprintf(it.conStr(a[0]), it.ifaceArgs(a[1]))) })
	impure("fmt.Println", func(it *Interp, a []V) V { return out(it, it.sprint(it.ifaceArgs(a[0]), true)) })
	impure("fmt.Print", func(it *Interp, a []V) V { return out(it, it.sprint(it.ifaceArgs(a[0]), false)) })
}
