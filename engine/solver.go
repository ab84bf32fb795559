package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- SMT-LIB printing

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OSelect: "select", OStore: "store",
}

func sortName(t *Term) string {
	switch {
	case t.w == 0:
		return "Bool"
	case t.w == wArr:
		return fmt.Sprintf("(Array (_ BitVec %d) (_ BitVec 8))", t.n)
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func varName(t *Term) string { return "|" + t.name + "|" }

type printer struct {
	sb   *strings.Builder
	tt   *TermTab
	defs *strings.Builder
	decl *strings.Builder
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.n == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.n)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
}

func head(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.n>>8, t.n&255)
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
	}
	return opName[t.op]
}

func smtStr(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar, OArrVar:
		return varName(t)
	}
	s := "(" + head(t)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + smtStr(x)
		}
	}
	return s + ")"
}

// Emit prints declarations, shared definitions and one assert per constraint.
// It returns the variables used.
func (tt *TermTab) Emit(out *strings.Builder, cs []*Term) []*Term {
	tt.markN++
	mark := tt.markN
	var vars []*Term
	var order []*Term
	// iterative post-order to survive deep store chains
	type fr struct {
		t *Term
		k int
	}
	var stack []fr
	visit := func(t *Term) {
		if t == nil || t.op == OConst {
			return
		}
		if t.mark == mark {
			t.refs++
			return
		}
		t.mark = mark
		t.refs = 1
		stack = append(stack, fr{t, 0})
	}
	for _, c := range cs {
		visit(c)
		for len(stack) > 0 {
			f := &stack[len(stack)-1]
			k := f.k
			f.k++
			t := f.t
			switch k {
			case 0:
				visit(t.a)
			case 1:
				visit(t.b)
			case 2:
				visit(t.c)
			default:
				stack = stack[:len(stack)-1]
				if t.op == OVar || t.op == OArrVar {
					vars = append(vars, t)
				} else {
					order = append(order, t)
				}
			}
		}
	}
	for _, v := range vars {
		fmt.Fprintf(out, "(declare-const %s %s)\n", varName(v), sortName(v))
	}
	named := map[*Term]bool{}
	depth := map[*Term]int{}
	// indexes of array reads become constants of their own, so that their
	// values can be asked for by name
	index := map[*Term]bool{}
	for _, t := range order {
		if t.op == OSelect && t.b.op != OConst && t.b.op != OVar {
			index[t.b] = true
		}
	}
	tt.index = index
	var ref func(t *Term)
	ref = func(t *Term) {
		switch {
		case t.op == OConst:
			out.WriteString(constStr(t))
		case t.op == OVar || t.op == OArrVar:
			out.WriteString(varName(t))
		case named[t]:
			out.WriteString("t")
			out.WriteString(strconv.Itoa(int(t.id)))
		default:
			out.WriteByte('(')
			out.WriteString(head(t))
			for _, x := range [3]*Term{t.a, t.b, t.c} {
				if x != nil {
					out.WriteByte(' ')
					ref(x)
				}
			}
			out.WriteByte(')')
		}
	}
	for _, t := range order {
		d := 0
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil && !named[x] && depth[x] > d {
				d = depth[x]
			}
		}
		d++
		if index[t] {
			n := "t" + strconv.Itoa(int(t.id))
			fmt.Fprintf(out, "(declare-const %s %s)\n(assert (= %s ", n, sortName(t), n)
			ref(t)
			out.WriteString("))\n")
			named[t] = true
			d = 0
		} else if t.refs > 1 || d > 40 {
			out.WriteString("(define-fun t")
			out.WriteString(strconv.Itoa(int(t.id)))
			out.WriteString(" () ")
			out.WriteString(sortName(t))
			out.WriteByte(' ')
			ref(t)
			out.WriteString(")\n")
			named[t] = true
			d = 0
		}
		depth[t] = d
	}
	for _, c := range cs {
		out.WriteString("(assert ")
		ref(c)
		out.WriteString(")\n")
	}
	return vars
}

// ---- solver process

type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	sat     int
	unsat   int
	unknown int
	errs    int
	cached  int
	dur     time.Duration
	cache   map[string]*qres
	log     func(string)
	timeout int // ms
	maxMs   float64
}

type qres struct {
	res int // 1 sat, 0 unsat, -1 unknown
	m   *Model
}

func newSolver(bin []string, timeoutMs int) *Solver {
	return &Solver{bin: bin, cache: map[string]*qres{}, timeout: timeoutMs}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<20)
	return s.cmd.Start()
}

func (s *Solver) stop() {
	if s.cmd != nil {
		_ = s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

// talk sends text and reads everything up to the sentinel.
func (s *Solver) talk(text string) ([]string, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	type rr struct {
		lines []string
		err   error
	}
	ch := make(chan rr, 1)
	go func() {
		var lines []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- rr{lines, err}
				return
			}
			l = strings.TrimRight(l, "\r\n")
			if strings.Trim(l, "\"") == "~~done~~" {
				ch <- rr{lines, nil}
				return
			}
			lines = append(lines, l)
		}
	}()
	go func() { _, _ = io.WriteString(s.in, text+"(echo \"~~done~~\")\n") }()
	select {
	case r := <-ch:
		if r.err != nil {
			s.stop()
		}
		return r.lines, r.err
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*2 + 20*time.Second):
		s.stop()
		<-ch
		return nil, fmt.Errorf("solver did not answer")
	}
}

// Check decides the conjunction of cs; on sat it returns a model of the
// variables occurring in cs.
func (s *Solver) Check(tt *TermTab, cs []*Term, wantModel bool) (int, *Model) {
	for _, c := range cs {
		if c.isFalse() {
			return 0, nil
		}
	}
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if !c.isTrue() {
			ids = append(ids, int(c.id))
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok && (r.res != 1 || r.m != nil) {
		s.cached++
		return r.res, r.m
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n", s.timeout)
	}
	sb.WriteString("(set-logic QF_ABV)\n")
	vars := tt.Emit(&sb, cs)
	sb.WriteString("(check-sat)\n")
	lines, err := s.talk(sb.String())
	s.queries++
	res := -1
	if err == nil {
		for _, l := range lines {
			switch {
			case strings.HasPrefix(l, "(error"):
				s.errs++
				if s.log != nil {
					s.log("solver error: " + l)
				}
				res = -2
			case l == "sat" && res == -1:
				res = 1
			case l == "unsat" && res == -1:
				res = 0
			}
		}
	}
	if res == -2 {
		res = -1
	}
	var m *Model
	if res == 1 {
		m = s.getModel(tt, cs, vars)
		if m == nil {
			res = -1
		}
	}
	switch res {
	case 1:
		s.sat++
	case 0:
		s.unsat++
	default:
		s.unknown++
	}
	d := time.Since(t0)
	s.dur += d
	if ms := float64(d.Microseconds()) / 1000; ms > s.maxMs {
		s.maxMs = ms
	}
	if dir := os.Getenv("SYMGO_SLOW"); dir != "" && d > slowMin() {
		_ = os.WriteFile(fmt.Sprintf("%s/q%d-%d-%s.smt2", dir, s.queries, d.Milliseconds(), s.bin[0]), []byte(sb.String()), 0644)
	}
	s.cache[key] = &qres{res, m}
	return res, m
}

func (s *Solver) getModel(tt *TermTab, cs []*Term, vars []*Term) *Model {
	m := newModel()
	var names []string
	var arrs []*Term
	for _, v := range vars {
		if v.op == OArrVar {
			arrs = append(arrs, v)
		} else {
			names = append(names, varName(v))
		}
	}
	vals := []*Term{}
	for _, v := range vars {
		if v.op == OVar {
			vals = append(vals, v)
		}
	}
	for lo := 0; lo < len(vals); lo += 2000 {
		hi := lo + 2000
		if hi > len(vals) {
			hi = len(vals)
		}
		lines, err := s.talk("(get-value (" + strings.Join(names[lo:hi], " ") + "))\n")
		if err != nil {
			return nil
		}
		got := parseValues(strings.Join(lines, " "))
		if len(got) != hi-lo {
			return nil
		}
		for i, x := range got {
			m.v[vals[lo+i].name] = x
		}
	}
	if len(arrs) > 0 {
		// every index at which a base array is read, evaluated
		tt.markN++
		mark := tt.markN
		var idx []*Term
		var rec func(t *Term)
		rec = func(t *Term) {
			for t != nil && t.op != OConst && t.mark != mark {
				t.mark = mark
				if t.op == OSelect {
					idx = append(idx, t.b)
				}
				if t.op == OStore {
					rec(t.b)
					rec(t.c)
					t = t.a
					continue
				}
				rec(t.b)
				rec(t.c)
				t = t.a
			}
		}
		for _, c := range cs {
			rec(c)
		}
		tt.epoch++
		// indexes may depend on array contents, so ask the solver for their values
		for _, a := range arrs {
			m.arr[a.name] = map[uint64]byte{}
			var is []*Term
			for _, i := range idx {
				if uint64(i.w) == a.n {
					is = append(is, i)
				}
			}
			for lo := 0; lo < len(is); lo += 500 {
				hi := lo + 500
				if hi > len(is) {
					hi = len(is)
				}
				var sb strings.Builder
				sb.WriteString("(get-value (")
				for _, i := range is[lo:hi] {
					x := smtDag(tt, i)
					fmt.Fprintf(&sb, "%s (select %s %s) ", x, varName(a), x)
				}
				sb.WriteString("))\n")
				lines, err := s.talk(sb.String())
				if err != nil {
					return nil
				}
				got := parseValues(strings.Join(lines, " "))
				if len(got) != 2*(hi-lo) {
					return nil
				}
				for k := 0; k < len(got); k += 2 {
					m.arr[a.name][got[k]] = byte(got[k+1])
				}
			}
		}
	}
	return m
}

func smtDag(tt *TermTab, t *Term) string {
	if tt.index[t] {
		return "t" + strconv.Itoa(int(t.id))
	}
	return smtStr(t)
}

// parseValues reads the values out of a get-value answer: for each pair the
// last token(s) are #x.., #b.., true/false or (_ bvN w).
func parseValues(s string) []uint64 {
	// parse s-expression ((expr val) (expr val) ...)
	var out []uint64
	toks := tokenize(s)
	pos := 0
	var skip func() (int, int) // returns token range of one sexp
	skip = func() (int, int) {
		st := pos
		if toks[pos] == "(" {
			d := 0
			for {
				if toks[pos] == "(" {
					d++
				} else if toks[pos] == ")" {
					d--
				}
				pos++
				if d == 0 {
					break
				}
			}
		} else {
			pos++
		}
		return st, pos
	}
	if len(toks) == 0 || toks[0] != "(" || strings.HasPrefix(s, "(error") {
		return nil
	}
	pos = 1
	for pos < len(toks) && toks[pos] == "(" {
		pos++
		skip()
		a, b := skip()
		v, ok := parseVal(toks[a:b])
		if !ok {
			return nil
		}
		out = append(out, v)
		if pos >= len(toks) || toks[pos] != ")" {
			return nil
		}
		pos++
	}
	return out
}

func parseVal(t []string) (uint64, bool) {
	if len(t) == 1 {
		switch {
		case t[0] == "true":
			return 1, true
		case t[0] == "false":
			return 0, true
		case strings.HasPrefix(t[0], "#x"):
			v, err := strconv.ParseUint(t[0][2:], 16, 64)
			return v, err == nil
		case strings.HasPrefix(t[0], "#b"):
			v, err := strconv.ParseUint(t[0][2:], 2, 64)
			return v, err == nil
		}
		return 0, false
	}
	if len(t) == 5 && t[1] == "_" && strings.HasPrefix(t[2], "bv") {
		v, err := strconv.ParseUint(t[2][2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// slowMin is the duration from which SYMGO_SLOW records a query.
func slowMin() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("SYMGO_SLOWMIN")); err == nil {
		return d
	}
	return 2 * time.Second
}
