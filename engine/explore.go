package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dBranch = iota
	dConc
	dConcOpen
	dProv
	dAssert
)

// Dec is one recorded decision of a path.
type Dec struct {
	K  uint8
	V  uint64 // branch: bit0 taken, bit1 implied
	Ex []uint64
}

type Harness struct {
	name string
	fn   *ssa.Function
	init *ssa.Function
}

type Job struct {
	h      *Harness
	prefix []Dec
	model  *Model
}

type Obs struct {
	name string
	kind uint8 // 0 int,1 bytes,2 string
	vs   []V
	w    uint8
}

type Path struct {
	h       *Harness
	dec     []Dec
	npre    int
	pos     int
	pc      []*Term
	pcv     [][]int32
	pcset   map[*Term]bool
	konst   map[*Term]*Term // terms the path condition fixes
	below   map[*Term]int64 // proven bounds: term < value
	model   *Model
	obs     []Obs
	asserts int
	notes   []string
	incompl bool
	nsolve  int
	start   time.Time
	suspect time.Duration // when next to try the path's inputs on the real code
}

type Candidate struct {
	h     *Harness
	kind  string // assert, panic, hang, overflow
	msg   string
	model *Model
	pos   string
}

type Sample struct {
	h       *Harness
	model   *Model
	obs     string
	asserts int
}

type HStat struct {
	paths, forks, assumeEnd  int
	asserts, trivial, dischg int
	incomplete, unsup, limit int
	cands                    int
	msgs                     map[string]int // assertion text -> times decided
	unsupMsgs                map[string]int
	reach                    map[string]int
	steps                    int64
	samples                  []Sample
	queries                  int
	maxDecs                  int
	concLimit                int
	used                     time.Duration
	dropped                  int
}

type Explorer struct {
	P          *Prog
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []*Job
	active     int
	stop       int32
	stats      map[string]*HStat
	candCh     chan *Candidate
	ncand      map[string]int
	maxSteps   int64
	maxDepth   int
	concMax    int
	timeout    int  // solver ms
	revMaps    bool // visit maps last entry first
	rangedMaps int32
	deadline   time.Time
	timedOut   int32
	nsamples   int
	maxPaths   int
	cross      bool // cross-check unsat answers with a second solver

	solvers   []*Solver
	functions map[string]int
	xchk      [3]int64 // agreed, disagreed, unknown
	nunsat    int64
	dumpDir   string
	verbose   bool
}

func newExplorer(P *Prog) *Explorer {
	x := &Explorer{P: P, revMaps: true, stats: map[string]*HStat{}, candCh: make(chan *Candidate, 10000), ncand: map[string]int{},
		maxSteps: 30000000, maxDepth: 3000, concMax: 700, timeout: 20000, nsamples: 4, maxPaths: 200000, functions: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) push(j *Job) {
	x.mu.Lock()
	x.queue = append(x.queue, j)
	x.cond.Signal()
	x.mu.Unlock()
}

// take removes the latest job of the harness that has used the least time.
func (x *Explorer) take() *Job {
	best := -1
	var bt time.Duration
	seen := map[*Harness]bool{}
	for i := len(x.queue) - 1; i >= 0; i-- {
		h := x.queue[i].h
		if seen[h] {
			continue
		}
		seen[h] = true
		u := x.stat(h.name).used
		if best < 0 || u < bt {
			best, bt = i, u
		}
	}
	j := x.queue[best]
	x.queue = append(x.queue[:best], x.queue[best+1:]...)
	return j
}

func (x *Explorer) stat(h string) *HStat {
	s := x.stats[h]
	if s == nil {
		s = &HStat{msgs: map[string]int{}, unsupMsgs: map[string]int{}, reach: map[string]int{}}
		x.stats[h] = s
	}
	return s
}

func (x *Explorer) stopped() bool { return atomic.LoadInt32(&x.stop) != 0 }

func (x *Explorer) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	var it *Interp
	fresh := func() {
		it = newInterp(x.P, x)
		it.sol = newSolver([]string{"z3-new", "-in"}, x.timeout)
		it.sol2 = newSolver([]string{"cvc5", "--incremental", "--produce-models"}, x.timeout)
		if os.Getenv("SYMGO_SOLVERLOG") != "" {
			it.sol.log = func(s string) { fmt.Fprintln(os.Stderr, s) }
		}
		x.mu.Lock()
		x.solvers = append(x.solvers, it.sol, it.sol2)
		x.mu.Unlock()
	}
	fresh()
	defer func() { it.sol.stop(); it.sol2.stop() }()
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.active > 0 && !x.stopped() {
			x.cond.Wait()
		}
		if len(x.queue) == 0 || x.stopped() {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		j := x.take()
		x.active++
		x.mu.Unlock()
		if time.Now().After(x.deadline) {
			atomic.StoreInt32(&x.timedOut, 1)
			atomic.StoreInt32(&x.stop, 1)
		} else {
			t0 := time.Now()
			it.runPath(j)
			x.mu.Lock()
			x.stat(j.h.name).used += time.Since(t0)
			x.mu.Unlock()
		}
		x.mu.Lock()
		x.active--
		x.cond.Broadcast()
		x.mu.Unlock()
		if it.tt.next > 6000000 || it.tt.next > 500000 && memHigh.Load() {
			it.flushCover()
			it.sol.stop()
			it.sol2.stop()
			fresh()
		}
		it.flushCover()
	}
}

func (it *Interp) flushCover() {
	it.x.mu.Lock()
	for f, n := range it.cover {
		if !strings.Contains(f.String(), "/zzverif/") || strings.Contains(it.P.prog.Fset.Position(f.Pos()).Filename, "/zz_") {
			it.x.functions[f.String()] += n
		}
		delete(it.cover, f)
	}
	it.x.mu.Unlock()
}

// memHigh is set while the process holds more memory than it should: paths
// with many terms then end as outside what was explored.
var memHigh atomic.Bool

const memLimit = 10 << 30

func watchMemory(done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(300 * time.Millisecond):
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memLimit {
			memHigh.Store(true)
			time.Sleep(time.Second)
			runtime.GC()
			runtime.ReadMemStats(&m)
		}
		if m.HeapAlloc < memLimit {
			memHigh.Store(false)
		}
	}
}

func (x *Explorer) run(workers int) {
	done := make(chan bool)
	defer close(done)
	debug.SetMemoryLimit(8 << 30)
	go watchMemory(done)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go x.worker(&wg)
	}
	wg.Wait()
}

func (it *Interp) runPath(j *Job) {
	x := it.x
	it.gl = map[*ssa.Global]*Agg{}
	it.steps, it.maxSteps = 0, x.maxSteps
	it.depth, it.maxDepth = 0, x.maxDepth
	it.spec, it.guard, it.undo = 0, nil, nil
	it.specBad, it.specGood = map[specKey]int{}, map[specKey]int{}
	it.ap = 0
	it.cur, it.deferFor = nil, nil
	it.vfs = newVFS()
	it.stdout = nil
	it.names = map[string]int{}
	it.tt.epoch++
	p := &Path{h: j.h, dec: append([]Dec{}, j.prefix...), npre: len(j.prefix), model: j.model, pcset: map[*Term]bool{}, konst: map[*Term]*Term{}, below: map[*Term]int64{}, start: time.Now(), suspect: 10 * time.Second}
	it.p = p
	kind, msg := "done", ""
	var tp *TPanic
	func() {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
			case *TPanic:
				kind, msg, tp = "panic", e.msg, e
			case pathEnd:
				kind, msg = e.kind, e.msg
			case unsupErr:
				kind, msg = "unsup", string(e)
				if it.cur != nil {
					msg += " in " + it.cur.fn.f.String()
				}
			case specFail:
				kind, msg = "unsup", "stray speculation failure: "+e.why
			default:
				kind, msg = "unsup", fmt.Sprintf("engine: %v", e)
				if it.cur != nil {
					msg += " in " + it.cur.fn.f.String()
				}
				if x.verbose {
					fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
				}
			}
		}()
		it.call(j.h.init, nil, nil)
		it.call(j.h.fn, nil, nil)
	}()
	_ = tp
	x.mu.Lock()
	st := x.stat(j.h.name)
	st.paths++
	st.steps += it.steps
	if len(p.dec) > st.maxDecs {
		st.maxDecs = len(p.dec)
	}
	if p.incompl {
		st.incomplete++
	}
	switch kind {
	case "done":
		if len(st.samples) < x.nsamples || it.steps%7 == 0 && len(st.samples) < 4*x.nsamples {
			st.samples = append(st.samples, Sample{j.h, p.model, it.obsString(p), p.asserts})
		}
	case "assume":
		st.assumeEnd++
	case "unsup":
		st.unsup++
		st.unsupMsgs[msg]++
	case "panic", "steps", "depth":
		if kind != "panic" {
			st.limit++
		}
	}
	over := st.paths >= x.maxPaths
	// The inputs of a path the encoding cannot follow still say something
	// about the real code: run them.
	try := kind == "unsup" && st.unsup <= 12 && p.model != nil
	x.mu.Unlock()
	if try {
		it.candidate("slow", msg)
	}
	if over {
		x.mu.Lock()
		var q []*Job
		for _, y := range x.queue {
			if y.h != j.h {
				q = append(q, y)
			} else {
				st.dropped++
			}
		}
		x.queue = q
		x.mu.Unlock()
	}
	switch kind {
	case "panic":
		it.candidate("panic", msg)
	case "steps":
		it.candidate("hang", "does not terminate within the step bound in "+msg)
	case "depth":
		it.candidate("overflow", "unbounded recursion in "+msg)
	}
}

func (it *Interp) candidate(kind, msg string) {
	x := it.x
	x.mu.Lock()
	k := it.p.h.name + "|" + kind + "|" + msg
	x.ncand[k]++
	n := x.ncand[k]
	x.stat(it.p.h.name).cands++
	x.mu.Unlock()
	if n <= 4 {
		x.candCh <- &Candidate{h: it.p.h, kind: kind, msg: msg, model: it.p.model}
	}
}

// ---- decisions

func (it *Interp) addPC(c *Term) {
	p := it.p
	if c.isTrue() || p.pcset[c] {
		return
	}
	if c.op == OAnd {
		it.addPC(c.a)
		it.addPC(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		it.addPC(it.tt.Not(c.a.a))
		it.addPC(it.tt.Not(c.a.b))
		return
	}
	p.pcset[c] = true
	it.learn(c)
	if c.op == OEq && c.b.op == OConst {
		p.konst[c.a] = c.b
	} else if c.op == OEq && c.a.op == OConst {
		p.konst[c.b] = c.a
	}
	p.pc = append(p.pc, c)
	p.pcv = append(p.pcv, it.tt.Vars(c))
}

// sel reads an SMT array, using what the path condition fixes.
func (it *Interp) sel(arr, i *Term) *Term {
	t := it.tt.Select(arr, i)
	if it.p != nil {
		if k := it.p.konst[t]; k != nil {
			return k
		}
	}
	return t
}

// bound splits c into "b < n" if it has that form and b+const cannot wrap.
func (it *Interp) bound(c *Term) (*Term, int64, bool) {
	if (c.op != OUlt && c.op != OUle) || c.b.op != OConst || c.b.n > 1<<40 {
		return nil, 0, false
	}
	n := int64(c.b.n)
	if c.op == OUle {
		n++
	}
	b, k := it.tt.splitAdd(c.a)
	if b == nil || k > 1<<40 || b.umax > 1<<40 || c.a.w < 48 {
		return nil, 0, false
	}
	return b, n - int64(k), true
}

// learn records a fact that holds on this path.
func (it *Interp) learn(c *Term) {
	if c.op == OAnd {
		it.learn(c.a)
		it.learn(c.b)
		return
	}
	if b, n, ok := it.bound(c); ok {
		if k, has := it.p.below[b]; !has || n < k {
			it.p.below[b] = n
		}
	}
}

// quick decides c from the literals of the path condition: 1, 0 or -1.
func (it *Interp) quick(c *Term, depth int) int {
	if c.op == OConst {
		return int(c.n)
	}
	p := it.p
	if p.pcset[c] {
		return 1
	}
	if depth == 0 {
		return -1
	}
	switch c.op {
	case ONot:
		r := it.quick(c.a, depth-1)
		if r >= 0 {
			r = 1 - r
		}
		return r
	case OAnd, OOr:
		dom := 0
		if c.op == OOr {
			dom = 1
		}
		x := it.quick(c.a, depth-1)
		if x == dom {
			return dom
		}
		y := it.quick(c.b, depth-1)
		if y == dom {
			return dom
		}
		if x >= 0 && y >= 0 {
			return 1 - dom
		}
		return -1
	case OEq:
		if p.pcset[it.tt.Not(c)] {
			return 0
		}
		a, b := p.konst[c.a], p.konst[c.b]
		if c.a.op == OConst {
			a = c.a
		}
		if c.b.op == OConst {
			b = c.b
		}
		if a != nil && b != nil {
			if a == b {
				return 1
			}
			return 0
		}
	case OUlt, OUle, OSlt, OSle:
		if b, n, ok := it.bound(c); ok {
			if k, has := p.below[b]; has && k <= n {
				return 1
			}
		}
		if p.pcset[it.tt.Not(c)] {
			return 0
		}
	}
	return -1
}

// slice returns the constraints connected with t.
func (it *Interp) slicePC(ts ...*Term) []*Term {
	p := it.p
	seen := map[int32]bool{}
	for _, t := range ts {
		for _, v := range it.tt.Vars(t) {
			seen[v] = true
		}
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for again := true; again; {
		again = false
		for i, vs := range p.pcv {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range vs {
				if seen[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, p.pc[i])
				for _, v := range vs {
					if !seen[v] {
						seen[v] = true
						again = true
					}
				}
			}
		}
	}
	return out
}

func (it *Interp) query(c *Term) (int, *Model) {
	cs := append(it.slicePC(c), c)
	it.p.nsolve++
	it.x.mu.Lock()
	it.x.stat(it.p.h.name).queries++
	if it.x.verbose && it.cur != nil {
		it.x.stat(it.p.h.name).reach["query in "+it.cur.fn.f.String()]++
	}
	it.x.mu.Unlock()
	if d := os.Getenv("SYMGO_QFN"); d != "" && it.cur != nil && strings.Contains(it.cur.fn.f.String(), d) {
		fmt.Fprintf(os.Stderr, "Q %.400s\n", smtStr(c))
	}
	if len(cs) > 30 {
		if r, m := it.lazyQuery(cs, c); r >= 0 {
			return r, m
		}
	}
	r, m := it.sol.Check(it.tt, cs, true)
	if r == -1 {
		r, m = it.sol2.Check(it.tt, cs, true)
	} else if r == 0 {
		r = it.crossCheck(cs)
	}
	return r, m
}

// crossCheck asks the second solver about a set the first found unsatisfiable:
// in the thorough tier, for every assertion and one branch in eight.
func (it *Interp) crossCheck(cs []*Term) int {
	if !it.x.cross || !it.asserting && atomic.AddInt64(&it.x.nunsat, 1)%8 != 0 {
		return 0
	}
	r2, _ := it.sol2.Check(it.tt, cs, false)
	switch r2 {
	case 0:
		atomic.AddInt64(&it.x.xchk[0], 1)
	case 1:
		atomic.AddInt64(&it.x.xchk[1], 1)
		return -1
	default:
		atomic.AddInt64(&it.x.xchk[2], 1)
	}
	return 0
}

// lazyQuery decides the conjunction of cs starting from the constraints close
// to c and adding those that the models found violate. An unsatisfiable subset
// settles the question, and so does a model of them all.
func (it *Interp) lazyQuery(cs []*Term, c *Term) (int, *Model) {
	key := map[int32]bool{}
	for _, k := range it.tt.Keys(c) {
		key[k] = true
	}
	in := map[*Term]bool{c: true}
	sub := []*Term{c}
	for _, t := range cs {
		for _, k := range it.tt.Keys(t) {
			if key[k] && !in[t] {
				in[t] = true
				sub = append(sub, t)
			}
		}
	}
	for round := 0; round < 12 && len(sub)*3 < len(cs)*2; round++ {
		r, m := it.sol.Check(it.tt, sub, true)
		if r == 0 {
			r = it.crossCheck(sub)
		}
		if r != 1 {
			return r, nil
		}
		full := it.p.model.clone()
		for k, v := range m.v {
			full.v[k] = v
		}
		for k, a := range m.arr {
			if full.arr[k] == nil {
				full.arr[k] = map[uint64]byte{}
			}
			for i, b := range a {
				full.arr[k][i] = b
			}
		}
		it.tt.epoch++
		bad := 0
		for _, t := range cs {
			if !in[t] && it.tt.Eval(t, full) == 0 {
				in[t] = true
				sub = append(sub, t)
				bad++
			}
		}
		ok := true
		if bad == 0 {
			for _, t := range sub {
				ok = ok && it.tt.Eval(t, full) == 1
			}
		}
		it.tt.epoch++
		if bad == 0 {
			if ok {
				return 1, full
			}
			return -1, nil
		}
	}
	return -1, nil
}

func (it *Interp) mergeModel(m *Model) *Model {
	r := it.p.model.clone()
	for k, v := range m.v {
		r.v[k] = v
	}
	for k, a := range m.arr {
		r.arr[k] = a
	}
	return r
}

func (it *Interp) setModel(m *Model) {
	it.p.model = m
	it.tt.epoch++
}

func (it *Interp) evalB(c *Term) bool { return it.tt.Eval(c, it.p.model) == 1 }

func (it *Interp) branchT(c *Term) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	return it.branch(c)
}

// next returns the recorded decision for this point, if any.
func (p *Path) next() *Dec {
	if p.pos < p.npre {
		d := &p.dec[p.pos]
		p.pos++
		return d
	}
	return nil
}

func (p *Path) record(d Dec) {
	p.dec = append(p.dec, d)
	p.npre = len(p.dec)
	p.pos = p.npre
}

func (it *Interp) fork(d Dec, m *Model) {
	p := it.p
	pre := append(append([]Dec{}, p.dec[:p.pos]...), d)
	it.x.mu.Lock()
	st := it.x.stat(p.h.name)
	st.forks++
	if it.x.verbose && it.cur != nil {
		k := "fork in " + it.cur.fn.f.String()
		if d.K == dConcOpen {
			k = "concretised in " + it.cur.fn.f.String()
		}
		if it.cur.caller != nil {
			k += " < " + it.cur.caller.fn.f.String()
		}
		st.reach[k]++
	}
	it.x.mu.Unlock()
	it.x.push(&Job{p.h, pre, it.mergeModel(m)})
}

func (it *Interp) checkStop() {
	if it.x.stopped() {
		panic(pathEnd{"stopped", ""})
	}
	// A path that takes long may be one that never ends: see whether its inputs
	// make the real code run for ever.
	if p := it.p; p != nil && p.model != nil && it.spec == 0 {
		if d := time.Since(p.start); d > p.suspect {
			p.suspect = 3 * d
			it.candidate("slow", "does not terminate")
		}
	}
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (it *Interp) branch(c *Term) bool {
	if c.op == OConst {
		return c.n == 1
	}
	if it.spec > 0 {
		it.fail("branch")
	}
	if it.libRun > 0 {
		panic(unsup("symbolic branch in library initialisation"))
	}
	p := it.p
	if d := p.next(); d != nil {
		if d.K != dBranch {
			panic(unsup("replay mismatch (branch)"))
		}
		t := d.V&1 == 1
		f := c
		if !t {
			f = it.tt.Not(c)
		}
		if d.V&2 == 0 {
			it.addPC(f)
		} else {
			it.learn(f)
		}
		return t
	}
	it.checkStop()
	nc := it.tt.Not(c)
	if q := it.quick(c, 60); q >= 0 {
		p.record(Dec{K: dBranch, V: uint64(q) | 2})
		return q == 1
	}
	if p.pcset[nc] {
		p.record(Dec{K: dBranch, V: 2})
		return false
	}
	t := it.evalB(c)
	mine, other := c, nc
	if !t {
		mine, other = nc, c
	}
	r, m := it.query(other)
	switch r {
	case 0:
		p.record(Dec{K: dBranch, V: b2u(t) | 2})
		it.learn(mine)
		return t
	case 1:
		it.fork(Dec{K: dBranch, V: b2u(!t)}, m)
	default:
		p.incompl = true
		p.notes = append(p.notes, "branch side not decided")
	}
	p.record(Dec{K: dBranch, V: b2u(t)})
	it.addPC(mine)
	return t
}

// provable reports whether c holds on the current path (and guard).
func (it *Interp) provable(c *Term) bool {
	if c.op == OConst {
		return c.n == 1
	}
	if it.libRun > 0 {
		return false
	}
	p := it.p
	if d := p.next(); d != nil {
		if d.K != dProv {
			panic(unsup("replay mismatch (provable)"))
		}
		if d.V == 1 && it.guard == nil {
			it.learn(c)
		}
		return d.V == 1
	}
	it.checkStop()
	neg := it.tt.Not(c)
	if it.guard != nil {
		neg = it.tt.And(it.guard, neg)
	}
	ok := it.quick(neg, 60) == 0
	if !ok && !it.evalB(neg) {
		r, _ := it.query(neg)
		ok = r == 0
	}
	p.record(Dec{K: dProv, V: b2u(ok)})
	if ok && it.guard == nil {
		it.learn(c)
	}
	return ok
}

// concretize case-splits over the possible values of t.
func (it *Interp) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.n
	}
	if it.spec > 0 {
		it.fail("concretize")
	}
	if it.libRun > 0 {
		panic(unsup("symbolic value in library initialisation"))
	}
	p := it.p
	var ex []uint64
	if d := p.next(); d != nil {
		switch d.K {
		case dConc:
			it.addPC(it.tt.Eq(t, it.tt.Const(d.V, t.w)))
			return d.V
		case dConcOpen:
			ex = d.Ex
			p.pos--
			p.dec = p.dec[:p.pos]
			p.npre = p.pos
		default:
			panic(unsup("replay mismatch (concretize)"))
		}
	}
	it.checkStop()
	v := it.tt.Eval(t, p.model)
	nex := append(append([]uint64{}, ex...), v)
	if len(nex) <= it.x.concMax {
		c := it.tt.True
		for _, e := range nex {
			c = it.tt.And(c, it.tt.Not(it.tt.Eq(t, it.tt.Const(e, t.w))))
		}
		r, m := it.query(c)
		switch r {
		case 1:
			it.fork(Dec{K: dConcOpen, Ex: nex}, m)
		case -1:
			p.incompl = true
		}
	} else {
		it.x.mu.Lock()
		it.x.stat(p.h.name).concLimit++
		it.x.mu.Unlock()
		p.incompl = true
	}
	p.record(Dec{K: dConc, V: v})
	it.addPC(it.tt.Eq(t, it.tt.Const(v, t.w)))
	return v
}

func (it *Interp) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if it.spec > 0 {
		it.fail("assume")
	}
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if !it.evalB(c) {
		it.checkStop()
		r, m := it.query(c)
		switch r {
		case 0:
			panic(pathEnd{"assume", ""})
		case -1:
			it.p.incompl = true
			panic(pathEnd{"assume-unknown", ""})
		}
		it.setModel(it.mergeModel(m))
	}
	it.addPC(c)
}

func (it *Interp) assert(c *Term, msg string) {
	if it.spec > 0 {
		it.fail("assert")
	}
	p := it.p
	p.asserts++
	x := it.x
	note := func(trivial bool) {
		x.mu.Lock()
		s := x.stat(p.h.name)
		s.asserts++
		s.msgs[msg]++
		if trivial {
			s.trivial++
		}
		x.mu.Unlock()
	}
	if c.isTrue() {
		if p.pos >= p.npre {
			note(true)
		}
		return
	}
	if d := p.next(); d != nil {
		if d.K != dAssert {
			panic(unsup("replay mismatch (assert)"))
		}
		if d.V == 2 {
			it.addPC(c)
		}
		return
	}
	it.checkStop()
	note(false)
	neg := it.tt.Not(c)
	r, m := 0, (*Model)(nil)
	if it.evalB(neg) {
		r, m = 1, it.p.model
	} else {
		it.asserting = true
		r, m = it.query(neg)
		it.asserting = false
		if r == 1 {
			m = it.mergeModel(m)
		}
	}
	switch r {
	case 0:
		x.mu.Lock()
		x.stat(p.h.name).dischg++
		x.mu.Unlock()
		p.record(Dec{K: dAssert, V: 1})
		return
	case 1:
		save := p.model
		p.model = m
		it.candidate("assert", msg)
		p.model = save
	default:
		p.incompl = true
		p.notes = append(p.notes, "assertion not decided: "+msg)
	}
	p.record(Dec{K: dAssert, V: 2})
	if c.isFalse() {
		panic(pathEnd{"assert", msg})
	}
	if !it.evalB(c) {
		r, m := it.query(c)
		if r != 1 {
			panic(pathEnd{"assert", msg})
		}
		it.setModel(it.mergeModel(m))
	}
	it.addPC(c)
}

// ---- observations

func (it *Interp) obsString(p *Path) string {
	var sb strings.Builder
	ev := func(v V) uint64 {
		if v.t == nil {
			return v.n
		}
		return it.tt.Eval(v.t, p.model)
	}
	for _, o := range p.obs {
		switch o.kind {
		case 0:
			n := ev(o.vs[0])
			fmt.Fprintf(&sb, "%s=%d\n", o.name, sx(n, o.w))
		default:
			fmt.Fprintf(&sb, "%s=", o.name)
			for _, v := range o.vs {
				fmt.Fprintf(&sb, "%02x", ev(v))
			}
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

type replayFile struct {
	Harness  string                     `json:"harness"`
	Property string                     `json:"property,omitempty"`
	Kind     string                     `json:"kind,omitempty"`
	Message  string                     `json:"message,omitempty"`
	Vals     map[string]uint64          `json:"vals"`
	Arrs     map[string]map[string]byte `json:"arrs,omitempty"`
}

func mkReplay(h *Harness, m *Model) *replayFile {
	r := &replayFile{Harness: h.name, Vals: map[string]uint64{}, Arrs: map[string]map[string]byte{}}
	for k, v := range m.v {
		if v != 0 {
			r.Vals[k] = v
		}
	}
	for k, a := range m.arr {
		o := map[string]byte{}
		for i, b := range a {
			if b != 0 {
				o[fmt.Sprint(i)] = b
			}
		}
		r.Arrs[k] = o
	}
	return r
}

func (r *replayFile) write(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
