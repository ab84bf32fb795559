package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- native replay

type native struct {
	dir string
	bin string
	n   int
	mu  sync.Mutex
}

type nres struct {
	out     string
	code    int
	timeout bool
}

// buildNative compiles the harnesses with the real code.
func buildNative(repo, root string, dirs []hdir) (*native, error) {
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		return nil, err
	}
	nr := &native{dir: tmp, bin: filepath.Join(tmp, "replay")}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\t\"" + modPath + "/zzverif/vrt\"\n")
	for _, d := range dirs {
		fmt.Fprintf(&sb, "\t%q\n", modPath+"/zzverif/"+d.pkg)
	}
	sb.WriteString(")\n\nfunc main() {\n\tfs := map[string]func(){\n")
	for _, d := range dirs {
		for _, n := range d.names {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", d.pkg+"."+n, d.pkg, n)
		}
	}
	sb.WriteString("\t}\n\tname, err := vrt.Load(os.Args[1], os.Args[2])\n\tif err != nil {\n\t\tfmt.Fprintln(os.Stderr, err)\n\t\tos.Exit(79)\n\t}\n")
	sb.WriteString("\tf := fs[name]\n\tif f == nil {\n\t\tos.Exit(79)\n\t}\n\tf()\n\tvrt.Finish()\n}\n")
	mainGo := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mainGo, []byte(sb.String()), 0644); err != nil {
		return nr, err
	}
	ov := overlay(repo, root, dirs)
	ov[filepath.Join(repo, "zzverif/replay/main.go")] = mainGo
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, b, 0644); err != nil {
		return nr, err
	}
	cmd := exec.Command("go", "build", "-overlay", of, "-o", nr.bin, "./zzverif/replay")
	cmd.Dir = repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		nr.close()
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return nr, nil
}

func (nr *native) close() {
	if nr != nil && strings.HasPrefix(nr.dir, os.TempDir()+"/symgo") {
		os.RemoveAll(nr.dir)
	}
}

// run executes one assignment natively, in a scratch directory of its own.
func (nr *native) run(file string, secs int) nres {
	nr.mu.Lock()
	nr.n++
	scratch := filepath.Join(nr.dir, fmt.Sprintf("s%d", nr.n))
	nr.mu.Unlock()
	os.MkdirAll(scratch, 0700)
	defer os.RemoveAll(scratch)
	cmd := exec.Command("bash", "-c", `ulimit -v 12000000; ulimit -f 200000; exec "$@"`, "bash", nr.bin, file, scratch)
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	w := &limitW{b: &out} // one writer, so that both share a pipe
	cmd.Stdout, cmd.Stderr = w, w
	if err := cmd.Start(); err != nil {
		return nres{err.Error(), 79, false}
	}
	var to int32
	t := time.AfterFunc(time.Duration(secs)*time.Second, func() {
		atomic.StoreInt32(&to, 1)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	t.Stop()
	code := 0
	if err != nil {
		code = 79
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return nres{out.String(), code, atomic.LoadInt32(&to) == 1}
}

type limitW struct{ b *bytes.Buffer }

func (w *limitW) Write(p []byte) (int, error) {
	if w.b.Len() < 4<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}

// ---- known findings

type known struct{ prop, harness, msg, text string }

// readKnown reads lines "known: property=C07 harness=x message=y :: description".
func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		h := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		if len(h) == 2 {
			k.text = h[1]
		}
		rest := h[0]
		if i := strings.Index(rest, " message="); i >= 0 {
			k.msg = rest[i+9:]
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "harness=") {
				k.harness = f[8:]
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// ---- the check

type violation struct {
	c    *Candidate
	file string
	what string
}

type checker struct {
	x       *Explorer
	prop    string
	tier    string
	seed    int
	verif   string
	start   time.Time
	loadT   time.Duration
	keep    bool
	verbose bool
	hs      []*Harness
	nr      *native
	known   []known

	viol      []violation
	knownHit  map[int]string
	spurious  []string
	validated int
	mismatch  []string
	replays   int
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "ASSERT-FAILED") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return ""
}

// confirm replays a counterexample on the real code.
func (c *checker) confirm(cd *Candidate) {
	c.replays++
	rf := mkReplay(cd.h, cd.model)
	rf.Property, rf.Kind, rf.Message = c.prop, cd.kind, cd.msg
	tmp := filepath.Join(c.nr.dir, fmt.Sprintf("cand%d.json", c.replays))
	if err := rf.write(tmp); err != nil {
		die("%v", err)
	}
	secs := 20
	var r nres
	ok, what := false, ""
	// a run may depend on the order in which Go visits a map
	for try := 0; try < 8 && !ok; try++ {
		if try > 0 && (cd.kind == "slow" || r.timeout || atomic.LoadInt32(&c.x.rangedMaps) == 0) {
			break
		}
		r = c.nr.run(tmp, secs)
		switch {
		case r.timeout:
			ok = cd.kind == "hang" || cd.kind == "overflow" || cd.kind == "slow"
			what = fmt.Sprintf("does not end within %d s", secs)
		case r.code == 3 || r.code == 2:
			ok, what = true, firstLine(r.out)
		}
	}
	if c.verbose {
		fmt.Fprintf(os.Stderr, "candidate %s %s %q: native exit %d timeout %v %s\n", cd.h.name, cd.kind, cd.msg, r.code, r.timeout, what)
	}
	if !ok && cd.kind == "slow" {
		return
	}
	if !ok {
		c.spurious = append(c.spurious, fmt.Sprintf("%s: %s %s (native exit %d)", cd.h.name, cd.kind, cd.msg, r.code))
		return
	}
	for i, k := range c.known {
		if k.prop == c.prop && (k.harness == "" || k.harness == cd.h.name) && k.msg != "" && strings.Contains(cd.msg, k.msg) {
			c.knownHit[i] = k.text
			return
		}
	}
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, len(c.viol)))
	rf.write(file)
	c.viol = append(c.viol, violation{cd, file, what})
	if !c.keep {
		atomic.StoreInt32(&c.x.stop, 1)
		c.x.cond.Broadcast()
	}
}

func (c *checker) run(workers int) int {
	x := c.x
	c.knownHit = map[int]string{}
	done := make(chan bool)
	go func() { x.run(workers); close(x.candCh) }()
	tm := time.AfterFunc(time.Until(x.deadline), func() {
		atomic.StoreInt32(&x.timedOut, 1)
		atomic.StoreInt32(&x.stop, 1)
		x.cond.Broadcast()
	})
	go func() {
		for cd := range x.candCh {
			if len(c.viol) > 0 && !c.keep {
				continue
			}
			c.confirm(cd)
		}
		close(done)
	}()
	<-done
	tm.Stop()
	explT := time.Since(c.start)
	if len(c.viol) == 0 || c.keep {
		c.validate()
	}
	c.report(explT)
	for _, t := range c.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, t)
	}
	for _, v := range c.viol {
		fmt.Printf("%s: %s: %s [%s]\n", v.c.h.name, v.c.kind, v.c.msg, v.what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.file)
	}
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}

// validate runs path models natively and compares what both runs observed.
func (c *checker) validate() {
	var all []Sample
	for _, h := range c.hs {
		s := c.x.stats[h.name]
		if s == nil {
			continue
		}
		ss := s.samples
		if n := c.x.nsamples; len(ss) > n {
			// the first ones and a spread of the rest
			var pick []Sample
			for i := 0; i < n; i++ {
				pick = append(pick, ss[i*len(ss)/n])
			}
			ss = pick
		}
		all = append(all, ss...)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range all {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			s := all[i]
			rf := mkReplay(s.h, s.model)
			rf.Property, rf.Kind = c.prop, "sample"
			tmp := filepath.Join(c.nr.dir, fmt.Sprintf("sample%d.json", i))
			if rf.write(tmp) != nil {
				return
			}
			r := c.nr.run(tmp, 60)
			var obs strings.Builder
			na := -1
			for _, l := range strings.Split(r.out, "\n") {
				if strings.HasPrefix(l, "OBS ") {
					obs.WriteString(l[4:] + "\n")
				}
				fmt.Sscanf(l, "ASSERTS %d", &na)
			}
			mu.Lock()
			defer mu.Unlock()
			if r.code == 3 || r.code == 2 {
				cd := &Candidate{h: s.h, kind: "native", msg: firstLine(r.out), model: s.model}
				if c.verbose {
					fmt.Fprintf(os.Stderr, "native run fails where the engine passes: %s %s\n", s.h.name, r.out)
				}
				c.mismatch = append(c.mismatch, s.h.name+": "+firstLine(r.out))
				c.confirm(cd)
				return
			}
			if r.code != 0 || obs.String() != s.obs || na != s.asserts {
				m := fmt.Sprintf("%s: exit %d, asserts engine %d native %d, observations equal %v", s.h.name, r.code, s.asserts, na, obs.String() == s.obs)
				if c.verbose {
					fmt.Fprintf(os.Stderr, "MISMATCH %s\nengine:\n%s\nnative:\n%s\n", m, trunc(s.obs, 3000), trunc(r.out, 3000))
				}
				c.mismatch = append(c.mismatch, m)
				return
			}
			c.validated++
		}()
	}
	wg.Wait()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type hreport struct {
	Harness     string         `json:"harness"`
	Paths       int            `json:"paths"`
	Forks       int            `json:"forks"`
	Asserts     int            `json:"assertions_checked"`
	BySolver    int            `json:"assertions_discharged_by_solver"`
	Trivial     int            `json:"assertions_true_by_simplification"`
	Queries     int            `json:"solver_queries"`
	Steps       int64          `json:"ssa_instructions_executed"`
	Reach       map[string]int `json:"reachability_witnesses,omitempty"`
	Undecided   int            `json:"paths_with_undecided_queries,omitempty"`
	Unsup       map[string]int `json:"paths_outside_encoding,omitempty"`
	Dropped     int            `json:"paths_not_explored,omitempty"`
	Assertions  map[string]int `json:"assertions,omitempty"`
	AssumeEnded int            `json:"paths_ended_by_assumption,omitempty"`
}

func (c *checker) report(explT time.Duration) {
	x := c.x
	var hr []hreport
	tot := HStat{}
	var reduced []string
	complete := x.timedOut == 0
	if x.timedOut != 0 {
		reduced = append(reduced, "the time budget ended the exploration early")
	}
	vac := []string{}
	for _, h := range c.hs {
		s := x.stat(h.name)
		hr = append(hr, hreport{h.name, s.paths, s.forks, s.asserts, s.dischg, s.trivial, s.queries, s.steps, s.reach, s.incomplete, s.unsupMsgs, s.dropped, s.msgs, s.assumeEnd})
		tot.paths += s.paths
		tot.forks += s.forks
		tot.asserts += s.asserts
		tot.dischg += s.dischg
		tot.trivial += s.trivial
		tot.queries += s.queries
		tot.steps += s.steps
		if s.incomplete > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths with a query the solvers did not decide (or over the case-split limit, %d)", h.name, s.incomplete, s.concLimit))
			complete = false
		}
		if s.unsup > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths left the encodable subset", h.name, s.unsup))
			complete = false
		}
		if s.dropped > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: path limit, %d pending paths dropped", h.name, s.dropped))
			complete = false
		}
		if s.asserts == 0 {
			vac = append(vac, h.name)
		}
	}
	var st time.Duration
	nq, unk := 0, 0
	for _, s := range x.solvers {
		st += s.dur
		nq += s.queries
		unk += s.unknown
	}
	var fns []string
	for f := range x.functions {
		fns = append(fns, strings.ReplaceAll(f, modPath, "diskii"))
	}
	sort.Strings(fns)
	samples := []interface{}{}
	for _, h := range c.hs {
		for i, s := range x.stat(h.name).samples {
			if i < 1 && len(samples) < 6 {
				rf := mkReplay(h, s.model)
				v := map[string]interface{}{"harness": h.name, "asserts": s.asserts}
				n := 0
				in := map[string]uint64{}
				for k, y := range rf.Vals {
					if n++; n <= 24 {
						in[k] = y
					}
				}
				v["inputs"] = in
				v["image_bytes_set"] = len(rf.Arrs)
				v["observed"] = trunc(s.obs, 300)
				samples = append(samples, v)
			}
		}
	}
	cov := map[string]interface{}{
		"states":                            tot.paths,
		"transitions":                       tot.steps,
		"traces_validated_against_impl":     c.validated,
		"samples":                           samples,
		"exhaustive":                        complete && len(c.viol) == 0,
		"rule":                              "states: symbolic paths (each a set of inputs given by its path condition); transitions: SSA instructions executed symbolically; traces: path models run natively with the same observations and number of assertions",
		"harnesses":                         hr,
		"functions_encoded":                 fns,
		"forks":                             tot.forks,
		"assertions_checked":                tot.asserts,
		"assertions_discharged_by_solver":   tot.dischg,
		"assertions_true_by_simplification": tot.trivial,
		"solver_queries":                    nq,
		"solver_unknown":                    unk,
		"solver_seconds":                    st.Seconds(),
		"load_seconds":                      c.loadT.Seconds(),
		"explore_seconds":                   explT.Seconds() - c.loadT.Seconds(),
		"counterexamples_replayed":          c.replays,
		"counterexamples_not_reproduced":    c.spurious,
		"translator_mismatches":             c.mismatch,
		"reduced_bounds":                    reduced,
		"vacuous_harnesses":                 vac,
	}
	if x.cross {
		cov["second_solver_agreed"] = x.xchk[0]
		cov["second_solver_disagreed"] = x.xchk[1]
		cov["second_solver_unknown"] = x.xchk[2]
	}
	if b, err := os.ReadFile(filepath.Join(c.verif, "bounds.json")); err == nil {
		m := map[string]interface{}{}
		if json.Unmarshal(b, &m) == nil && m[c.prop] != nil {
			cov["bounds"] = m[c.prop]
		}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
		"assumptions": []string{
			"the go/ssa translation, the interpreter of it in /verif/engine, and the SMT solvers (z3, cross-checked with cvc5 in the thorough tier) are right; every counterexample and a sample of passing paths is run natively",
			"linux/amd64; memory allocation does not fail; library code in fmt, os, sync and strconv is modelled as listed in DESIGN.md",
			"nothing outside the stated bounds is claimed",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %d traces validated, %.1f s\n",
		c.prop, c.tier, len(c.hs), tot.paths, tot.asserts, tot.dischg, nq, st.Seconds(), c.validated, time.Since(c.start).Seconds())
	for _, r := range reduced {
		fmt.Println("REDUCED-BOUND", r)
	}
	for _, m := range c.mismatch {
		fmt.Println("TRANSLATOR-MISMATCH", m)
	}
	for _, m := range c.spurious {
		fmt.Println("NOT-REPRODUCED", m)
	}
	for _, m := range vac {
		fmt.Println("VACUOUS", m)
	}
	if c.verbose {
		for _, h := range c.hs {
			s := x.stat(h.name)
			fmt.Printf("  %-40s paths %d forks %d asserts %d/%d queries %d steps %d assume %d maxdec %d time %.1f\n", h.name, s.paths, s.forks, s.dischg, s.asserts, s.queries, s.steps, s.assumeEnd, s.maxDecs, s.used.Seconds())
			for _, k := range sortedKeys(s.unsupMsgs) {
				fmt.Printf("      unsupported %d: %s\n", s.unsupMsgs[k], k)
			}
			for _, k := range sortedKeys(s.reach) {
				fmt.Printf("      reach %d: %s\n", s.reach[k], k)
			}
		}
	}
}
