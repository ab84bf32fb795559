// symgo decides properties of the code in /repo by symbolic execution of its
// SSA form, with an SMT solver deciding every branch and assertion.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/zellyn/diskii"

var harnessRe = regexp.MustCompile(`(?m)^func (C\d\d)(T?)_(\w+)\(\) \{`)

type hdir struct {
	pkg   string
	files []string // base names
	names []string
}

// harnessDirs finds the packages with harnesses for a property.
func harnessDirs(root, prop string, thorough bool) ([]hdir, error) {
	es, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	var out []hdir
	for _, e := range es {
		if !e.IsDir() || !strings.HasPrefix(e.Name(), "h") {
			continue
		}
		d := hdir{pkg: e.Name()}
		fs, _ := filepath.Glob(filepath.Join(root, e.Name(), "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			d.files = append(d.files, filepath.Base(f))
			for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
				if m[1] == prop && (m[2] == "" || thorough) {
					d.names = append(d.names, m[1]+m[2]+"_"+m[3])
				}
			}
		}
		if len(d.names) > 0 {
			out = append(out, d)
		}
	}
	return out, nil
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "symgo: "+format+"\n", args...)
	cleanMain()
	os.Exit(2)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0")
}

// overlay maps the virtual packages under <repo>/zzverif to the harness files.
func overlay(repo, root string, dirs []hdir) map[string]string {
	o := map[string]string{}
	o[filepath.Join(repo, "zzverif/vrt/vrt.go")] = filepath.Join(root, "vrt/vrt.go")
	for _, d := range dirs {
		for _, f := range d.files {
			o[filepath.Join(repo, "zzverif", d.pkg, f)] = filepath.Join(root, d.pkg, f)
		}
		if d.pkg == "hmain" {
			for k, v := range mainCopy(repo) {
				o[filepath.Join(repo, "zzverif/hmain", k)] = v
			}
		}
	}
	return o
}

var mainFiles map[string]string
var mainDir string
var mainMu sync.Mutex

// mainCopy makes package main importable for the harness package hmain: its
// files, taken from the working tree with the package name alone changed, and
// a function for the argument of kong.NamedMapper("anybaseuint16", ...).
func mainCopy(repo string) map[string]string {
	mainMu.Lock()
	defer mainMu.Unlock()
	if mainFiles != nil {
		return mainFiles
	}
	dir, err := os.MkdirTemp("", "symgomain")
	if err != nil {
		die("%v", err)
	}
	mainDir = dir
	mainFiles = map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	mapper := ""
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			die("the code does not load: %v", err)
		}
		ast.Inspect(a, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				return true
			}
			if se, ok := c.Fun.(*ast.SelectorExpr); !ok || se.Sel.Name != "NamedMapper" {
				return true
			}
			if l, ok := c.Args[0].(*ast.BasicLit); ok && l.Value == `"anybaseuint16"` {
				mapper = string(b[fset.Position(c.Args[1].Pos()).Offset:fset.Position(c.Args[1].End()).Offset])
			}
			return true
		})
		o := fset.Position(a.Name.Pos()).Offset
		b = append(append(append([]byte{}, b[:o]...), "hmain"...), b[o+len(a.Name.Name):]...)
		out := filepath.Join(dir, "zz_"+filepath.Base(f))
		if err := os.WriteFile(out, b, 0644); err != nil {
			die("%v", err)
		}
		mainFiles["zz_"+filepath.Base(f)] = out
	}
	if mapper == "" {
		die("no mapper for anybaseuint16 in package main")
	}
	out := filepath.Join(dir, "zzmapper.go")
	src := "package hmain\n\nimport \"github.com/alecthomas/kong\"\n\nfunc mapper() kong.Mapper { return " + mapper + " }\n"
	if err := os.WriteFile(out, []byte(src), 0644); err != nil {
		die("%v", err)
	}
	mainFiles["zzmapper.go"] = out
	return mainFiles
}

func cleanMain() {
	if mainDir != "" {
		os.RemoveAll(mainDir)
	}
}

func loadProg(repo, root string, dirs []hdir) (*Prog, []*Harness, error) {
	ov := map[string][]byte{}
	for k, v := range overlay(repo, root, dirs) {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	pats := []string{"errors", "fmt", "io", "io/fs", "os", "sync", "syscall", "unicode/utf8", "strings", "bytes"}
	for _, d := range dirs {
		pats = append(pats, modPath+"/zzverif/"+d.pkg)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("the code does not load:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, fns: map[*ssa.Function]*Fn{}, repo: modPath, dir: repo, sizes: types.SizesFor("gc", "amd64"),
		pkgs: map[string]*ssa.Package{}, embed: map[string][]byte{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	P.rtErr = rtErrType(P)
	var eerr error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath != modPath && !strings.HasPrefix(p.PkgPath, modPath+"/") {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Names) != 1 {
						continue
					}
					for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
						if cg == nil {
							continue
						}
						for _, c := range cg.List {
							if strings.HasPrefix(c.Text, "//go:embed ") {
								fn := strings.Trim(strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed ")), "\"`")
								b, err := os.ReadFile(filepath.Join(filepath.Dir(p.Fset.Position(c.Pos()).Filename), fn))
								if err != nil {
									eerr = err
									continue
								}
								P.embed[p.PkgPath+"."+vs.Names[0].Name] = b
							}
						}
					}
				}
			}
		}
	})
	if eerr != nil {
		return nil, nil, eerr
	}
	var hs []*Harness
	for _, d := range dirs {
		sp := P.pkgs[modPath+"/zzverif/"+d.pkg]
		if sp == nil {
			return nil, nil, fmt.Errorf("package %s not loaded", d.pkg)
		}
		for _, n := range d.names {
			f := sp.Func(n)
			if f == nil {
				return nil, nil, fmt.Errorf("harness %s not found", n)
			}
			hs = append(hs, &Harness{name: d.pkg + "." + n, fn: f, init: sp.Func("init")})
		}
	}
	return P, hs, nil
}

// rtErrType stands for the run-time's own error type.
func rtErrType(P *Prog) types.Type {
	rp := P.pkgs["runtime"]
	if rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.String]
}

func main() {
	repo := flag.String("repo", "/repo", "the code under test")
	verif := flag.String("verif", "/verif", "the verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "run only the harnesses whose name contains this")
	budget := flag.Int("budget", 0, "seconds for exploration")
	workers := flag.Int("workers", 8, "paths explored at once")
	timeout := flag.Int("timeout", 20000, "solver time per query, ms")
	verbose := flag.Bool("v", false, "report details")
	keep := flag.Bool("keep", false, "continue after a violation")
	rfile := flag.String("replay", "", "replay this file natively and stop")
	samples := flag.Int("samples", 4, "path models replayed natively per harness")
	flag.Parse()
	prop := flag.Arg(0)
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 240
		if thorough {
			*budget = 1500
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	root := filepath.Join(*verif, "harness")
	if *rfile != "" {
		os.Exit(replayOnly(*repo, root, *rfile))
	}
	dirs, err := harnessDirs(root, prop, thorough)
	if err != nil {
		die("%v", err)
	}
	if len(dirs) == 0 {
		die("no harness for %q", prop)
	}
	nrCh := make(chan *native, 1)
	neCh := make(chan error, 1)
	go func() {
		nr, err := buildNative(*repo, root, dirs)
		nrCh <- nr
		neCh <- err
	}()
	P, hs, err := loadProg(*repo, root, dirs)
	if err != nil {
		if nr := <-nrCh; nr != nil {
			nr.close()
		}
		die("%v", err)
	}
	x := newExplorer(P)
	x.timeout = *timeout
	x.cross = thorough
	x.verbose = *verbose
	x.nsamples = *samples
	x.deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	if thorough {
		x.maxPaths = 2000000
		x.nsamples *= 4
	}
	loadT := time.Since(start)
	c := &checker{x: x, prop: prop, tier: *tier, seed: seed, verif: *verif, start: start, keep: *keep, verbose: *verbose, loadT: loadT}
	c.known = readKnown(filepath.Join(*verif, "known-findings.txt"))
	for _, h := range hs {
		if *only != "" && !strings.Contains(h.name, *only) {
			continue
		}
		c.hs = append(c.hs, h)
		x.push(&Job{h, nil, newModel()})
	}
	c.nr, err = <-nrCh, <-neCh
	if err != nil {
		die("the replay program does not build: %v", err)
	}
	code := c.run(*workers)
	c.nr.close()
	cleanMain()
	os.Exit(code)
}

func replayOnly(repo, root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	m := regexp.MustCompile(`"harness": "(h\w+)\.(C\d\d)`).FindStringSubmatch(string(b))
	if m == nil {
		die("no harness in %s", file)
	}
	dirs, err := harnessDirs(root, m[2], true)
	if err != nil {
		die("%v", err)
	}
	nr, err := buildNative(repo, root, dirs)
	if err != nil {
		die("%v", err)
	}
	defer nr.close()
	r := nr.run(file, 30)
	fmt.Print(r.out)
	fmt.Printf("exit status %d, timed out %v\n", r.code, r.timeout)
	if r.timeout || r.code == 2 || r.code == 3 {
		fmt.Println("REPRODUCED")
		return 1
	}
	return 0
}

var _ = exec.Command
