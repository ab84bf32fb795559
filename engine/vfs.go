package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"
)

// A small in-memory file system standing in for the host's.

type Agg2 struct{ b []V }

type VNode struct {
	data *Agg2
	dir  bool
}

type VFS struct {
	files    map[string]*VNode
	dirs     map[string]bool
	stdin    *Agg2
	stdinPos int
	closed   map[string]bool // the standard files that are closed
	ntmp     int
}

type VFile struct {
	name   string
	std    string
	node   *VNode
	pos    int
	rd, wr bool
	app    bool
	closed bool
}

func newVFS() *VFS {
	return &VFS{files: map[string]*VNode{}, closed: map[string]bool{}, dirs: map[string]bool{"/": true, "/vfs": true, "/cwd": true, "/tmp": true}, stdin: &Agg2{}}
}

const (
	eNOENT  = 2
	eACCES  = 13
	eEXIST  = 17
	eNOTDIR = 20
	eISDIR  = 21
	eBADF   = 9
)

func (v *VFS) get(p string) *VNode { return v.files[vclean(p)] }

// resolve returns an errno for a missing or wrong parent.
func (v *VFS) parentErr(p string) uint64 {
	d := filepath.Dir(vclean(p))
	for q := d; q != "/"; q = filepath.Dir(q) {
		if v.files[q] != nil {
			return eNOTDIR
		}
	}
	if !v.dirs[d] {
		return eNOENT
	}
	return 0
}

func (v *VFS) write(p string, b *Agg2) bool {
	if v.parentErr(p) != 0 || v.dirs[vclean(p)] {
		return false
	}
	v.files[vclean(p)] = &VNode{data: b}
	return true
}

func (it *Interp) fileBytes(v V) *Agg2 {
	s := it.concSliceKeepOff(sl(v), 1)
	r := make([]V, s.len)
	for i := range r {
		r[i] = it.elemAt(byteLay, s, i)
	}
	return &Agg2{r}
}

func (it *Interp) bytesOf(b *Agg2) V {
	a := newAgg(byteLay, len(b.b))
	for i, v := range b.b {
		it.rawSet(a, i, v)
	}
	return V{x: &SliceV{a: a, len: len(b.b), cap: len(b.b)}}
}

func (it *Interp) nilErr() V { return V{} }

func (it *Interp) fileV(f *VFile) V {
	return V{x: &Agg{cells: []V{{}}, n: 1, host: f}}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

// openFlags opens a path; errno 0 on success.
func (it *Interp) openFlags(p string, flag int) (*VFile, uint64) {
	c := vclean(p)
	if e := it.vfs.parentErr(p); e != 0 {
		return nil, e
	}
	if it.vfs.dirs[c] {
		if flag&(oWRONLY|oRDWR|oCREATE) != 0 {
			return nil, eISDIR
		}
		return &VFile{name: p, rd: true, node: &VNode{dir: true, data: &Agg2{}}}, 0
	}
	n := it.vfs.files[c]
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, eNOENT
		}
		n = &VNode{data: &Agg2{}}
		it.vfs.files[c] = n
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return nil, eEXIST
	}
	if flag&oTRUNC != 0 && flag&(oWRONLY|oRDWR) != 0 {
		n.data = &Agg2{}
	}
	return &VFile{name: p, node: n, rd: flag&oWRONLY == 0, wr: flag&(oWRONLY|oRDWR) != 0, app: flag&oAPPEND != 0}, 0
}

func (it *Interp) openFile(p string, pv V, flag int) V {
	f, e := it.openFlags(p, flag)
	if e != 0 {
		panic(unsup("scratch open"))
	}
	return it.fileV(f)
}

func (it *Interp) fileWrite(f *VFile, b V) V {
	d := it.fileBytes(b)
	if it.vfs.closed[f.std] {
		return V{x: []V{{}, it.pathErr("write", mkStr(f.name), eBADF)}}
	}
	switch f.std {
	case "Stdout":
		it.stdout = append(it.stdout, d.b...)
	case "Stderr":
	case "Stdin":
		return V{x: []V{{}, it.pathErr("write", mkStr(f.name), eBADF)}}
	default:
		if f.closed || !f.wr {
			return V{x: []V{{}, it.pathErr("write", mkStr(f.name), eBADF)}}
		}
		old := f.node.data.b
		if f.app {
			f.pos = len(old)
		}
		nb := append([]V{}, old...)
		for len(nb) < f.pos {
			nb = append(nb, V{})
		}
		for i, x := range d.b {
			if f.pos+i < len(nb) {
				nb[f.pos+i] = x
			} else {
				nb = append(nb, x)
			}
		}
		f.pos += len(d.b)
		f.node.data = &Agg2{nb}
	}
	return V{x: []V{{n: uint64(len(d.b))}, {}}}
}

func (it *Interp) hostFile(v V) *VFile {
	a, _ := v.x.(*Agg)
	if a == nil || a.host == nil {
		it.rtPanic("invalid memory address or nil pointer dereference (nil *os.File)")
	}
	return a.host.(*VFile)
}

func initOS() {
	impure("os.ReadFile", func(it *Interp, a []V) V {
		p := it.conStr(a[0])
		f, e := it.openFlags(p, 0)
		if e != 0 {
			return V{x: []V{{}, it.pathErr("open", a[0], e)}}
		}
		if f.node.dir {
			return V{x: []V{{}, it.pathErr("read", a[0], eISDIR)}}
		}
		return V{x: []V{it.bytesOf(f.node.data), {}}}
	})
	impure("os.WriteFile", func(it *Interp, a []V) V {
		p := it.conStr(a[0])
		f, e := it.openFlags(p, oWRONLY|oCREATE|oTRUNC)
		if e != 0 {
			return it.pathErr("open", a[0], e)
		}
		it.fileWrite(f, a[1])
		return V{}
	})
	open := func(it *Interp, pv V, flag int) V {
		f, e := it.openFlags(it.conStr(pv), flag)
		if e != 0 {
			return V{x: []V{{}, it.pathErr("open", pv, e)}}
		}
		return V{x: []V{it.fileV(f), {}}}
	}
	impure("os.Open", func(it *Interp, a []V) V { return open(it, a[0], 0) })
	impure("os.Create", func(it *Interp, a []V) V { return open(it, a[0], oRDWR|oCREATE|oTRUNC) })
	impure("os.OpenFile", func(it *Interp, a []V) V {
		return open(it, a[0], it.concInt(a[1], types.Typ[types.Int], ""))
	})
	stat := func(op string) func(it *Interp, a []V) V {
		return func(it *Interp, a []V) V {
			p := it.conStr(a[0])
			if e := it.vfs.parentErr(p); e != 0 {
				return V{x: []V{{}, it.pathErr(op, a[0], e)}}
			}
			n := it.vfs.get(p)
			if n == nil && !it.vfs.dirs[vclean(p)] {
				return V{x: []V{{}, it.pathErr(op, a[0], eNOENT)}}
			}
			st := it.typ("os", "fileStat")
			ag := newAgg(lay(st), 1)
			s := st.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				switch s.Field(i).Name() {
				case "name":
					ag.cells[lay(st).offs[i]] = mkStr(filepath.Base(p))
				case "size":
					if n != nil {
						ag.cells[lay(st).offs[i]] = V{n: uint64(len(n.data.b))}
					}
				case "mode":
					m := uint64(0600)
					if n == nil {
						m = 1<<31 | 0700
					}
					ag.cells[lay(st).offs[i]] = V{n: m}
				}
			}
			return V{x: []V{{x: &Iface{types.NewPointer(st), V{x: ag}}}, {}}}
		}
	}
	impure("os.Stat", stat("stat"))
	impure("os.Lstat", stat("lstat"))
	impure("os.Remove", func(it *Interp, a []V) V {
		p := it.conStr(a[0])
		if it.vfs.get(p) == nil {
			return it.pathErr("remove", a[0], eNOENT)
		}
		delete(it.vfs.files, vclean(p))
		return V{}
	})
	impure("os.Rename", func(it *Interp, a []V) V {
		p, q := it.conStr(a[0]), it.conStr(a[1])
		n := it.vfs.get(p)
		if n == nil {
			return it.pathErr("rename", a[0], eNOENT)
		}
		if e := it.vfs.parentErr(q); e != 0 {
			return it.pathErr("rename", a[1], e)
		}
		delete(it.vfs.files, vclean(p))
		it.vfs.files[vclean(q)] = n
		return V{}
	})
	impure("os.CreateTemp", func(it *Interp, a []V) V {
		d := it.conStr(a[0])
		if d == "" {
			d = "/tmp"
		}
		it.vfs.ntmp++
		pat := it.conStr(a[1])
		r := fmt.Sprint(100000 + it.vfs.ntmp)
		nm := pat + r
		if k := strings.LastIndex(pat, "*"); k >= 0 {
			nm = pat[:k] + r + pat[k+1:]
		}
		return open(it, mkStr(filepath.Join(d, nm)), oRDWR|oCREATE|oEXCL)
	})
	impure("os.Chmod", func(it *Interp, a []V) V { return V{} })
	impure("os.MkdirAll", func(it *Interp, a []V) V {
		for d := vclean(it.conStr(a[0])); d != "/"; d = filepath.Dir(d) {
			it.vfs.dirs[d] = true
		}
		return V{}
	})
	pure("os.IsNotExist", func(it *Interp, a []V) V {
		return V{n: b2u(it.errorsIs(a[0], it.get(it.globalPtr(it.P.pkgs["io/fs"].Var("ErrNotExist")).x.(*Agg), 0)))}
	})
	pure("os.IsExist", func(it *Interp, a []V) V {
		return V{n: b2u(it.errorsIs(a[0], it.get(it.globalPtr(it.P.pkgs["io/fs"].Var("ErrExist")).x.(*Agg), 0)))}
	})
	impure("(*os.File).Write", func(it *Interp, a []V) V { return it.fileWrite(it.hostFile(a[0]), a[1]) })
	impure("(*os.File).WriteString", func(it *Interp, a []V) V { return it.fileWrite(it.hostFile(a[0]), it.bytesFromStr(a[1])) })
	impure("(*os.File).Close", func(it *Interp, a []V) V {
		f := it.hostFile(a[0])
		if f.closed || it.vfs.closed[f.std] {
			return it.pathErr("close", mkStr(f.name), eBADF)
		}
		if f.std != "" { // shared by all paths
			it.vfs.closed[f.std] = true
		} else {
			f.closed = true
		}
		return V{}
	})
	impure("(*os.File).Sync", func(it *Interp, a []V) V { return V{} })
	impure("(*os.File).Chmod", func(it *Interp, a []V) V { return V{} })
	impure("(*os.File).Truncate", func(it *Interp, a []V) V {
		f := it.hostFile(a[0])
		n := it.concInt(a[1], types.Typ[types.Int64], "")
		b := append([]V{}, f.node.data.b...)
		for len(b) < n {
			b = append(b, V{})
		}
		f.node.data = &Agg2{b[:n]}
		return V{}
	})
	impure("(*os.File).Seek", func(it *Interp, a []V) V {
		f := it.hostFile(a[0])
		off := it.concInt(a[1], types.Typ[types.Int64], "")
		switch it.concInt(a[2], types.Typ[types.Int], "") {
		case 0:
			f.pos = off
		case 1:
			f.pos += off
		case 2:
			f.pos = len(f.node.data.b) + off
		}
		return V{x: []V{{n: uint64(f.pos)}, {}}}
	})
	pure("(*os.File).Name", func(it *Interp, a []V) V { return mkStr(it.hostFile(a[0]).name) })
	impure("(*os.File).Stat", func(it *Interp, a []V) V {
		return stat("stat")(it, []V{mkStr(it.hostFile(a[0]).name)})
	})
	impure("(*os.File).Read", func(it *Interp, a []V) V {
		f := it.hostFile(a[0])
		var src []V
		pos := &f.pos
		switch {
		case f.std == "Stdin" && !it.vfs.closed[f.std]:
			src = it.vfs.stdin.b
			pos = &it.vfs.stdinPos
		case f.closed || !f.rd:
			return V{x: []V{{}, it.pathErr("read", mkStr(f.name), eBADF)}}
		case f.node.dir:
			return V{x: []V{{}, it.pathErr("read", mkStr(f.name), eISDIR)}}
		default:
			src = f.node.data.b
		}
		s := it.concSlice(sl(a[1]), 1)
		if s.len == 0 {
			return V{x: []V{{}, {}}}
		}
		n := len(src) - *pos
		if n <= 0 {
			return V{x: []V{{}, it.get(it.globalPtr(it.P.pkgs["io"].Var("EOF")).x.(*Agg), 0)}}
		}
		if n > s.len {
			n = s.len
		}
		for i := 0; i < n; i++ {
			it.set(s.a, s.off+i, src[*pos+i])
		}
		*pos += n
		return V{x: []V{{n: uint64(n)}, {}}}
	})
	// io.ReadAll of a modelled file, without the growing buffer
	maybe("io.ReadAll", func(it *Interp, a []V) (V, bool) {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return V{}, false
		}
		ag, ok := i.v.x.(*Agg)
		if !ok || ag.host == nil {
			return V{}, false
		}
		if it.spec > 0 {
			it.fail("ReadAll")
		}
		f := ag.host.(*VFile)
		if f.std != "" && it.vfs.closed[f.std] {
			return V{}, false
		}
		if f.std == "Stdin" {
			b := it.vfs.stdin.b[it.vfs.stdinPos:]
			it.vfs.stdinPos = len(it.vfs.stdin.b)
			return V{x: []V{it.bytesOf(&Agg2{b}), {}}}, true
		}
		if f.closed || !f.rd || f.node.dir {
			return V{}, false
		}
		var b []V
		if f.pos < len(f.node.data.b) {
			b = f.node.data.b[f.pos:]
		}
		f.pos = len(f.node.data.b)
		return V{x: []V{it.bytesOf(&Agg2{b}), {}}}, true
	})
}
