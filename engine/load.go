package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod = "github.com/HannesKimara/cddlc"
	zzMod   = repoMod + "/zzverif"
)

// repoDir is the tree under test; another one can be named when trying planted
// bugs out on a copy.
var (
	repoDir = func() string {
		if d := os.Getenv("GOSYM_REPO"); d != "" {
			return d
		}
		return "/repo"
	}()
	overlayAt = repoDir + "/zzverif"
)

// Program is the SSA form of the repository, the harness and everything they import.
type Program struct {
	ssa   *ssa.Program
	impl  sync.Map
	sizes types.Sizes
	pkgs  []*ssa.Package
	mu    sync.Mutex
	msc   map[string]*ssa.Function
	warn  sync.Map
}

// harnessFiles maps overlay paths inside /repo to files of the harness directory.
// harness/<dir>/x.go is seen as /repo/zzverif/<dir>/x.go; files below
// harness/inpkg/<path>/ are seen inside the repository package <path>.
func harnessFiles(harness string, dirs []string) (map[string]string, error) {
	out := map[string]string{}
	add := func(dir, to string) error {
		es, err := os.ReadDir(dir)
		if os.IsNotExist(err) {
			return nil // made by rewriting
		}
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				out[filepath.Join(to, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	for _, d := range dirs {
		if err := add(filepath.Join(harness, d), filepath.Join(overlayAt, d)); err != nil {
			return nil, err
		}
	}
	in := filepath.Join(harness, "inpkg")
	err := filepath.Walk(in, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(in, p)
			out[filepath.Join(repoDir, rel)] = p
		}
		return nil
	})
	return out, err
}

func loadProgram(files map[string]string, patterns []string) (*Program, []*packages.Package, error) {
	ov := map[string][]byte{}
	for to, from := range files {
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, nil, err
		}
		ov[to] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		Overlay: ov,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Program{ssa: prog, pkgs: pkgs, sizes: types.SizesFor("gc", "amd64"), msc: map[string]*ssa.Function{}}
	return p, initial, nil
}

func (p *Program) isRepo(path string) bool {
	return (path == repoMod || strings.HasPrefix(path, repoMod+"/")) && !strings.HasPrefix(path, zzMod)
}

func (p *Program) build(f *ssa.Function) {
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

var skipPrefixes = []string{"runtime", "reflect", "syscall", "internal", "vendor", "unsafe", "os/signal", "net", "crypto", "testing", "encoding/gob"}

func (p *Program) skipInit(path string) bool {
	if path == "internal/oserror" || path == "internal/stringslite" || path == "internal/strconv" {
		return false
	}
	for _, s := range skipPrefixes {
		if path == s || strings.HasPrefix(path, s+"/") {
			return true
		}
	}
	return false
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ssa.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (p *Program) methodSel(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil || types.IsInterface(t) {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) rtErrTI(m *M) *TI {
	if pk := p.ssa.ImportedPackage("runtime"); pk != nil {
		if t := pk.Type("errorString"); t != nil {
			return m.ts.get(t.Type())
		}
	}
	return m.ts.get(types.Typ[types.String])
}

func (p *Program) rtypeTI(m *M) *TI {
	pk := p.ssa.ImportedPackage("reflect")
	if pk == nil || pk.Type("rtype") == nil {
		panic(unsupported("reflect not loaded"))
	}
	return m.ts.get(types.NewPointer(pk.Type("rtype").Type()))
}

// ---- package initialisation, run lazily and tolerantly

func isPkgInit(f *ssa.Function) bool {
	return f.Synthetic == "package initializer"
}

func (m *M) poisonVal(ti *TI) Value {
	if t, ok := ti.u.(*types.Tuple); ok {
		a := make(Agg, t.Len())
		for i := range a {
			a[i] = m.poisonVal(ti.fields[i])
		}
		return Value{p: a}
	}
	if ti.agg {
		a := make(Agg, ti.slots)
		for i := range a {
			a[i] = Value{p: poison{}}
		}
		return Value{p: a}
	}
	return Value{p: poison{}}
}

func (m *M) initPkg(pkg *ssa.Package) {
	if m.initDone[pkg] {
		return
	}
	m.initDone[pkg] = true
	if m.prog.skipInit(pkg.Pkg.Path()) {
		return
	}
	pkg.Build()
	init := pkg.Func("init")
	if init == nil {
		return
	}
	sv := *m
	m.initing, m.spec, m.steps, m.allocs, m.depth = true, 0, 0, 0, 0
	m.stack, m.sp = make([]Value, 1<<14), 0
	m.callers, m.panicFrames, m.deferDepth = nil, nil, nil
	m.stepLimit, m.allocLimit = 100_000_000, 1<<30
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.prog.warn.Store("init "+pkg.Pkg.Path(), fmt.Sprint(r))
				for _, mem := range pkg.Members {
					if g, ok := mem.(*ssa.Global); ok {
						m.rawGlobal(g).pois = true
					}
				}
			}
		}()
		m.runInit(init)
	}()
	m.initing, m.spec, m.steps, m.allocs, m.depth = sv.initing, sv.spec, sv.steps, sv.allocs, sv.depth
	m.stack, m.sp = sv.stack, sv.sp
	m.callers, m.panicFrames, m.deferDepth = sv.callers, sv.panicFrames, sv.deferDepth
	m.stepLimit, m.allocLimit = sv.stepLimit, sv.allocLimit
}

// runInit executes a package initialiser; an instruction that cannot be executed
// yields an unknown value, which is noticed if a path ever reads it.
func (m *M) runInit(f *ssa.Function) {
	fn := &Fn{name: f.String(), ssa: f, recover: -1}
	c := &compiler{m: m, fn: fn, idx: map[ssa.Value]int32{}}
	c.run()
	fr := &Frame{fn: fn, r: make([]Value, fn.nregs)}
	b := fn.blocks[0]
	for {
		sb := f.Blocks[b.idx]
		for _, in := range sb.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef:
				continue
			}
			ins := c.instr(in)
			if ins == nil {
				continue
			}
			if msg := m.tryInit(func() { ins(m, fr) }); msg != "" {
				if v, ok := in.(ssa.Value); ok {
					fr.r[c.idx[v]] = m.poisonVal(m.ts.get(v.Type()))
				}
				if call, ok := in.(*ssa.Call); ok {
					if callee := call.Call.StaticCallee(); callee != nil && strings.HasPrefix(callee.Name(), "init#") {
						m.poisonStores(callee)
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						m.rawGlobal(g).pois = true
					}
				}
				m.prog.warn.LoadOrStore("init "+f.Pkg.Pkg.Path()+" "+in.String(), msg)
			}
		}
		switch b.term {
		case 0:
			b = m.follow(fr, b, 0)
		case 1:
			cv := b.cond.v(fr)
			if cv.p != nil {
				panic("branch on unknown value in initialiser")
			}
			if cv.n != 0 {
				b = m.follow(fr, b, 0)
			} else {
				b = m.follow(fr, b, 1)
			}
		default:
			return
		}
	}
}

func (m *M) poisonStores(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg == f.Pkg {
					m.rawGlobal(g).pois = true
				}
			}
		}
	}
}

func (m *M) tryInit(f func()) (msg string) {
	depth, callers, sp, stack := m.depth, len(m.callers), m.sp, m.stack
	defer func() {
		if r := recover(); r != nil {
			m.depth, m.callers, m.sp, m.stack = depth, m.callers[:callers], sp, stack
			m.spec = 0
			m.panicFrames, m.deferDepth = nil, nil
			switch x := r.(type) {
			case pathEnd:
				msg = x.msg
			case *TPanic:
				msg = x.msg
			default:
				msg = fmt.Sprint(r)
			}
			if msg == "" {
				msg = "failed"
			}
		}
	}()
	f()
	return ""
}

func (m *M) rawGlobal(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	ti := m.ts.get(g.Type().(*types.Pointer).Elem())
	o := &Obj{s: make([]Value, ti.slots), base: true, tag: g.String()}
	m.globals[g] = o
	if g.Pkg != nil && m.prog.skipInit(g.Pkg.Pkg.Path()) && !strings.HasSuffix(g.Name(), "init$guard") {
		o.pois = true
	}
	return o
}

// global returns the object of a package variable, initialising its package first.
func (m *M) global(g *ssa.Global) *Obj {
	o := m.rawGlobal(g)
	if g.Pkg != nil {
		m.initPkg(g.Pkg)
	}
	return o
}

func (m *M) globalReady(g *ssa.Global) *Obj { return m.global(g) }
