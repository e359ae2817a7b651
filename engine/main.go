package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessSpec is one exploration of a check.
type HarnessSpec struct {
	Pkg      string            `json:"pkg"`
	Fn       string            `json:"fn"`
	Stubs    map[string]string `json:"stubs,omitempty"` // full function name -> harness function (pkg.Fn)
	Quick    []map[string]int  `json:"quick"`
	Thorough []map[string]int  `json:"thorough"`
	Steps    int64             `json:"steps,omitempty"`
	Depth    int               `json:"depth,omitempty"`
	Reach    []string          `json:"reach,omitempty"`
	Budget   int               `json:"budget,omitempty"`
	BudgetT  int               `json:"budget_thorough,omitempty"`
	Bound    string            `json:"bound,omitempty"`
	NoMerge  bool              `json:"nomerge,omitempty"`
	NoNative bool              `json:"nonative,omitempty"`
	Env      []string          `json:"env,omitempty"`
}

type CheckSpec struct {
	Harnesses   []HarnessSpec `json:"harnesses"`
	Assumptions []string      `json:"assumptions,omitempty"`
}

type Specs struct {
	StubSets map[string]map[string]string `json:"stubsets"`
	Checks   map[string]*CheckSpec        `json:"checks"`
}

var verif = "/verif"

func main() {
	prof := flag.String("prof", "", "cpu profile")
	tierF := flag.String("tier", "", "tier")
	only := flag.String("only", "", "run only this harness")
	paramF := flag.String("params", "", "override parameters k=v,...")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "override budget (s)")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if flag.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID | replay FILE")
		os.Exit(2)
	}
	switch flag.Arg(0) {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if *tierF != "" {
			tier = *tierF
		}
		if tier != "thorough" {
			tier = "quick"
		}
		d := &driver{id: flag.Arg(1), tier: tier, only: *only, workers: *workers, budget: *budget, verbose: *verbose, params: map[string]int{}}
		if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			d.seed = s
		} else {
			d.seed = 1
		}
		for _, kv := range strings.Split(*paramF, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n, _ := strconv.Atoi(v)
				d.params[k] = n
			}
		}
		if tier == "thorough" && os.Getenv("GOSYM_CONFIRM_EACH") == "" {
			confirmEach = 8
		}
		code := d.check()
		pprof.StopCPUProfile()
		os.Exit(code)
	case "replay":
		os.Exit(replayFile(flag.Arg(1)))
	}
	os.Exit(2)
}

type driver struct {
	id, tier, only string
	seed           int64
	workers        int
	budget         int
	verbose        bool
	params         map[string]int
	specs          *Specs
	spec           *CheckSpec
	prog           *Program
	runner         string
	tmp            string
	confirmed      []*Candidate
	start          time.Time
}

type runReport struct {
	Harness       string           `json:"harness"`
	Params        map[string]int   `json:"bounds"`
	Bound         string           `json:"bound_text,omitempty"`
	Paths         int64            `json:"paths"`
	Ends          map[string]int64 `json:"path_ends"`
	Steps         int64            `json:"ssa_steps"`
	Decisions     int64            `json:"decisions"`
	Forks         int64            `json:"forks"`
	Merges        int64            `json:"merged_regions"`
	Asserts       int64            `json:"assertions_checked"`
	Queries       int64            `json:"solver_queries"`
	Sat           int64            `json:"sat"`
	Unsat         int64            `json:"unsat"`
	Unknown       int64            `json:"unknown"`
	Again         int64            `json:"decided_by_a_new_solver"`
	SolverS       float64          `json:"solver_s"`
	Presolved     int64            `json:"presolved"`
	Ruled         int64            `json:"presolved_infeasible"`
	Confirmed     int64            `json:"presolved_infeasible_confirmed_by_z3"`
	WallS         float64          `json:"wall_s"`
	MaxDec        int              `json:"max_decisions_on_a_path"`
	MaxVars       int              `json:"max_symbolic_inputs_on_a_path"`
	Complete      bool             `json:"complete_within_bounds"`
	Incomplete    map[string]int   `json:"incomplete,omitempty"`
	Unsupported   []string         `json:"unsupported,omitempty"`
	Reach         map[string]int64 `json:"reached"`
	MissingReach  []string         `json:"reach_missing,omitempty"`
	Funcs         []string         `json:"repo_functions_encoded"`
	Validated     int              `json:"paths_validated_natively"`
	Mismatch      []string         `json:"native_mismatches,omitempty"`
	Unreproduced  []string         `json:"unreproduced_candidates,omitempty"`
	Samples       []any            `json:"samples,omitempty"`
	ConfirmedViol int              `json:"confirmed_violations"`
	InitProblems  []string         `json:"init_problems,omitempty"`
}

func (d *driver) fail(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, "gosym: "+format+"\n", a...)
	return 2
}

func loadSpecs() (*Specs, error) {
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		return nil, err
	}
	var s Specs
	if err := json.Unmarshal(b, &s); err != nil {
		return nil, fmt.Errorf("checks.json: %v", err)
	}
	return &s, nil
}

func (d *driver) stubs(h *HarnessSpec) map[string]string {
	out := map[string]string{}
	for k, v := range h.Stubs {
		if k == "set" {
			for _, name := range strings.Split(v, ",") {
				for a, b := range d.specs.StubSets[name] {
					out[a] = b
				}
			}
			continue
		}
		out[k] = v
	}
	return out
}

// prepare loads the program and builds the native runner.
func prepare(pkgs []string, fns map[string]bool, tmp string) (*Program, string, error) {
	dirs := append([]string{"sym"}, pkgs...)
	dirs = append(dirs, extraDirs(pkgs)...)
	files, err := harnessFiles(filepath.Join(verif, "harness"), append(dirs, "runnerlib"))
	if err != nil {
		return nil, "", err
	}
	if err := rewriteFiles(dirs, files, tmp); err != nil {
		return nil, "", err
	}
	var main bytes.Buffer
	main.WriteString("package main\n\nimport (\n\t\"" + zzMod + "/runnerlib\"\n")
	for _, p := range pkgs {
		fmt.Fprintf(&main, "\t%q\n", zzMod+"/"+p)
	}
	main.WriteString(")\n\nfunc main() {\n\trunnerlib.Main(map[string]func(){\n")
	var names []string
	for f := range fns {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		fmt.Fprintf(&main, "\t\t%q: %s,\n", f, f)
	}
	main.WriteString("\t})\n}\n")
	mf := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mf, main.Bytes(), 0o644); err != nil {
		return nil, "", err
	}
	ov := map[string]string{filepath.Join(overlayAt, "runner", "main.go"): mf}
	for k, v := range files {
		ov[k] = v
	}
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return nil, "", err
	}
	bin := filepath.Join(tmp, "runner")
	errc := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, zzMod+"/runner")
		cmd.Dir = repoDir
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("building the native runner: %v\n%s", err, out)
		}
		errc <- err
	}()
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zzMod+"/"+p)
	}
	prog, _, err := loadProgram(files, pats)
	if e2 := <-errc; e2 != nil {
		return nil, "", e2
	}
	if err != nil {
		return nil, "", err
	}
	return prog, bin, nil
}

// extraDirs finds helper packages imported by harness packages.
func extraDirs(pkgs []string) []string {
	seen := map[string]bool{"sym": true, "runnerlib": true}
	var out []string
	var visit func(p string)
	visit = func(p string) {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", p, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if i := strings.Index(l, "\""+zzMod+"/"); i >= 0 {
					rest := l[i+len(zzMod)+2:]
					if j := strings.IndexByte(rest, '"'); j >= 0 {
						q := rest[:j]
						if !seen[q] {
							seen[q] = true
							out = append(out, q)
							visit(q)
						}
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		seen[p] = true
	}
	for _, p := range pkgs {
		visit(p)
	}
	return out
}

func (p *Program) fnByName(name string) *ssa.Function {
	pk, fn, ok := strings.Cut(name, ".")
	if !ok {
		return nil
	}
	pkg := p.ssa.ImportedPackage(zzMod + "/" + pk)
	if pkg == nil {
		return nil
	}
	return pkg.Func(fn)
}

func (d *driver) check() int {
	d.start = time.Now()
	var err error
	if d.specs, err = loadSpecs(); err != nil {
		return d.fail("%v", err)
	}
	d.spec = d.specs.Checks[d.id]
	if d.spec == nil {
		return d.fail("no check %s", d.id)
	}
	if d.tmp, err = os.MkdirTemp("", "gosym"); err != nil {
		return d.fail("%v", err)
	}
	defer os.RemoveAll(d.tmp)
	pset := map[string]bool{}
	fns := map[string]bool{}
	var pkgs []string
	add := func(p string) {
		if !pset[p] {
			pset[p] = true
			pkgs = append(pkgs, p)
		}
	}
	for i := range d.spec.Harnesses {
		h := &d.spec.Harnesses[i]
		add(h.Pkg)
		fns[h.Pkg+"."+h.Fn] = true
		for _, s := range d.stubs(h) {
			p, _, _ := strings.Cut(s, ".")
			_ = p
		}
	}
	if d.prog, d.runner, err = prepare(pkgs, fns, d.tmp); err != nil {
		return d.fail("%v", err)
	}
	loadS := time.Since(d.start).Seconds()
	known := d.replayKnown()
	var reports []*runReport
	viol := 0
	for i := range d.spec.Harnesses {
		h := &d.spec.Harnesses[i]
		if d.only != "" && d.only != h.Fn {
			continue
		}
		sets := h.Quick
		if d.tier == "thorough" { // as well
			sets = append(sets[:len(sets):len(sets)], h.Thorough...)
		}
		if len(sets) == 0 || len(d.params) > 0 {
			sets = []map[string]int{{}}
		}
		for _, ps := range sets {
			p := map[string]int{}
			for k, v := range ps {
				p[k] = v
			}
			for k, v := range d.params {
				p[k] = v
			}
			r := d.runHarness(h, p)
			reports = append(reports, r)
			viol += r.ConfirmedViol
			d.summary(r)
			if viol > 0 {
				break
			}
		}
		if viol > 0 {
			break
		}
	}
	for i, c := range d.confirmed {
		path := d.writeReplay(c, i)
		fmt.Printf("%s: %s in harness %s: %s\n", d.id, c.Kind, c.Harness, c.Msg)
		fmt.Printf("  inputs: %s\n", describe(c.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, path)
	}
	if err := d.evidence(reports, viol, loadS, known); err != nil {
		return d.fail("%v", err)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

func (d *driver) summary(r *runReport) {
	state := "complete"
	if !r.Complete {
		state = "INCOMPLETE"
	}
	fmt.Printf("%s %s %v: %s, %d paths %v, %d queries (%d unknown) %.1fs solver, %.1fs wall, %d assertions, %d validated\n",
		d.id, r.Harness, r.Params, state, r.Paths, r.Ends, r.Queries, r.Unknown, r.SolverS, r.WallS, r.Asserts, r.Validated)
	for k, v := range r.Incomplete {
		fmt.Printf("  incomplete: %s (%d)\n", k, v)
	}
	for _, s := range r.Unsupported {
		fmt.Printf("  unsupported: %s\n", s)
	}
	for _, s := range r.MissingReach {
		fmt.Printf("  not reached: %s\n", s)
	}
	for _, s := range r.Mismatch {
		fmt.Printf("  MISMATCH: %s\n", s)
	}
	for _, s := range r.Unreproduced {
		fmt.Printf("  unreproduced: %s\n", s)
	}
	if d.verbose {
		for _, s := range r.InitProblems {
			fmt.Printf("  init: %s\n", s)
		}
		fmt.Printf("  reach: %v merges %d\n", r.Reach, r.Merges)
		fmt.Printf("  funcs: %v\n", r.Funcs)
		for _, s := range r.Samples {
			b, _ := json.Marshal(s)
			fmt.Printf("  sample: %s\n", b)
		}
	}
}

func (d *driver) runHarness(h *HarnessSpec, params map[string]int) *runReport {
	t0 := time.Now()
	cfg := &RunCfg{Harness: h.Pkg + "." + h.Fn, Params: params, StepLimit: 2_000_000, MaxDepth: 2000, AllocLimit: 20_000_000,
		Workers: d.workers, Budget: 150 * time.Second, SolverMs: 20000, Samples: 150, Seed: d.seed, noMerge: h.NoMerge}
	if d.tier == "thorough" {
		cfg.Budget = 1500 * time.Second
		cfg.Samples = 600
		cfg.SolverMs = 60000
		if h.BudgetT > 0 {
			cfg.Budget = time.Duration(h.BudgetT) * time.Second
		}
	} else if h.Budget > 0 {
		cfg.Budget = time.Duration(h.Budget) * time.Second
	}
	if d.budget > 0 {
		cfg.Budget = time.Duration(d.budget) * time.Second
	}
	if h.Steps > 0 {
		cfg.StepLimit = h.Steps
	}
	if h.Depth > 0 {
		cfg.MaxDepth = h.Depth
	}
	r := &runReport{Harness: cfg.Harness, Params: params, Bound: h.Bound, Incomplete: map[string]int{}}
	cfg.stubs = map[string]*ssa.Function{}
	for k, v := range d.stubs(h) {
		f := d.prog.fnByName(v)
		if f == nil {
			r.Incomplete["stub "+v+" not found"]++
			continue
		}
		cfg.stubs[k] = f
	}
	entry := d.prog.fnByName(cfg.Harness)
	if entry == nil {
		r.Incomplete["harness not found"]++
		return r
	}
	d.prog.build(entry)
	ex := NewExplorer(d.prog, cfg)
	done := make(chan struct{})
	go func() {
		defer close(done)
		tried := map[string]int{}
		conf := map[string]bool{}
		total := 0
		for c := range ex.cands {
			key := c.Kind + c.Msg
			if conf[key] || tried[key] >= 5 || total >= 40 || len(d.confirmed) >= 5 {
				continue
			}
			tried[key]++
			total++
			if h.NoNative {
				r.Unreproduced = append(r.Unreproduced, fmt.Sprintf("%s: %s [%s]", c.Kind, c.Msg, describe(c.Inputs)))
				continue
			}
			res := d.native(cfg.Harness, params, [][]AssignRec{c.Inputs})
			if len(res) == 1 && bad(res[0].Out) {
				c.Kind, c.Msg = res[0].Out, res[0].Msg
				conf[key] = true
				d.confirmed = append(d.confirmed, c)
				r.ConfirmedViol++
				ex.stop.Store(true)
			} else {
				s := fmt.Sprintf("%s: %s at %s [%s]", c.Kind, c.Msg, c.At, describe(c.Inputs))
				if len(res) == 1 {
					s += " native: " + res[0].Out + " " + res[0].Msg
				}
				r.Unreproduced = append(r.Unreproduced, s)
			}
		}
	}()
	ex.run(entry)
	<-done
	// validate completed paths against the real code
	if !h.NoNative && r.ConfirmedViol == 0 && len(ex.sample) > 0 {
		ins := make([][]AssignRec, len(ex.sample))
		for i, s := range ex.sample {
			ins[i] = s.Inputs
		}
		for _, res := range d.native(cfg.Harness, params, ins) {
			s := ex.sample[res.I]
			switch {
			case bad(res.Out):
				if r.ConfirmedViol == 0 {
					d.confirmed = append(d.confirmed, &Candidate{Harness: cfg.Harness, Params: params, Kind: res.Out, Msg: res.Msg + " (found while validating an explored path natively)", Inputs: s.Inputs})
					r.ConfirmedViol++
				}
			case res.Out == "ok" && eqStrs(res.Obs, s.Obs):
				r.Validated++
			default:
				if len(r.Mismatch) < 5 {
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("%s: native %s %s obs %v, symbolic obs %v", describe(s.Inputs), res.Out, res.Msg, res.Obs, s.Obs))
				}
			}
		}
	}
	for i := 0; i < len(ex.sample) && i < 3; i++ {
		s := ex.sample[(i*7)%len(ex.sample)]
		r.Samples = append(r.Samples, map[string]any{"inputs": describe(s.Inputs), "observed": s.Obs})
	}
	r.Paths, r.Ends, r.Steps, r.Decisions, r.Forks = ex.tot.Paths, ex.ends, ex.tot.Instrs, ex.tot.Decisions, ex.tot.Forks
	r.Merges, r.Asserts = ex.tot.Merges, ex.tot.Asserts
	r.Presolved, r.Ruled, r.Confirmed = ex.tot.Quick, ex.tot.Ruled, ex.tot.Confirmed
	r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverS = ex.sol.checks, ex.sol.sat, ex.sol.unsat, ex.sol.unknown, ex.sol.time.Seconds()
	r.Again = ex.sol.again
	r.MaxDec, r.MaxVars = ex.maxDec, ex.maxVars
	for k, v := range ex.inc {
		r.Incomplete[k] += v
	}
	r.Unsupported = topN(ex.unsup, 8)
	r.Reach = ex.reach
	r.Funcs = sortedKeys(ex.funcs)
	for _, l := range h.Reach {
		if ex.reach[l] == 0 {
			r.MissingReach = append(r.MissingReach, l)
		}
	}
	d.prog.warn.Range(func(k, v any) bool {
		if len(r.InitProblems) < 30 {
			r.InitProblems = append(r.InitProblems, fmt.Sprintf("%v: %v", k, v))
		}
		return true
	})
	r.Complete = len(r.Incomplete) == 0 && len(ex.unsup) == 0 && len(r.Unreproduced) == 0 && !ex.stop.Load()
	r.WallS = time.Since(t0).Seconds()
	return r
}

func bad(out string) bool {
	switch out {
	case "assert", "panic", "hang", "mem", "stack", "exit":
		return true
	}
	return false
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type nativeResult struct {
	I   int      `json:"i"`
	Out string   `json:"out"`
	Msg string   `json:"msg"`
	Obs []string `json:"obs"`
	Trc string   `json:"trace"`
}

// native runs the harness on assignments against the real code.
func (d *driver) native(harness string, params map[string]int, ins [][]AssignRec) []nativeResult {
	return runNative(d.runner, d.tmp, harness, params, ins)
}

func runNative(runner, tmp, harness string, params map[string]int, ins [][]AssignRec) []nativeResult {
	var buf bytes.Buffer
	for _, in := range ins {
		if in == nil {
			in = []AssignRec{}
		}
		b, _ := json.Marshal(in)
		buf.Write(b)
		buf.WriteByte('\n')
	}
	pb, _ := json.Marshal(params)
	var out []nativeResult
	from := 0
	hangs := 0
	for from < len(ins) && hangs < 5 {
		pr, pw, err := os.Pipe()
		if err != nil {
			return out
		}
		work, _ := os.MkdirTemp(tmp, "n")
		cmd := exec.Command(runner, "-h", harness, "-params", string(pb), "-from", fmt.Sprint(from))
		cmd.Dir = work
		cmd.Stdin = bytes.NewReader(buf.Bytes())
		cmd.ExtraFiles = []*os.File{pw}
		var errb tail
		cmd.Stderr = &errb
		cmd.Stdout = io.Discard
		if err := cmd.Start(); err != nil {
			pw.Close()
			pr.Close()
			return out
		}
		pw.Close()
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		last, started := from-1, from-1
		for sc.Scan() {
			l := sc.Bytes()
			if bytes.HasPrefix(l, []byte("{\"start\":")) {
				fmt.Sscanf(string(l), "{\"start\":%d}", &started)
				continue
			}
			var r nativeResult
			if json.Unmarshal(l, &r) == nil {
				out = append(out, r)
				last = r.I
			}
		}
		err = cmd.Wait()
		pr.Close()
		os.RemoveAll(work)
		if err == nil {
			break
		}
		if started > last { // died without a result
			k := "exit"
			msg := errb.String()
			if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "stack exceeds") {
				k = "stack"
			}
			out = append(out, nativeResult{I: started, Out: k, Msg: firstLine(msg)})
			last = started
		}
		hangs++
		from = last + 1
	}
	return out
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

// describe renders an assignment compactly: byte runs become quoted strings.
func describe(in []AssignRec) string {
	var parts []string
	for i := 0; i < len(in); {
		r := in[i]
		if k := strings.IndexByte(r.N, '['); k > 0 && r.K == "U8" {
			base := r.N[:k]
			var b []byte
			for i < len(in) && in[i].K == "U8" && strings.HasPrefix(in[i].N, base+"[") {
				b = append(b, byte(in[i].V))
				i++
			}
			parts = append(parts, fmt.Sprintf("%s=%q", base, b))
			continue
		}
		switch r.K {
		case "I8", "I16", "I32", "I64", "Int", "Range":
			w := map[string]Sort{"I8": 8, "I16": 16, "I32": 32}[r.K]
			if w == 0 {
				w = 64
			}
			parts = append(parts, fmt.Sprintf("%s=%d", r.N, sx(r.V, w)))
		default:
			parts = append(parts, fmt.Sprintf("%s=%d", r.N, r.V))
		}
		i++
	}
	s := strings.Join(parts, " ")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

func (d *driver) writeReplay(c *Candidate, i int) string {
	dir := filepath.Join(outDir(), "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", d.id, i))
	b, _ := json.MarshalIndent(map[string]any{"property": d.id, "candidate": c, "inputs_text": describe(c.Inputs),
		"how": "/verif/gosym.sh replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property  string
		Candidate *Candidate
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Candidate == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	pk, _, _ := strings.Cut(f.Candidate.Harness, ".")
	_, bin, err := prepare([]string{pk}, map[string]bool{f.Candidate.Harness: true}, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, r := range runNative(bin, tmp, f.Candidate.Harness, f.Candidate.Params, [][]AssignRec{f.Candidate.Inputs}) {
		fmt.Printf("%s %s\n%s\n", r.Out, r.Msg, r.Trc)
		if bad(r.Out) {
			return 1
		}
	}
	return 0
}

// ---- known findings

type knownFinding struct {
	Property string         `json:"property"`
	What     string         `json:"what"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Inputs   []AssignRec    `json:"inputs"`
}

func (d *driver) replayKnown() []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		return nil
	}
	var out []string
	for _, k := range f.Findings {
		if k.Property != d.id {
			continue
		}
		res := d.native(k.Harness, k.Params, [][]AssignRec{k.Inputs})
		if len(res) == 1 && bad(res[0].Out) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.id, k.What)
			out = append(out, k.What)
		}
	}
	return out
}

// ---- evidence

func (d *driver) evidence(rs []*runReport, viol int, loadS float64, known []string) error {
	funcs := map[string]bool{}
	var paths, dec, steps, queries, valid, asserts, unsat, pre, ruled, confirmed int64
	var solver float64
	complete := true
	var samples []any
	stubs := map[string]bool{}
	for _, h := range d.spec.Harnesses {
		for k := range d.stubs(&h) {
			stubs[k] = true
		}
	}
	for _, r := range rs {
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		paths += r.Paths
		dec += r.Decisions
		steps += r.Steps
		queries += r.Queries
		pre += r.Presolved
		ruled += r.Ruled
		confirmed += r.Confirmed
		unsat += r.Unsat
		valid += int64(r.Validated)
		asserts += r.Asserts
		solver += r.SolverS
		complete = complete && r.Complete
		samples = append(samples, r.Samples...)
		r.Samples = nil
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": valid, "samples": samples,
		"meaning":               "states = symbolic execution paths followed to their end (each stands for all inputs satisfying its path condition); transitions = SSA steps executed on them; traces = paths re-run natively on a model of their path condition with equal outcome and observations",
		"decisions":             dec,
		"assertions_discharged": asserts,
		"solver":                "Z3 (C API, incremental)",
		"solver_queries":        queries,
		"solver_unsat":          unsat,
		"presolved":             map[string]int64{"branches_decided_by_the_pre_solver": pre, "of_these_infeasible": ruled, "of_these_confirmed_by_z3": confirmed},
		"solver_seconds":        solver,
		"functions_encoded":     sortedKeys(funcs),
		"stubs":                 sortedKeys(stubs),
		"runs":                  rs,
		"exhaustive":            complete,
		"load_seconds":          loadS,
		"tree":                  repoState(),
	}
	if len(known) > 0 {
		cov["known_findings_reproduced"] = known
	}
	ev := map[string]any{"property": d.id, "tier": d.tier, "seed": d.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"bounded: the verdict covers all inputs within the bounds listed per run and nothing outside them"}, d.spec.Assumptions...),
		"wall_s":      time.Since(d.start).Seconds(), "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(outDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, d.id+".json"), append(b, '\n'), 0o644)
}

func repoState() string {
	out, err := exec.Command("git", "-C", repoDir, "describe", "--always", "--dirty").Output()
	if err != nil {
		return "unknown"
	}
	return strings.TrimSpace(string(out))
}

// outDir is where evidence and replays go.
func outDir() string {
	if d := os.Getenv("GOSYM_OUT"); d != "" {
		return d
	}
	return verif
}
