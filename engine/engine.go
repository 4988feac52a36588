package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sjansen/pgutil"

func inModule(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

const zzPath = modPath + "/internal/zzverif"

type Stats struct {
	SolverStats
	Paths, Pruned, Infeasible, Stopped, Inconclusive int
	Forks, RegionForks, Merges, PureCalls            int
	Transitions, SleepPruned                         int
	Asserts, AssertQueries                           int
	Steps                                            int64
	MaxDepth                                         int
}

func (a *Stats) add(b *Stats) {
	a.Queries += b.Queries
	a.SatN += b.SatN
	a.UnsatN += b.UnsatN
	a.UnknownN += b.UnknownN
	a.Time += b.Time
	a.CacheHits += b.CacheHits
	a.DomainDecided += b.DomainDecided
	a.RangeDecided += b.RangeDecided
	a.Confirmed += b.Confirmed
	a.ModelDecided += b.ModelDecided
	a.Paths += b.Paths
	a.Pruned += b.Pruned
	a.Infeasible += b.Infeasible
	a.Stopped += b.Stopped
	a.Inconclusive += b.Inconclusive
	a.Forks += b.Forks
	a.RegionForks += b.RegionForks
	a.Merges += b.Merges
	a.PureCalls += b.PureCalls
	a.Transitions += b.Transitions
	a.SleepPruned += b.SleepPruned
	a.Asserts += b.Asserts
	a.AssertQueries += b.AssertQueries
	a.Steps += b.Steps
	if b.MaxDepth > a.MaxDepth {
		a.MaxDepth = b.MaxDepth
	}
}

type Harness struct {
	ID, Name string
	Pkg      string
	Fn       *ssa.Function
	FnName   string
	params   map[string]int
	opts     map[string]string
	reachMu  sync.Mutex
	reached  map[string]int
	want     []string
	bounds   []string
}

func (h *Harness) reach(l string) {
	h.reachMu.Lock()
	h.reached[l]++
	h.reachMu.Unlock()
}

func (h *Harness) mapDev() int {
	if v, ok := h.params["mapdev"]; ok {
		return v
	}
	return 0
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Inputs  map[string]any    `json:"inputs"`
	Steps   []string          `json:"steps,omitempty"`
	Sched   int               `json:"schedule_choices"`
	MapDevs int               `json:"map_order_choices"`
	Stack   string            `json:"stack,omitempty"`
	Params  map[string]int    `json:"params,omitempty"`
	Native  *NativeResult     `json:"native,omitempty"`
	Extra   map[string]string `json:"extra,omitempty"`
}

type Sample struct {
	Inputs map[string]any `json:"inputs"`
	Obs    []string       `json:"obs"`
	Steps  []string       `json:"steps,omitempty"`
	nondet bool
}

type Engine struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	stubs     map[string]*ssa.Function
	rtErrType types.Type
	rtypeType types.Type
	fnCache   sync.Map
	overlay   map[string]string // repo path -> verif path

	// exploration state of the current harness
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []*workItem
	busy       int
	deadline   time.Time
	stopAll    bool
	timedOut   bool
	violations []*Violation
	vseen      map[string]int
	samples    []*Sample
	sampleSkip int
	sampleN    int
	maxSamples int
	notes      map[string]int
	used       map[string]bool
	maxPaths   int
	solverName string
	nworkers   int
	rand       uint64
	repo       string

	litMu sync.Mutex
	lits  map[string][]string
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if v, ok := e.fnCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsup("package %s is not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsup("no function %s.%s", pkg, name))
	}
	e.fnCache.Store(k, f)
	return f
}

func (e *Engine) typ(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsup("package %s is not loaded", pkg))
	}
	return p.Type(name).Type()
}

// loadEngine loads the repository with the harness packages laid over it and builds SSA for everything.
func loadEngine(repo string, overlay map[string]string, pats []string, goflags string) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    ov,
		BuildFlags: []string{"-tags=math_big_pure_go"}, // instead of assembly
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS="+goflags, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: pkgs, stubs: map[string]*ssa.Function{}, overlay: overlay, repo: repo}
	e.cond = sync.NewCond(&e.mu)
	if p := prog.ImportedPackage(symPkg); p != nil {
		e.rtErrType = p.Type("RuntimeError").Type()
		e.rtypeType = types.NewPointer(p.Type("RType").Type())
	} else {
		return nil, fmt.Errorf("package sym is not loaded")
	}
	return e, nil
}

// harnesses finds the harness functions of the loaded packages and registers their stubs.
func (e *Engine) harnesses(id, tier string) ([]*Harness, error) {
	var out []*Harness
	var err error
	packages.Visit(e.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			if _, ok := e.overlay[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					txt := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					switch {
					case strings.HasPrefix(txt, "verif:stub "):
						name := strings.TrimSpace(strings.TrimPrefix(txt, "verif:stub "))
						sp := e.prog.ImportedPackage(p.PkgPath)
						e.stubs[name] = sp.Func(fd.Name.Name)
					case strings.HasPrefix(txt, "verif:harness "):
						h := parseHarness(strings.TrimPrefix(txt, "verif:harness "), tier)
						if h.ID != id {
							continue
						}
						if _, only := h.opts["thoroughonly"]; only && tier != "thorough" {
							continue
						}
						sp := e.prog.ImportedPackage(p.PkgPath)
						h.Fn = sp.Func(fd.Name.Name)
						h.FnName = fd.Name.Name
						h.Pkg = p.PkgPath
						if h.Name == "" {
							h.Name = fd.Name.Name
						}
						if h.Fn == nil {
							err = fmt.Errorf("no function %s", fd.Name.Name)
						}
						for _, c2 := range fd.Doc.List {
							t2 := strings.TrimSpace(strings.TrimPrefix(c2.Text, "//"))
							if strings.HasPrefix(t2, "verif:bound ") {
								h.bounds = append(h.bounds, strings.TrimPrefix(t2, "verif:bound "))
							}
							if strings.HasPrefix(t2, "verif:reach ") {
								h.want = append(h.want, strings.Fields(strings.TrimPrefix(t2, "verif:reach "))...)
							}
						}
						out = append(out, h)
					}
				}
			}
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, err
}

// parseHarness reads "C01 name key=val quick:key=val thorough:key=val flag".
func parseHarness(s, tier string) *Harness {
	h := &Harness{params: map[string]int{}, opts: map[string]string{}, reached: map[string]int{}}
	fs := strings.Fields(s)
	if len(fs) > 0 {
		h.ID = fs[0]
	}
	if len(fs) > 1 {
		h.Name = fs[1]
	}
	for i := 2; i < len(fs); i++ {
		w := fs[i]
		pref := ""
		if j := strings.IndexByte(w, ':'); j >= 0 {
			pref, w = w[:j], w[j+1:]
		}
		if pref != "" && pref != tier {
			continue
		}
		if k, v, ok := strings.Cut(w, "="); ok {
			if n, err := strconv.Atoi(v); err == nil {
				h.params[k] = n
			} else {
				h.opts[k] = v
			}
		} else {
			h.opts[w] = "1"
		}
	}
	return h
}

func (e *Engine) newMachine(id int, h *Harness) *M {
	m := &M{eng: e, id: id, hs: h, st: &Stats{},
		infos: map[*ssa.Function]*FuncInfo{}, closures: map[*ssa.Function]*Closure{}, globals: map[*ssa.Global]Ptr{},
		pkgDone: map[*ssa.Package]bool{}, pureFns: map[*ssa.Function]bool{}, tis: map[types.Type]*TI{}, usedFns: map[string]bool{},
		rtypes: map[*TI]*RType{}, notes: map[string]int{}, maxSteps: 3000000}
	if v, ok := h.params["steps"]; ok {
		m.maxSteps = v
	}
	m.bank = newBank()
	m.solver = newSolver(m.bank, &m.st.SolverStats, e.solverName)
	return m
}

func (m *M) violation(kind, msg string, delta map[int32]uint64) {
	e := m.eng
	save := append([]uint64(nil), m.p.model...)
	m.setModel(delta)
	v := &Violation{Harness: m.hs.Name, Kind: kind, Msg: msg, Inputs: m.inputs(), Steps: append([]string(nil), m.p.steps...),
		Sched: m.p.schedN, MapDevs: m.p.devs, Stack: m.stackTrace(), Params: m.hs.params}
	copy(m.p.model, save)
	m.p.modelGen++
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + msg
	if kind == "deadlock" {
		key = kind
	}
	e.vseen[key]++
	if e.vseen[key] <= 6 && len(e.violations) < 60 {
		e.violations = append(e.violations, v)
	}
	if e.vseen[key] >= 40 {
		e.stopAll = true
		e.cond.Broadcast()
	}
}

// runPath executes one path; the work items of its untaken alternatives are returned.
func (m *M) runPath(it *workItem) (items []*workItem) {
	m.newPath(it)
	m.epoch++
	m.gs = nil
	m.steps = 0
	m.chanSeq = 0
	m.merging = false
	m.mergeDepth = 0
	m.mutexes = map[Ptr]*mutexState{}
	m.wgs = map[Ptr]*wgState{}
	m.counters = map[string]int{}
	m.shadow = map[any]*shadow{}
	m.objVC = map[any]*vclock{}
	m.live = map[string]Value{}
	m.incomplete = false
	outcome := "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					outcome = x.why
				case pathStop:
					outcome = "stopped"
					m.note("path stopped: " + x.why + " at" + m.stackTrace())
				case unsupported:
					outcome = "unsupported"
					m.note("unsupported: " + x.msg + " at" + m.stackTrace())
				case bailOut:
					outcome = "unsupported"
					m.note("internal: unexpected bail-out")
				case pathFatal:
					m.violation("panic", "fatal error: "+x.msg, nil)
					outcome = "violated"
				default:
					fmt.Fprintf(os.Stderr, "engine panic: %v%s\n%s\n", r, m.stackTrace(), debug.Stack())
					outcome = "unsupported"
					m.note(fmt.Sprintf("engine failure: %v at%s", r, m.stackTrace()))
				}
			}
		}()
		g := &G{id: 0, name: "harness"}
		m.gs = []*G{g}
		m.cur = g
		if m.hs.Fn.Pkg != nil {
			m.initPkg(m.hs.Fn.Pkg)
			m.gs, m.cur = []*G{g}, g
		}
		m.pushCall(g, m.fnClosure(m.hs.Fn), nil, -1)
		m.runAll()
	}()
	if m.p.pos < len(m.p.prefix) && outcome != "unsupported" && outcome != "stopped" {
		m.note("internal: a replayed path ended before its prefix (" + outcome + ")")
		outcome = "unsupported"
	}
	m.st.Steps += int64(m.steps)
	if m.p.last != nil && m.p.last.depth > m.st.MaxDepth {
		m.st.MaxDepth = m.p.last.depth
	}
	switch outcome {
	case "done":
		m.st.Paths++
		m.maybeSample()
	case "stopped":
		m.st.Stopped++
	case "unsupported":
		m.st.Inconclusive++
	case "redundant interleaving":
		m.st.Pruned++
	case "assumption", "assumption unknown", "empty range", "empty choice", "no feasible leaf":
		m.st.Infeasible++
	default:
		m.st.Paths++
	}
	items = m.p.newItems
	m.restore()
	m.p = nil
	return items
}

func (m *M) maybeSample() {
	e := m.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	e.sampleSkip++
	take := len(e.samples) < e.maxSamples
	slot := -1
	if !take && e.maxSamples > 0 {
		// reservoir sampling with a deterministic generator
		e.rand = e.rand*6364136223846793005 + 1442695040888963407
		j := int((e.rand >> 33) % uint64(e.sampleSkip))
		if j < e.maxSamples {
			slot = j
		}
	}
	if !take && slot < 0 {
		return
	}
	s := &Sample{Inputs: m.inputs(), Steps: append([]string(nil), m.p.steps...), nondet: m.p.schedN > 0 || len(m.gs) > 1}
	for _, o := range m.p.obs {
		s.Obs = append(s.Obs, o.Name+"="+m.obsText(o.Val))
	}
	if take {
		e.samples = append(e.samples, s)
	} else {
		e.samples[slot] = s
	}
}

// explore runs the harness over all paths within the budget.
func (e *Engine) explore(h *Harness, budget time.Duration) *Stats {
	e.queue = []*workItem{{}}
	e.busy = 0
	e.deadline = time.Now().Add(budget)
	e.stopAll, e.timedOut = false, false
	e.violations, e.vseen = nil, map[string]int{}
	e.samples, e.sampleSkip = nil, 0
	e.notes = map[string]int{}
	if e.used == nil {
		e.used = map[string]bool{}
	}
	total := &Stats{}
	var wg sync.WaitGroup
	var tmu sync.Mutex
	paths := 0
	for w := 0; w < e.nworkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var m *M
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.busy > 0 && !e.stopAll {
					e.cond.Wait()
				}
				if e.stopAll || len(e.queue) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					break
				}
				if time.Now().After(e.deadline) || (e.maxPaths > 0 && paths >= e.maxPaths) {
					e.timedOut = true
					e.stopAll = true
					e.mu.Unlock()
					e.cond.Broadcast()
					break
				}
				it := e.queue[len(e.queue)-1]
				e.queue = e.queue[:len(e.queue)-1]
				e.busy++
				paths++
				e.mu.Unlock()
				if m == nil {
					m = e.newMachine(w, h)
				}
				items := m.runPath(it)
				e.mu.Lock()
				e.queue = append(e.queue, items...)
				e.busy--
				e.mu.Unlock()
				e.cond.Broadcast()
			}
			if m != nil {
				m.solver.close()
				tmu.Lock()
				total.add(m.st)
				for k, v := range m.notes {
					e.notes[k] += v
				}
				for k := range m.usedFns {
					e.used[k] = true
				}
				tmu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	return total
}

func copyFile(src, dst string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0o755)
	return os.WriteFile(dst, b, 0o644)
}
