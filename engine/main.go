package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type harnessFile struct {
	dir   string // relative to harness root
	ids   map[string]bool
	needs []string
	stubs []string

	sources []string // directories of programs that are copied into the harness package
}

// scanHarness finds which harness directories serve a property.
func scanHarness(root string) (map[string]*harnessFile, error) {
	out := map[string]*harnessFile{}
	ents, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	for _, d := range ents {
		if !d.IsDir() || d.Name() == "inpkg" {
			continue
		}
		hf := &harnessFile{dir: d.Name(), ids: map[string]bool{}}
		files, _ := filepath.Glob(filepath.Join(root, d.Name(), "*.go"))
		for _, f := range files {
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, cg := range af.Comments {
				for _, c := range cg.List {
					txt := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if strings.HasPrefix(txt, "verif:harness ") {
						fs := strings.Fields(txt)
						if len(fs) > 1 {
							hf.ids[fs[1]] = true
						}
					}
					if strings.HasPrefix(txt, "verif:source ") {
						hf.sources = append(hf.sources, strings.Fields(txt)[1:]...)
					}
					if strings.HasPrefix(txt, "verif:needs ") {
						hf.needs = append(hf.needs, strings.Fields(txt)[1:]...)
					}
				}
			}
			_ = ast.File{}
		}
		out[d.Name()] = hf
	}
	return out, nil
}

type knownFinding struct {
	prop, rest string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID [flags]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "framework directory")
	repo := fs.String("repo", "/repo", "repository")
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "only this harness")
	budget := fs.Int("budget", 0, "seconds per harness")
	solver := fs.String("solver", "", "z3, z3-new or cvc5")
	workers := fs.Int("workers", 8, "")
	prof := fs.String("prof", "", "cpu profile")
	verbose := fs.Bool("v", false, "")
	noNative := fs.Bool("nonative", false, "")
	sets := fs.String("set", "", "k=v,k=v")
	id := ""
	args := os.Args[1:]
	if args[0] == "check" {
		args = args[1:]
	}
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		id = args[0]
		args = args[1:]
	}
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	c := &checker{verif: *verif, repo: *repo, tier: *tier, id: id, only: *only, budget: *budget, solver: *solver, workers: *workers,
		verbose: *verbose, noNative: *noNative, sets: *sets, t0: time.Now()}
	code := c.run()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type checker struct {
	verif, repo, tier, id, only, solver, sets string
	budget, workers                           int
	verbose, noNative                         bool
	t0                                        time.Time
	seed                                      int
}

type harnessReport struct {
	Name      string         `json:"harness"`
	Params    map[string]int `json:"bounds"`
	Bounds    []string       `json:"stated_bounds,omitempty"`
	Paths     int            `json:"paths_completed"`
	Pruned    int            `json:"interleavings_pruned_as_equivalent"`
	Infeas    int            `json:"paths_outside_assumptions"`
	Stopped   int            `json:"paths_stopped_at_step_limit"`
	Incon     int            `json:"paths_inconclusive"`
	Forks     int            `json:"forks"`
	Merges    int            `json:"branches_merged_without_fork"`
	Trans     int            `json:"scheduler_transitions"`
	Asserts   int            `json:"assertions_checked"`
	AssertQ   int            `json:"assertion_queries_to_smt"`
	Queries   int            `json:"smt_queries"`
	SatN      int            `json:"smt_sat"`
	UnsatN    int            `json:"smt_unsat"`
	UnknownN  int            `json:"smt_unknown"`
	SolverS   float64        `json:"solver_seconds"`
	Cache     int            `json:"query_cache_hits"`
	Domain    int            `json:"branches_decided_by_complete_byte_domain"`
	Confirmed int            `json:"refutations_by_domain_confirmed_by_smt"`
	Steps     int64          `json:"instructions_executed"`
	Exhausted bool           `json:"all_paths_explored"`
	Validated int            `json:"paths_replayed_natively"`
	Mismatch  []string       `json:"native_mismatches,omitempty"`
	Notes     []string       `json:"notes,omitempty"`
	Reached   map[string]int `json:"reached,omitempty"`
	Missing   []string       `json:"not_reached,omitempty"`
	Wall      float64        `json:"wall_s"`
	Unconf    int            `json:"counterexamples_not_reproduced_natively"`
}

func (c *checker) run() int {
	c.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			c.seed = n
		}
	}
	hroot := filepath.Join(c.verif, "harness")
	dirs, err := scanHarness(hroot)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	work, err := os.MkdirTemp("", "gosym-"+c.id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	overlay := map[string]string{}
	var pats []string
	for _, name := range sortedKeys(dirs) {
		hf := dirs[name]
		files, _ := filepath.Glob(filepath.Join(hroot, name, "*.go"))
		for _, f := range files {
			overlay[filepath.Join(c.repo, "internal/zzverif", name, filepath.Base(f))] = f
		}
		if hf.ids[c.id] {
			pats = append(pats, zzPath+"/"+name)
			for _, dir := range hf.sources {
				if err := copyProgram(c.repo, dir, name, work, overlay); err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
			}
			for _, n := range hf.needs {
				fs, _ := filepath.Glob(filepath.Join(hroot, "inpkg", n, "*.go"))
				for _, f := range fs {
					overlay[filepath.Join(c.repo, n, filepath.Base(f))] = f
				}
			}
		}
	}
	if len(pats) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.id)
		return 2
	}
	pats = append(pats, symPkg)
	// a private copy of go.mod and go.sum keeps the repository's files untouched
	if err := copyFile(filepath.Join(c.repo, "go.mod"), filepath.Join(work, "go.mod")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	copyFile(filepath.Join(c.repo, "go.sum"), filepath.Join(work, "go.sum"))
	goflags := "-mod=mod -modfile=" + filepath.Join(work, "go.mod")

	e, err := loadEngine(c.repo, overlay, pats, goflags)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(c.t0)
	e.nworkers = c.workers
	e.solverName = c.solver
	if e.solverName == "" {
		e.solverName = "z3"
	}
	hs, err := e.harnesses(c.id, c.tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var sel []*Harness
	for _, h := range hs {
		if c.only == "" || h.Name == c.only {
			for _, kv := range strings.Split(c.sets, ",") {
				if k, v, ok := strings.Cut(kv, "="); ok {
					n, _ := strconv.Atoi(v)
					h.params[k] = n
				}
			}
			sel = append(sel, h)
		}
	}
	hs = sel
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness selected")
		return 2
	}
	var nat *Native
	if !c.noNative {
		nat = startNative(c.repo, work, overlay, hs, goflags, "")
	}
	known := c.loadKnown()
	total := &Stats{}
	var reports []*harnessReport
	var confirmed []*Violation
	var knownHit = map[string]bool{}
	unconfirmed := 0
	var samplesOut []any
	validated := 0
	// time available
	limit := 420 * time.Second
	if c.tier == "thorough" {
		limit = 40 * time.Minute
	}
	for i, h := range hs {
		ht0 := time.Now()
		b := time.Duration(h.params["budget"]) * time.Second
		if b == 0 {
			left := limit - time.Since(c.t0)
			if b = left / time.Duration(len(hs)-i); b < left/2 {
				b = left / 2
			}
			if b < 10*time.Second {
				b = 10 * time.Second
			}
		}
		if c.budget > 0 {
			b = time.Duration(c.budget) * time.Second
		}
		e.maxSamples = 40
		if v, ok := h.params["samples"]; ok {
			e.maxSamples = v
		}
		e.rand = uint64(c.seed)*7919 + 13
		e.maxPaths = h.params["maxpaths"]
		st := e.explore(h, b)
		total.add(st)
		r := &harnessReport{Name: h.Name, Params: h.params, Bounds: h.bounds, Paths: st.Paths, Pruned: st.Pruned, Infeas: st.Infeasible,
			Stopped: st.Stopped, Incon: st.Inconclusive, Forks: st.Forks, Merges: st.Merges + st.PureCalls, Trans: st.Transitions,
			Asserts: st.Asserts, AssertQ: st.AssertQueries, Queries: st.Queries, SatN: st.SatN, UnsatN: st.UnsatN, UnknownN: st.UnknownN,
			SolverS: st.Time.Seconds(), Cache: st.CacheHits, Domain: st.DomainDecided + st.RangeDecided, Confirmed: st.Confirmed, Steps: st.Steps, Reached: h.reached,
			Exhausted: !e.timedOut && !e.stopAll && st.Stopped == 0 && st.Inconclusive == 0 && st.UnknownN == 0}
		for _, n := range sortedKeys(e.notes) {
			r.Notes = append(r.Notes, fmt.Sprintf("%s (x%d)", n, e.notes[n]))
		}
		if e.timedOut {
			r.Notes = append(r.Notes, "time budget exhausted: the paths not explored are outside the bound of this run")
		}
		for _, w := range h.want {
			if h.reached[w] == 0 {
				r.Missing = append(r.Missing, w)
			}
		}
		// counterexamples: replay natively
		sortViol(e.violations)
		vt0 := time.Now()
		for _, v := range e.violations {
			if c.noNative {
				fmt.Printf("symbolic violation: %s %s: %s inputs=%v steps=%v%s\n", v.Harness, v.Kind, v.Msg, v.Inputs, v.Steps, v.Stack)
				continue
			}
			if time.Since(vt0) > 200*time.Second {
				break
			}
			reps := 1
			if v.MapDevs > 0 || v.Sched > 0 || h.opts["nondet"] != "" {
				reps = 400
			}
			if n := h.params["reps"]; n > 0 {
				reps = n
			}
			tmo := 4000
			if n := h.params["timeout"]; n > 0 {
				tmo = n
			}
			bin := nat
			if v.Kind == "race" {
				bin = nat.racing()
			}
			res := bin.run([]nativeReq{{Harness: h.Name, Inputs: v.Inputs, Params: h.params, Steps: v.Steps, Reps: reps, Seed: int64(c.seed), Timeout: tmo}}, 60*time.Second)
			v.Native = &res[0]
			if c.verbose {
				fmt.Printf("violation %s %s: %s inputs=%v steps=%v native=%s %s (runs %d)%s\n", v.Harness, v.Kind, v.Msg, v.Inputs, v.Steps, res[0].Outcome, first(res[0].Msg), res[0].Runs, v.Stack)
			}
			switch res[0].Outcome {
			case "assert", "panic", "deadlock", "race":
				if k := c.isKnown(known, v); k != "" {
					knownHit[k] = true
				} else {
					confirmed = append(confirmed, v)
				}
			default:
				unconfirmed++
				r.Unconf++
				r.Notes = append(r.Notes, fmt.Sprintf("counterexample not reproduced natively (%s %s): %s: %s inputs=%v", res[0].Outcome, first(res[0].Msg), v.Kind, v.Msg, v.Inputs))
			}
			if len(confirmed) >= 1 {
				break
			}
		}
		// validate a sample of the passing paths against the compiled code
		if !c.noNative && len(e.samples) > 0 && len(confirmed) == 0 {
			var reqs []nativeReq
			for _, s := range e.samples {
				reqs = append(reqs, nativeReq{Harness: h.Name, Inputs: s.Inputs, Params: h.params, Steps: s.Steps, Reps: 1, Seed: int64(c.seed), Timeout: 8000})
			}
			res := nat.run(reqs, 60*time.Second)
			for k, s := range e.samples {
				if len(r.Mismatch) >= 4 || len(confirmed) > 0 {
					break
				}
				ok := res[k].Outcome == "ok"
				if ok && !s.nondet && h.opts["nondet"] == "" && !sameObs(res[k].Obs, s.Obs) {
					ok = false
					res[k].Outcome = "different observations"
				}
				if ok {
					validated++
					r.Validated++
					continue
				}
				if res[k].Outcome == "error" {
					r.Notes = append(r.Notes, "native replay not possible: "+first(res[k].Msg))
					continue
				}
				switch res[k].Outcome {
				case "assert", "panic", "deadlock":
					// the compiled code violates the property on this input although the model did not
					v := &Violation{Harness: h.Name, Kind: res[k].Outcome, Msg: first(res[k].Msg), Inputs: s.Inputs, Steps: s.Steps, Params: h.params, Native: &res[k]}
					if kk := c.isKnown(known, v); kk != "" {
						knownHit[kk] = true
						continue
					}
					// confirm once more
					again := nat.run([]nativeReq{{Harness: h.Name, Inputs: s.Inputs, Params: h.params, Steps: s.Steps, Reps: 5, Seed: int64(c.seed), Timeout: 8000}}, 60*time.Second)
					if again[0].Outcome == res[k].Outcome {
						v.Native = &again[0]
						confirmed = append(confirmed, v)
					}
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v: %s %s", s.Inputs, res[k].Outcome, first(res[k].Msg)))
				default:
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v: %s: native %v, symbolic %v", s.Inputs, res[k].Outcome, res[k].Obs, s.Obs))
				}
			}
		}
		for k, s := range e.samples {
			if k < 3 {
				samplesOut = append(samplesOut, map[string]any{"harness": h.Name, "inputs": readable(s.Inputs), "observed": s.Obs, "events": s.Steps})
			}
		}
		r.Wall = time.Since(ht0).Seconds()
		reports = append(reports, r)
		if c.verbose || c.noNative {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		}
		if len(confirmed) > 0 {
			break
		}
	}
	// evidence
	var fns []string
	for f := range e.used {
		if g := strings.TrimPrefix(f, zzPath+"/program."); g == "main" {
			fns = append(fns, "main."+g)
		} else if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			fns = append(fns, shortName(f))
		}
	}
	sort.Strings(fns)
	nLib := 0
	for f := range e.used {
		if !strings.Contains(f, modPath) {
			nLib++
		}
	}
	exh := true
	vac := false
	var reduced []string
	for _, r := range reports {
		if !r.Exhausted {
			exh = false
			reduced = append(reduced, r.Name)
		}
		if len(r.Missing) > 0 || (r.Paths == 0 && len(confirmed) == 0) {
			vac = true
		}
	}
	ver := solverVersion(e.solverName)
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": total.Paths, "transitions": total.Forks + total.Transitions, "traces_validated_against_impl": validated,
			"samples": samplesOut, "exhaustive": exh,
			"states_meaning":            "completed symbolic paths (each covers every input satisfying its path condition)",
			"transitions_meaning":       "symbolic forks plus scheduler transitions taken",
			"functions_encoded":         fns,
			"library_functions_encoded": nLib,
			"harnesses":                 reports,
			"queries_discharged":        total.Queries,
			"solver_time_s":             total.Time.Seconds(),
			"solver":                    ver,
			"load_and_ssa_s":            loadT.Seconds(),
			"reduced_bound_harnesses":   reduced,
			"stubs":                     sortedKeys(e.stubs),
		},
		"assumptions": []string{
			"go/ssa (x/tools v0.52.0) represents the compiled program; checked on a sample of paths by running the compiled code on the same inputs",
			"values of inputs, counts and sizes are bounded as stated per harness; nothing is claimed outside the bounds",
			"goroutines interleave at channel operations, locks, waits and harness events (data-race freedom between them)",
		},
		"wall_s": time.Since(c.t0).Seconds(), "violations": len(confirmed),
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		if k.prop == c.id && knownHit[k.rest] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.rest)
		}
	}
	if forkProfile.on {
		printForkProfile()
	}
	fmt.Printf("%s %s: %d paths, %d forks, %d SMT queries (%.1fs), %d paths replayed natively, exhaustive=%v, %.1fs\n", c.id, c.tier, total.Paths, total.Forks, total.Queries, total.Time.Seconds(), validated, exh, time.Since(c.t0).Seconds())
	for _, r := range reports {
		for _, n := range r.Mismatch {
			fmt.Println("native mismatch:", r.Name, n)
		}
		for _, n := range r.Notes {
			fmt.Println("note:", r.Name+":", n)
		}
		for _, n := range r.Missing {
			fmt.Println("not reached:", r.Name, n)
		}
	}
	if len(confirmed) > 0 {
		os.MkdirAll(filepath.Join(c.verif, "evidence", "replay"), 0o755)
		p := filepath.Join(c.verif, "evidence", "replay", c.id+".json")
		b, _ := json.MarshalIndent(confirmed[0], "", " ")
		os.WriteFile(p, b, 0o644)
		v := confirmed[0]
		fmt.Printf("%s: %s: %s\n  inputs: %v\n  events: %v\n  native run: %s: %s\n", v.Harness, v.Kind, v.Msg, readable(v.Inputs), v.Steps, v.Native.Outcome, first(v.Native.Msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
		return 1
	}
	if vac && c.verbose {
		fmt.Println("warning: vacuous")
	}
	return 0
}

func readable(in map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range in {
		out[k] = v
		if s, ok := v.(string); ok && len(s)%2 == 0 && len(s) > 0 {
			if _, err := strconv.ParseInt(s, 10, 64); err == nil {
				continue
			}
			var b []byte
			if _, err := fmt.Sscanf(s, "%x", &b); err == nil {
				out[k] = fmt.Sprintf("%s (%q)", s, b)
			}
		}
	}
	return out
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *checker) loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		p, rest, _ := strings.Cut(l, " ")
		out = append(out, knownFinding{p, rest})
	}
	return out
}

// isKnown: a known finding is identified by the assertion text between [ and ].
func (c *checker) isKnown(known []knownFinding, v *Violation) string {
	for _, k := range known {
		if k.prop != c.id {
			continue
		}
		i, j := strings.IndexByte(k.rest, '['), strings.IndexByte(k.rest, ']')
		if i >= 0 && j > i {
			key := k.rest[i+1 : j]
			if strings.Contains(v.Msg, key) {
				return k.rest
			}
		}
	}
	return ""
}

func solverVersion(s string) string {
	return s
}

// copyProgram adds the sources of a main package to a harness package, which a harness could not import.
func copyProgram(repo, dir, name, work string, overlay map[string]string) error {
	files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if af.Name.Name != "main" {
			continue
		}
		at := fset.Position(af.Name.Pos()).Offset
		src = append(append(append([]byte{}, src[:at]...), name...), src[at+len("main"):]...)
		to := filepath.Join(work, "source_"+name+"_"+filepath.Base(f))
		if err := os.WriteFile(to, src, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, "internal/zzverif", name, "source_"+filepath.Base(f))] = to
	}
	return nil
}
