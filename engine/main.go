package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type HarnessCfg struct {
	H        string
	Params   map[string]int
	Quick    map[string]int
	Thorough map[string]int
	Tier     string // "thorough": skip in quick
	What     string
	Steps    int64
}

type PropCfg struct {
	Harnesses []HarnessCfg
	Bounds    string
	Outside   string
	Assume    []string
}

type Known struct {
	Property string
	Status   string // known, fixed
	Commit   string
	Harness  string
	Params   map[string]int
	Inputs   []uint64
	What     string
}

type hReport struct {
	Harness     string           `json:"harness"`
	What        string           `json:"what,omitempty"`
	Params      map[string]int   `json:"params,omitempty"`
	Complete    bool             `json:"all_paths_explored"`
	Stopped     string           `json:"stopped,omitempty"`
	Paths       int64            `json:"paths"`
	Infeasible  int64            `json:"infeasible_paths"`
	Branches    int64            `json:"branch_decisions"`
	Forks       int64            `json:"forks"`
	Queries     int64            `json:"solver_queries"`
	CacheHits   int64            `json:"query_cache_hits"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Asserts     int64            `json:"assertions_met"`
	AssertConc  int64            `json:"assertions_decided_by_folding"`
	Obligations int64            `json:"obligations_sent_to_solver"`
	Steps       int64            `json:"ssa_instructions_executed"`
	MaxPC       int64            `json:"max_path_constraints"`
	MaxVars     int64            `json:"max_symbolic_inputs"`
	CrossQ      int64            `json:"cross_checked_queries,omitempty"`
	CrossDiff   int64            `json:"cross_check_disagreements,omitempty"`
	Validated   int              `json:"paths_replayed_natively"`
	Mismatch    int              `json:"replay_mismatches"`
	Unconfirmed int              `json:"candidates_not_reproduced"`
	Violations  int              `json:"violations"`
	Aborted     map[string]int64 `json:"paths_not_encodable,omitempty"`
	Notes       []string         `json:"notes,omitempty"`
	Covers      []string         `json:"situations_reached,omitempty"`
	MismatchEx  []string         `json:"mismatch_examples,omitempty"`
	UnconfEx    []string         `json:"unreproduced_examples,omitempty"`
}

var verifDir = "/verif"

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func readJSON(p string, v any) error {
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Errorf("%s: %w", p, err)
	}
	return nil
}

func merge(ms ...map[string]int) map[string]int {
	r := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func main() {
	debug.SetMemoryLimit(10 << 30)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	dir := flag.String("verif", "/verif", "framework directory")
	only := flag.String("h", "", "run one harness (debugging)")
	trace := flag.Bool("trace", false, "")
	replay := flag.String("replay", "", "replay file")
	params := flag.String("p", "", "k=v,... (debugging)")
	solver := flag.String("solver", "z3-new", "z3-new, z3 or cvc5")
	budget := flag.Int("budget", 0, "seconds")
	nw := flag.Int("workers", runtime.NumCPU(), "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	verifDir = *dir
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	var cfg map[string]PropCfg
	if err := readJSON(filepath.Join(verifDir, "checks.json"), &cfg); err != nil && *only == "" {
		fatal("%v", err)
	}
	pc, ok := cfg[*prop]
	if *only != "" {
		pc = PropCfg{Harnesses: []HarnessCfg{{H: *only}}}
		for _, c := range cfg {
			for _, h := range c.Harnesses {
				if h.H == *only {
					pc.Harnesses = []HarnessCfg{h}
				}
			}
		}
		pc.Harnesses[0].Tier = ""
	} else if !ok {
		fatal("no such property %q", *prop)
	}
	extra := map[string]int{}
	if *params != "" {
		for _, kv := range strings.Split(*params, ",") {
			k, v, _ := strings.Cut(kv, "=")
			n := 0
			fmt.Sscan(v, &n)
			extra[k] = n
		}
	}
	os.Exit(runCheck(*prop, *tier, pc, extra, *solver, *budget, *nw, *trace, *verbose, *only != ""))
}

func goTool() string {
	if p, err := osexec.LookPath("go"); err == nil {
		return p
	}
	return "go"
}

// buildReplayer compiles the native harness driver against /repo's tree.
func buildReplayer(out string, flags ...string) error {
	c := osexec.Command(goTool(), append(append([]string{"build"}, flags...), "-o", out, "./cmd/replay")...)
	if len(flags) > 0 {
		c.Env = append(os.Environ(), "CGO_ENABLED=1")
	}
	c.Dir = filepath.Join(verifDir, "harness")
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the native harness: %v\n%s", err, b)
	}
	return nil
}

type replayFile struct {
	Property string
	Harness  string
	Params   map[string]int
	Inputs   []uint64
	Kind     string
	Message  string
	Native   string
	Site     string
	HowTo    string
}

func doReplay(f string) int {
	var rf replayFile
	if err := readJSON(f, &rf); err != nil {
		fatal("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	var flags []string
	if rf.Kind == "race" {
		flags = []string{"-race"}
	}
	if err := buildReplayer(bin, flags...); err != nil {
		fatal("%v", err)
	}
	r := &Replayer{bin: bin, race: rf.Kind == "race"}
	defer r.Close()
	for i := 0; i < 25; i++ {
		p := r.Run(repReq{rf.Harness, rf.Inputs, rf.Params}, 60*time.Second)
		if p.bad() || i == 24 {
			fmt.Printf("%s %s: %s\n", rf.Harness, p.Result, p.Msg)
			for _, o := range p.Obs {
				fmt.Println("  ", o)
			}
			if p.bad() {
				fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, f)
				return 1
			}
		}
	}
	return 0
}

func runCheck(prop, tier string, pc PropCfg, extra map[string]int, solver string, budget, nw int, trace, verbose, debug bool) int {
	t0 := time.Now()
	if budget == 0 {
		budget = 300
		if tier == "thorough" {
			budget = 3000
		}
	}
	final := t0.Add(time.Duration(budget) * time.Second)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); berr = buildReplayer(bin) }()

	opts := Options{Solver: solver, TimeoutMs: 10000, Workers: nw, StepLimit: 30_000_000, MaxDepth: 1500,
		AllocLimit: 64 << 20, MaxViol: 150, MaxSample: 150, Trace: trace}
	if tier == "thorough" {
		opts.Cross = "cvc5"
		opts.MaxSample = 1500
		opts.TimeoutMs = 60000
	}
	eng, err := loadEngine(filepath.Join(verifDir, "harness"), nil, opts)
	if err != nil {
		os.RemoveAll(tmp)
		fatal("%v", err)
	}
	loadS := time.Since(t0).Seconds()
	wg.Wait()
	if berr != nil {
		os.RemoveAll(tmp)
		fatal("%v", berr)
	}
	boot := newExplorer(eng, "init", nil)
	ws := make([]*W, nw)
	var werr atomic.Value
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w, err := eng.newWorker()
			if err != nil {
				werr.Store(err)
				return
			}
			w.ex = boot
			w.initAll()
			ws[i] = w
		}(i)
	}
	wg.Wait()
	if e := werr.Load(); e != nil {
		fatal("%v", e)
	}
	defer func() {
		for _, w := range ws {
			w.sol.Close()
			if w.cross != nil {
				w.cross.Close()
			}
		}
	}()
	var initNotes []string
	for k, v := range ws[0].initErr {
		initNotes = append(initNotes, k+": "+v)
	}
	sort.Strings(initNotes)

	// native replay runs in parallel
	var raceErr string
	var raceUsed bool
	pool := make(chan *Replayer, nw)
	for i := 0; i < nw; i++ {
		pool <- &Replayer{bin: bin}
	}
	defer func() {
		for i := 0; i < nw; i++ {
			(<-pool).Close()
		}
	}()
	// candidate races are tried on a build with the race detector, made when
	// the first one comes up
	raced := sync.OnceValue(func() *Replayer {
		out := filepath.Join(tmp, "replay-race")
		if err := buildReplayer(out, "-race"); err != nil {
			raceErr = err.Error()
			return nil
		}
		return &Replayer{bin: out, race: true}
	})
	var raceMu sync.Mutex
	defer func() {
		if raceUsed {
			if r := raced(); r != nil {
				r.Close()
			}
		}
	}()
	runRace := func(q repReq, to time.Duration) repResp {
		raceMu.Lock()
		defer raceMu.Unlock()
		raceUsed = true
		r := raced()
		if r == nil {
			return repResp{Result: "error", Msg: "no build with the race detector: " + raceErr}
		}
		var p repResp
		for i := 0; i < 6; i++ {
			if p = r.Run(q, to); p.bad() {
				break
			}
		}
		return p
	}
	runNative := func(q repReq, to time.Duration) repResp {
		r := <-pool
		defer func() { pool <- r }()
		p := r.Run(q, to)
		if p.Result == "crash" || p.Result == "hang" {
			// it has to repeat in a fresh process
			p = r.Run(q, 2*to)
		}
		return p
	}

	var hs []HarnessCfg
	for _, h := range pc.Harnesses {
		if h.Tier == "thorough" && tier == "quick" {
			continue
		}
		hs = append(hs, h)
	}
	var reports []*hReport
	var samples []any
	type confirmed struct {
		v      Violation
		native repResp
		params map[string]int
	}
	var conf []confirmed
	for hi, h := range hs {
		t1 := time.Now()
		p := merge(h.Params)
		if tier == "quick" {
			p = merge(p, h.Quick)
		} else {
			p = merge(p, h.Quick, h.Thorough)
		}
		p = merge(p, extra)
		eng.opts.Param = p
		if h.Steps > 0 {
			eng.opts.StepLimit = h.Steps
		} else {
			eng.opts.StepLimit = opts.StepLimit
		}
		rep := &hReport{Harness: h.H, What: h.What, Params: p}
		reports = append(reports, rep)
		fn := eng.stdFn("verif/harness/h", h.H)
		if fn == nil {
			fatal("no harness %s", h.H)
		}
		left := time.Until(final)
		if left < time.Second {
			rep.Stopped = "time budget of the check used up before this harness"
			continue
		}
		share := left * 2 / time.Duration(len(hs)-hi+1)
		if hi == len(hs)-1 || share > left {
			share = left
		}
		if len(conf) > 0 && share > 30*time.Second {
			share = 30 * time.Second
		}
		eng.opts.Deadline = t1.Add(share)
		ex := newExplorer(eng, h.H, fn)
		// candidates are tried on the compiled code as they come up: once some
		// reproduce, there is no need to go through the remaining paths
		over := make(chan bool)
		go func() {
			next, hits := 0, 0
			for hits < 3 {
				select {
				case <-over:
					return
				case <-time.After(300 * time.Millisecond):
				}
				ex.mu.Lock()
				var vs []Violation
				if n := len(ex.viols); n > next {
					vs = append(vs, ex.viols[next:min(n, next+4)]...)
				}
				ex.mu.Unlock()
				for _, v := range vs {
					next++
					run := runNative
					if v.Kind == "race" {
						run = runRace
					}
					if r := run(repReq{h.H, v.Inputs, p}, 30*time.Second); r.bad() {
						hits++
					}
				}
			}
			select {
			case <-over:
			case <-time.After(5 * time.Second):
				ex.halt("violations found and reproduced")
			}
		}()
		ex.Explore(ws)
		close(over)
		st := &ex.st
		rep.Complete = !ex.stop
		rep.Stopped = ex.stopWhy
		rep.Paths, rep.Infeasible, rep.Branches, rep.Forks = st.Paths.Load(), st.Infeasible.Load(), st.Branches.Load(), st.Forks.Load()
		rep.Queries, rep.CacheHits, rep.Unknown = st.Queries.Load(), st.CacheHit.Load(), st.Unknown.Load()
		rep.Sat, rep.Unsat, rep.SolverS = st.NSat.Load(), st.NUnsat.Load(), float64(st.SolverNs.Load())/1e9
		rep.Asserts, rep.AssertConc, rep.Obligations = st.Asserts.Load(), st.AssertConc.Load(), st.Obligations.Load()
		rep.Steps, rep.MaxPC, rep.MaxVars = st.Steps.Load(), st.MaxPC.Load(), st.MaxVars.Load()
		rep.CrossQ, rep.CrossDiff = st.CrossQ.Load(), st.CrossDiff.Load()
		st.Aborted.Range(func(k, v any) bool {
			if rep.Aborted == nil {
				rep.Aborted = map[string]int64{}
			}
			rep.Aborted[k.(string)] = v.(*atomic.Int64).Load()
			rep.Complete = false
			return true
		})
		st.Notes.Range(func(k, v any) bool { rep.Notes = append(rep.Notes, k.(string)); return true })
		sort.Strings(rep.Notes)
		st.Covers.Range(func(k, v any) bool { rep.Covers = append(rep.Covers, k.(string)); return true })
		sort.Strings(rep.Covers)

		// candidates must reproduce on the compiled code
		var mu sync.Mutex
		var nwg sync.WaitGroup
		confirmedMsg := map[string]int{}
		for _, v := range ex.viols {
			nwg.Add(1)
			go func(v Violation) {
				defer nwg.Done()
				key := v.Kind + v.Msg
				mu.Lock()
				n := confirmedMsg[key]
				mu.Unlock()
				if n >= 3 {
					return
				}
				var r repResp
				for i := 0; i < 25; i++ {
					if v.Kind == "race" {
						r = runRace(repReq{h.H, v.Inputs, p}, 30*time.Second)
						break
					}
					r = runNative(repReq{h.H, v.Inputs, p}, 30*time.Second)
					if r.Result != "ok" {
						break
					}
				}
				mu.Lock()
				defer mu.Unlock()
				if r.bad() {
					confirmedMsg[key]++
					conf = append(conf, confirmed{v, r, p})
					rep.Violations++
				} else {
					rep.Unconfirmed++
					if len(rep.UnconfEx) < 5 {
						rep.UnconfEx = append(rep.UnconfEx, fmt.Sprintf("%s: %s at %s (native: %s) %v", v.Kind, v.Msg, v.Site, r.Result, v.Inputs))
					}
				}
			}(v)
		}
		nwg.Wait()
		// translation validation: predicted observations against the real ones
		check := func(s PathSample, aborted bool) {
			defer nwg.Done()
			r := runNative(repReq{h.H, s.Inputs, p}, 30*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if r.bad() {
				if len(conf) < 20 {
					conf = append(conf, confirmed{Violation{Harness: h.H, Kind: "native", Msg: r.Msg, Inputs: s.Inputs, Site: "native run of a solver-generated path input"}, r, p})
				}
				rep.Violations++
				return
			}
			if aborted || len(rep.Notes) > 0 && strings.Contains(strings.Join(rep.Notes, " "), "map iteration") {
				return
			}
			rep.Validated++
			if r.Result != "ok" || strings.Join(r.Obs, "|") != strings.Join(s.Obs, "|") {
				rep.Mismatch++
				if len(rep.MismatchEx) < 3 {
					rep.MismatchEx = append(rep.MismatchEx, cut(fmt.Sprintf("inputs %v: engine %v, native %s %v %s", s.Inputs, s.Obs, r.Result, r.Obs, r.Msg), 1200))
				}
			}
		}
		for _, s := range ex.samples {
			nwg.Add(1)
			go check(s, false)
		}
		for _, s := range ex.aborted {
			nwg.Add(1)
			go check(s, true)
		}
		nwg.Wait()
		for i, s := range ex.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.H, "inputs": cutU(s.Inputs), "observed": cutS(s.Obs)})
			}
		}
		rep.WallS = time.Since(t1).Seconds()
		if verbose || debug {
			b, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(b))
		}
	}

	// known findings of this property: shown while they still reproduce
	var known []Known
	if err := readJSON(filepath.Join(verifDir, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fatal("%v", err)
	}
	nKnown := 0
	for _, k := range known {
		if k.Property != prop || k.Status != "known" {
			continue
		}
		if r := runNative(repReq{k.Harness, k.Inputs, k.Params}, 60*time.Second); r.bad() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			nKnown++
		}
	}

	code := 0
	if len(conf) > 0 {
		code = 1
		rd := filepath.Join(verifDir, "evidence", "replays")
		os.MkdirAll(rd, 0o755)
		seen := map[string]int{}
		n := 0
		for _, c := range conf {
			k := c.v.Harness + c.v.Msg
			if seen[k]++; seen[k] > 1 {
				continue
			}
			n++
			if n > 8 {
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", nonEmpty(prop, c.v.Harness), n))
			rf := replayFile{Property: prop, Harness: c.v.Harness, Params: c.params, Inputs: c.v.Inputs, Kind: c.v.Kind,
				Message: c.v.Msg, Native: c.native.Result + ": " + c.native.Msg, Site: c.v.Site,
				HowTo: "bin/engine -verif " + verifDir + " -replay " + f}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("%s: %s [%s] native: %s %s\n", c.v.Harness, c.v.Msg, c.v.Kind, c.native.Result, cut(c.native.Msg, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		}
	}
	if prop != "" {
		writeEvidence(prop, tier, seed, pc, eng, reports, samples, initNotes, loadS, time.Since(t0).Seconds(), len(conf), nKnown, opts)
		var paths, q int64
		var sol float64
		incomplete := []string{}
		for _, r := range reports {
			paths += r.Paths
			q += r.Queries
			sol += r.SolverS
			if !r.Complete {
				incomplete = append(incomplete, r.Harness)
			}
		}
		fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries, %.1fs solver, %.1fs wall, violations %d", prop, tier, len(reports), paths, q, sol, time.Since(t0).Seconds(), len(conf))
		if len(incomplete) > 0 {
			fmt.Printf(", not exhausted: %s", strings.Join(incomplete, " "))
		}
		fmt.Println()
	}
	return code
}

func nonEmpty(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func cutU(u []uint64) []uint64 {
	if len(u) > 200 {
		return u[:200]
	}
	return u
}
func cutS(s []string) []string {
	r := []string{}
	for i, x := range s {
		if i < 6 {
			r = append(r, cut(x, 400))
		}
	}
	return r
}

func writeEvidence(prop, tier string, seed int, pc PropCfg, eng *Engine, reports []*hReport, samples []any, initNotes []string, loadS, wall float64, nviol, nknown int, opts Options) {
	type fcov struct {
		Name   string `json:"fn"`
		Calls  int64  `json:"calls"`
		Blocks int    `json:"blocks"`
		Hit    int    `json:"blocks_executed"`
	}
	var repo []fcov
	deps := map[string]int{}
	eng.fns.Range(func(k, v any) bool {
		f := v.(*Fn)
		c := f.calls.Load()
		if c == 0 {
			return true
		}
		if f.pkgPath == repoPath {
			x := fcov{Name: strings.ReplaceAll(f.name, repoPath, "ipldgit"), Calls: c, Blocks: len(f.blocks)}
			for _, b := range f.blocks {
				if b.hits.Load() > 0 {
					x.Hit++
				}
			}
			repo = append(repo, x)
		} else if f.pkgPath != "" && !strings.HasPrefix(f.pkgPath, "verif/") {
			deps[f.pkgPath]++
		}
		return true
	})
	sort.Slice(repo, func(i, j int) bool { return repo[i].Name < repo[j].Name })
	var states, trans, q, sat, unsat, unk, obl, steps int64
	var sol float64
	val, mism, unconf := 0, 0, 0
	complete := true
	for _, r := range reports {
		states += r.Paths
		trans += r.Branches
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		obl += r.Obligations
		steps += r.Steps
		sol += r.SolverS
		val += r.Validated
		mism += r.Mismatch
		unconf += r.Unconfirmed
		if !r.Complete || r.Unknown > 0 {
			complete = false
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"states_are":                         "feasible symbolic paths, each standing for every input that satisfies its path condition",
			"transitions_are":                    "symbolic branch decisions taken along those paths",
			"exhaustive":                         complete,
			"exhaustive_means":                   "every path of every harness within the stated bounds was explored and every assertion on it decided",
			"solver":                             opts.Solver,
			"cross_check_solver":                 opts.Cross,
			"queries_discharged":                 q,
			"queries_sat":                        sat,
			"queries_unsat":                      unsat,
			"queries_unknown":                    unk,
			"assertion_obligations":              obl,
			"solver_time_s":                      sol,
			"ssa_instructions_executed":          steps,
			"replay_mismatches":                  mism,
			"candidates_not_reproduced":          unconf,
			"known_findings_shown":               nknown,
			"functions_encoded":                  repo,
			"dependency_functions_encoded":       deps,
			"encoding":                           "go/ssa built from /repo's working tree on this run (" + fmt.Sprintf("%.1f", loadS) + " s), executed symbolically from the exported API down through all dependencies",
			"bounds":                             pc.Bounds,
			"outside_bounds":                     pc.Outside,
			"harnesses":                          reports,
			"package_initialisers_not_fully_run": initNotes,
		},
		"assumptions": append([]string{
			"string and slice lengths are concrete on each path and enumerated by the harness; contents are symbolic",
			"modelled rather than executed: internal/bytealg assembly, sync and sync/atomic, fmt.Errorf text, fmt.Print*, errors.As, reflect type names",
			"goroutines started by the code would be run at their go statement (one schedule)",
		}, pc.Assume...),
		"wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir, "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}
