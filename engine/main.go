package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gocraft/health"

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// group is one harness package.
type group struct {
	name      string
	funcs     []string
	overlay   map[string]string
	scratch   string
	ovFile    string
	prog      *ssa.Program
	pkg       *ssa.Package
	eager     []*ssa.Package
	loadErr   string
	alt       int // which alternative of the hooks is used
	lastAlt   int
	bin       string
	binErr    string
	raceBin   string
	raceErr   string
	raceOnce  sync.Once
	shakeBin  string
	shakeOnce sync.Once
	binWait   sync.WaitGroup
}

var fnRe = regexp.MustCompile(`(?m)^func (C\d+_\w+)\(\)`)

// findGroups lists the harness packages holding harnesses of the property.
func findGroups(prop string) []*group {
	var r []*group
	ents, _ := os.ReadDir(filepath.Join(verifDir, "harness"))
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		g := &group{name: e.Name()}
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", e.Name(), "*.go"))
		sort.Strings(files)
		for _, f := range files {
			b, _ := os.ReadFile(f)
			for _, m := range fnRe.FindAllStringSubmatch(string(b), -1) {
				if strings.HasPrefix(m[1], prop+"_") {
					g.funcs = append(g.funcs, m[1])
				}
			}
		}
		if len(g.funcs) > 0 {
			r = append(r, g)
		}
	}
	return r
}

// prepare writes the overlay that puts the harnesses into the module.
func (g *group) prepare(scratch string) error {
	g.scratch = scratch
	g.overlay = map[string]string{}
	h := filepath.Join(verifDir, "harness")
	put := func(dst, src string) { g.overlay[filepath.Join(repoDir, dst)] = src }
	gm, err := os.ReadFile(filepath.Join(h, "mod", "go.mod.txt"))
	if err != nil {
		return err
	}
	txt := string(gm)
	stubs, _ := os.ReadDir(filepath.Join(h, "stubs"))
	if _, err := os.Stat(filepath.Join(h, g.name, "STUBS")); err == nil {
		for _, s := range stubs {
			// stubs/<owner>@<name>
			p := "github.com/" + strings.Replace(s.Name(), "@", "/", 1)
			txt += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", p, p, filepath.Join(h, "stubs", s.Name()))
		}
	}
	mf := filepath.Join(scratch, "go.mod.txt")
	os.WriteFile(mf, []byte(txt), 0o644)
	put("go.mod", mf)
	put("go.sum", filepath.Join(h, "mod", "go.sum.txt"))
	for _, d := range []string{"zz", g.name} {
		files, _ := filepath.Glob(filepath.Join(h, d, "*.go"))
		for _, f := range files {
			put("zzverif/"+d+"/"+filepath.Base(f), f)
		}
	}
	if b, err := os.ReadFile(filepath.Join(h, g.name, "HOOKS")); err == nil {
		for _, l := range strings.Fields(string(b)) {
			// hook file -> package directory
			k, v, _ := strings.Cut(l, ":")
			// alternatives for when the first does not compile any more
			alts := strings.Split(k, "|")
			if n := len(alts) - 1; n > g.lastAlt {
				g.lastAlt = n
			}
			k = alts[min(g.alt, len(alts)-1)]
			put(filepath.Join(v, "zzverif_"+strings.TrimSuffix(filepath.Base(k), ".txt")), filepath.Join(h, k))
		}
	}
	if b, err := os.ReadFile(filepath.Join(h, g.name, "COMMANDS")); err == nil {
		// commands cannot be imported: copies of their files, with another package name
		for _, l := range strings.Fields(string(b)) {
			dir, name, _ := strings.Cut(l, ":")
			files, _ := filepath.Glob(filepath.Join(repoDir, dir, "*.go"))
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := os.ReadFile(f)
				if err != nil {
					return err
				}
				cp := filepath.Join(scratch, name+"_"+filepath.Base(f))
				os.WriteFile(cp, renamePackage(src, name), 0o644)
				put(filepath.Join(dir, "zz"+name, filepath.Base(f)), cp)
			}
			hook := filepath.Join(scratch, name+"_zzhook.go")
			os.WriteFile(hook, []byte("package "+name+"\n\nfunc ZZMain() { main() }\n"), 0o644)
			put(filepath.Join(dir, "zz"+name, "zzhook.go"), hook)
		}
	}
	// the native driver
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\t\"testing/synctest\"\n\t\"os\"\n\n\t\"%s/zzverif/zz\"\n)\n\nvar zzAll = map[string]func(){\n", g.name, modPath)
	for _, f := range g.funcs {
		fmt.Fprintf(&b, "\t%q: %s,\n", f, f)
	}
	b.WriteString("}\n\nfunc TestZZ(t *testing.T) {\n\tf := zzAll[zz.Load()]\n\tif f == nil {\n\t\tos.Exit(77)\n\t}\n\tsynctest.Test(t, func(t *testing.T) {\n\t\tzz.Start()\n\t\tf()\n\t\tzz.Done()\n\t})\n}\n")
	tf := filepath.Join(scratch, "zz_main_test.go")
	os.WriteFile(tf, []byte(b.String()), 0o644)
	put("zzverif/"+g.name+"/zz_main_test.go", tf)
	g.ovFile = filepath.Join(scratch, "overlay.json")
	return writeOverlay(g.ovFile, g.overlay)
}

func writeOverlay(f string, m map[string]string) error {
	j, _ := json.Marshal(map[string]any{"Replace": m})
	return os.WriteFile(f, j, 0o644)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GODEBUG=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod -buildvcs=false")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

const noInline = "-gcflags=github.com/gocraft/health/...=-l"

func (g *group) build(ov, bin string, extra ...string) string {
	args := append([]string{"test", "-c", "-vet=off", "-overlay", ov, noInline, "-o", bin}, extra...)
	args = append(args, "./zzverif/"+g.name)
	c := exec.Command("go", args...)
	c.Dir = repoDir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Sprintf("%v: %s", err, out)
	}
	return ""
}

// startBuild builds the native replay program in the background.
func (g *group) startBuild() {
	g.binWait.Add(1)
	go func() {
		defer g.binWait.Done()
		g.binErr = g.build(g.nativeOverlay(false), g.bin)
	}()
}

func (g *group) load() {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     goEnv(),
		Overlay: map[string][]byte{},
	}
	for k, v := range g.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			g.loadErr = err.Error()
			return
		}
		cfg.Overlay[k] = b
	}
	pk, err := packages.Load(cfg, "./zzverif/"+g.name)
	if err != nil {
		g.loadErr = err.Error()
		return
	}
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if g.loadErr == "" && (strings.HasPrefix(p.PkgPath, modPath) || len(p.Syntax) == 0) {
				g.loadErr = e.Error()
			}
		}
	})
	if g.loadErr != "" {
		return
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	g.prog, g.pkg = prog, ps[0]
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			g.eager = append(g.eager, p)
		}
	}
	sort.Slice(g.eager, func(i, j int) bool { return g.eager[i].Pkg.Path() < g.eager[j].Pkg.Path() })
}

type harnessReport struct {
	Harness    string            `json:"harness"`
	Complete   bool              `json:"complete_within_bounds"`
	Paths      int64             `json:"paths"`
	Infeasible int64             `json:"paths_pruned"`
	SchedPaths int64             `json:"paths_with_scheduling_choices"`
	MaxGs      int               `json:"max_goroutines"`
	Steps      int64             `json:"instructions_executed_symbolically"`
	Decisions  int64             `json:"decisions"`
	Merges     int64             `json:"branches_merged"`
	Asserts    int64             `json:"assertions_checked"`
	Proved     int64             `json:"assertions_discharged_by_solver"`
	Trivial    int64             `json:"assertions_decided_by_simplification"`
	Queries    int64             `json:"solver_queries"`
	Unknown    int64             `json:"solver_unknown"`
	SolverS    float64           `json:"solver_seconds"`
	SlowestS   float64           `json:"slowest_query_seconds"`
	WallS      float64           `json:"wall_s"`
	Bounds     map[string]string `json:"bounds"`
	Reached    map[string]int64  `json:"reached"`
	Incomplete map[string]int64  `json:"not_covered,omitempty"`
	Unconf     []*Cand           `json:"unconfirmed_candidates,omitempty"`
	Replayed   int               `json:"samples_replayed_on_compiled_code"`
	Mismatch   []string          `json:"replay_mismatches,omitempty"`
	ReplayOnly int               `json:"samples_schedule_dependent"`
	funcs      map[string]bool
	samples    []*Sample
	viol       *Cand
}

func (g *group) newShared(name string) *Shared {
	sh := &Shared{prog: g.prog, harness: name, eager: g.eager, pkgs: map[string]*ssa.Package{}}
	for _, p := range g.prog.AllPackages() {
		sh.pkgs[p.Pkg.Path()] = p
	}
	sh.entry = g.pkg.Func(name)
	if rt := g.prog.ImportedPackage("runtime"); rt != nil {
		if t := rt.Type("errorString"); t != nil {
			sh.rtErrT = t.Type()
		}
		if t := rt.Type("plainError"); t != nil {
			sh.plainErrT = t.Type()
		}
		if t := rt.Type("PanicNilError"); t != nil {
			sh.panicNilT = t.Type()
		}
	}
	return sh
}

func (g *group) explore(name string, budget time.Duration, thorough bool, seed int64, nw, nsamp int) *harnessReport {
	t0 := time.Now()
	sh := g.newShared(name)
	sh.maxPaths = 3000000
	sh.maxSteps = 30000000
	sh.concLimit = 300
	sh.tmoMs = 20000
	sh.thorough = thorough
	sh.deadline = t0.Add(budget)
	sh.nSamples = nsamp
	sh.rnd = rand.New(rand.NewSource(seed))
	sh.confirm = g.confirm
	sh.explore(nw)
	r := &harnessReport{Harness: name, Paths: sh.paths, Infeasible: sh.pruned, SchedPaths: sh.schedPaths, MaxGs: sh.maxGs, Steps: sh.steps, Decisions: sh.decisions,
		Merges: sh.merges, Asserts: sh.asserts, Proved: sh.proved, Trivial: sh.trivial, Queries: sh.stats.queries, Unknown: sh.stats.unknown,
		SolverS: float64(sh.stats.nanos) / 1e9, SlowestS: float64(sh.stats.slowest) / 1e9,
		Bounds: sh.bounds, Reached: sh.reached, Incomplete: sh.incomplete, Unconf: sh.unconf, funcs: sh.funcs, samples: sh.samples, viol: sh.violation}
	r.Complete = len(sh.incomplete) == 0 && sh.violation == nil && len(sh.unconf) == 0
	if sh.violation == nil {
		g.replaySamples(r)
	}
	r.WallS = time.Since(t0).Seconds()
	return r
}

// runNative replays one case on the compiled code.
func (g *group) runNative(bin string, inputs, choices map[string]uint64, harness string, procs int, tmo time.Duration) (status, text string) {
	d, err := os.MkdirTemp(g.scratch, "case")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(d)
	j, _ := json.Marshal(map[string]any{"harness": harness, "inputs": inputs, "choices": choices})
	cf, of := filepath.Join(d, "case.json"), filepath.Join(d, "out")
	os.WriteFile(cf, j, 0o644)
	c := exec.Command(bin, "-test.run=TestZZ", "-test.timeout=0")
	c.Dir = d
	c.Env = append(os.Environ(), "GOSYM_CASE="+cf, "GOSYM_OUT="+of, "GORACE=exitcode=66 halt_on_error=1", "GOTRACEBACK=single", fmt.Sprintf("GOMAXPROCS=%d", procs))
	if thoroughRun {
		c.Env = append(c.Env, "GOSYM_THOROUGH=1")
	}
	var sb lockedBuf
	c.Stdout, c.Stderr = &sb, &sb
	if err := c.Start(); err != nil {
		return "error", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(tmo):
		c.Process.Kill()
		<-done
		return "timeout", sb.String()
	}
	b, _ := os.ReadFile(of)
	o := string(b)
	switch {
	case strings.Contains(o, "ASSERT-FAIL"):
		return "assert", o
	case strings.Contains(o, "ASSUME-FAIL"):
		return "assume", o
	case strings.HasSuffix(o, "DONE\n") && (err == nil):
		return "ok", o
	}
	s := sb.String()
	if c.ProcessState.ExitCode() == 77 {
		return "error", "harness missing"
	}
	if strings.Contains(s, "DATA RACE") {
		return "race", s
	}
	if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		return "panic", s
	}
	return "error", s
}

type lockedBuf struct {
	mu sync.Mutex
	b  strings.Builder
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var thoroughRun bool

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// confirm replays a candidate on the compiled code.
func (g *group) confirm(c *Cand) (bool, string) {
	g.binWait.Wait()
	if g.binErr != "" {
		return false, "native build failed: " + g.binErr
	}
	last := ""
	try := func(bin string, n int, kinds string) (bool, string) {
		type res struct{ st, out string }
		ch := make(chan res, n)
		sem := make(chan struct{}, 8)
		stop := make(chan struct{})
		var once sync.Once
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				select {
				case sem <- struct{}{}:
				case <-stop:
					return
				}
				defer func() { <-sem }()
				select {
				case <-stop:
					return
				default:
				}
				procs := []int{4, 1, 2, 8}[i%4]
				st, out := g.runNative(bin, c.Inputs, c.Choices, c.Harness, procs, 30*time.Second)
				if strings.Contains(kinds, st) {
					once.Do(func() { close(stop) })
				}
				ch <- res{st, out}
			}(i)
		}
		wg.Wait()
		close(ch)
		for r := range ch {
			last = r.st + ": " + clip(r.out, 3000)
			if strings.Contains(kinds, r.st) {
				return true, r.st + ": " + clip(r.out, 6000)
			}
		}
		return false, ""
	}
	kinds := "assert panic race"
	if c.Kind == "deadlock" {
		kinds += " timeout"
	}
	if c.Kind == "race" {
		g.raceOnce.Do(func() {
			g.raceBin = filepath.Join(g.scratch, "race.test")
			g.raceErr = g.build(g.nativeOverlay(false), g.raceBin, "-race")
		})
		if g.raceErr != "" {
			return false, "race build failed: " + g.raceErr
		}
		if ok, out := try(g.raceBin, 24, "race"); ok {
			return true, out
		}
		return false, last
	}
	n := 6
	if c.Sched {
		n = 60
	}
	if ok, out := try(g.bin, n, kinds); ok {
		return true, out
	}
	if c.Sched {
		g.shakeOnce.Do(func() { g.shakeBin = g.buildShake() })
		if g.shakeBin != "" {
			if ok, out := try(g.shakeBin, 600, kinds); ok {
				return true, out
			}
		}
	}
	return false, last
}

func (g *group) replaySamples(r *harnessReport) {
	g.binWait.Wait()
	if g.binErr != "" {
		r.Mismatch = append(r.Mismatch, "native build failed: "+clip(g.binErr, 600))
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, s := range r.samples {
		if s == nil {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(s *Sample) {
			defer wg.Done()
			defer func() { <-sem }()
			st, out := g.runNative(g.bin, s.Inputs, s.Choices, r.Harness, 4, 60*time.Second)
			var got []string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "OBS ") {
					got = append(got, l[4:])
				}
			}
			mu.Lock()
			defer mu.Unlock()
			r.Replayed++
			if s.Sched {
				r.ReplayOnly++
			}
			if st != "ok" {
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v %v: native run ended with %s: %s", s.Inputs, s.Choices, st, clip(out, 1500)))
				return
			}
			if s.Sched {
				return
			}
			if strings.Join(got, "\n") != strings.Join(s.Obs, "\n") {
				for i := range s.Obs {
					if i >= len(got) || got[i] != s.Obs[i] {
						gg := "(nothing)"
						if i < len(got) {
							gg = got[i]
						}
						r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v %v: engine %s, compiled code %s", s.Inputs, s.Choices, clip(s.Obs[i], 300), clip(gg, 300)))
						return
					}
				}
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v: more observations on the compiled code", s.Inputs))
			}
		}(s)
	}
	wg.Wait()
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdReplay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var c Cand
	json.Unmarshal(b, &c)
	prop, _, _ := strings.Cut(c.Harness, "_")
	scratch, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(scratch)
	for _, g := range findGroups(prop) {
		for _, f := range g.funcs {
			if f == c.Harness {
				g.prepare(scratch)
				g.bin = filepath.Join(scratch, "native.test")
				g.binErr = g.build(g.nativeOverlay(false), g.bin)
				ok, out := g.confirm(&c)
				fmt.Println("reproduced:", ok)
				fmt.Println(out)
				return
			}
		}
	}
	fmt.Println("harness not found:", c.Harness)
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := fs.String("only", "", "one harness")
	budget := fs.Float64("budget", 0, "seconds")
	nw := fs.Int("workers", runtime.NumCPU(), "workers")
	nsamp := fs.Int("samples", 16, "samples per harness")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	thoroughRun = *tier == "thorough"
	t0 := time.Now()
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if *budget == 0 {
		*budget = 200
		if thoroughRun {
			*budget = 720
		}
	}
	groups := findGroups(*prop)
	var reps []*harnessReport
	var problems []string
	if len(groups) == 0 {
		problems = append(problems, "no harness found")
	}
	scratchRoot, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratchRoot)
	total := 0
	for i, g := range groups {
		d := filepath.Join(scratchRoot, fmt.Sprint(i))
		os.MkdirAll(d, 0o755)
		if err := g.prepare(d); err != nil {
			problems = append(problems, err.Error())
			continue
		}
		g.bin = filepath.Join(d, "native.test")
		g.startBuild()
		total += len(g.funcs)
	}
	deadline := t0.Add(time.Duration(*budget * float64(time.Second)))
	left := total
	var viol *Cand
	encoded := map[string]bool{}
outer:
	for _, g := range groups {
		tl := time.Now()
		g.load()
		for g.loadErr != "" && g.alt < g.lastAlt {
			g.binWait.Wait()
			g.alt++
			g.loadErr = ""
			if err := g.prepare(g.scratch); err != nil {
				g.loadErr = err.Error()
				break
			}
			g.startBuild()
			g.load()
		}
		if g.alt > 0 {
			problems = append(problems, fmt.Sprintf("hooks of harness package %s replaced by alternative %d", g.name, g.alt))
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "load %s: %.1fs\n", g.name, time.Since(tl).Seconds())
		}
		if g.loadErr != "" {
			problems = append(problems, "cannot load harness package "+g.name+": "+clip(g.loadErr, 500))
			g.binWait.Wait()
			continue
		}
		var again []int // reports of harnesses that ran out of time
		for _, f := range g.funcs {
			if *only != "" && f != *only {
				left--
				continue
			}
			b := time.Until(deadline)
			if left > 1 {
				b = time.Duration(float64(b) * 1.6 / (float64(left) + 0.6))
			}
			if b < 5*time.Second {
				b = 5 * time.Second
			}
			left--
			r := g.explore(f, b, thoroughRun, seed, *nw, *nsamp)
			if r.viol == nil && r.Incomplete["time budget reached"] > 0 {
				again = append(again, len(reps))
			}
			reps = append(reps, r)
			for k := range r.funcs {
				encoded[k] = true
			}
			if *verbose {
				j, _ := json.MarshalIndent(r, "", " ")
				fmt.Fprintln(os.Stderr, string(j))
			} else {
				fmt.Printf("%s: %d paths, %d assertions, %d solver queries (%.1f s), %.1f s, complete=%v\n", f, r.Paths, r.Asserts, r.Queries, r.SolverS, r.WallS, r.Complete)
			}
			if r.viol != nil {
				viol = r.viol
				break outer
			}
		}
		// what the other harnesses left of the time
		for k, i := range again {
			b := time.Duration(float64(time.Until(deadline)) / float64(left+len(again)-k))
			if b.Seconds() < 1.3*reps[i].WallS {
				continue
			}
			r := g.explore(reps[i].Harness, b, thoroughRun, seed, *nw, *nsamp)
			reps[i] = r
			for k := range r.funcs {
				encoded[k] = true
			}
			fmt.Printf("%s (again): %d paths, %d assertions, %d solver queries (%.1f s), %.1f s, complete=%v\n", r.Harness, r.Paths, r.Asserts, r.Queries, r.SolverS, r.WallS, r.Complete)
			if r.viol != nil {
				viol = r.viol
				break outer
			}
		}
		g.prog, g.pkg, g.eager = nil, nil, nil
	}
	for _, g := range groups {
		g.binWait.Wait()
	}
	writeEvidence(*prop, *tier, seed, reps, encoded, problems, viol, time.Since(t0))
	for _, p := range problems {
		fmt.Println("NOTE:", p)
	}
	for _, r := range reps {
		for k, n := range r.Incomplete {
			fmt.Printf("NOTE: %s: not covered: %s (%d)\n", r.Harness, clip(k, 300), n)
		}
		for _, m := range r.Mismatch {
			fmt.Printf("NOTE: %s: encoding and compiled code differ: %s\n", r.Harness, clip(m, 600))
		}
		for _, c := range r.Unconf {
			fmt.Printf("NOTE: %s: candidate not reproduced on the compiled code: %s %s\n", r.Harness, c.Kind, clip(c.Msg, 300))
		}
	}
	if viol != nil {
		p := filepath.Join(verifDir, "evidence", "replay-"+*prop+".json")
		j, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(p, j, 0o644)
		fmt.Printf("harness %s: %s: %s\n", viol.Harness, viol.Kind, clip(viol.Msg, 600))
		fmt.Printf("inputs %s\n", showCase(viol))
		fmt.Println(clip(viol.Native, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		os.RemoveAll(scratchRoot)
		os.Exit(1)
	}
}

func showCase(c *Cand) string {
	a, _ := json.Marshal(c.Inputs)
	b, _ := json.Marshal(c.Choices)
	return clip(string(a)+" choices "+string(b), 1500)
}
