package main

// gover check -prop Cxx -tier quick|thorough: the check of one property.
//
// 1. every function whose contract carries the property's tag is verified
//    against its contract, from the current source in -repo;
// 2. so is every function whose contract those proofs rely on;
// 3. the replay harness runs the real code: on the solver's counterexample
//    values where there are any, on a fixed small budget otherwise.
//
// What each combination means is decided in verdict().

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// obligation kinds that a caller relies on
var depKinds = map[string]bool{"post": true, "frame": true, "nopanic": true, "panic": true, "requires": true, "alias": true, "index": true, "typeinv": true, "pool": true, "io": true}

type harnessOut struct {
	Ran      bool     `json:"ran"`
	Evals    int      `json:"evaluations"`
	Distinct int      `json:"distinct"`
	Rule     string   `json:"rule"`
	Samples  []string `json:"samples"`
	Fail     string   `json:"fail"`
	Input    string   `json:"input"`
	Err      string   `json:"err"`
	Cmd      string   `json:"cmd"`
	Out      string   `json:"output"`
}

func (c *Contract) tagSet() map[string]bool {
	m := map[string]bool{}
	add := func(ts []string) {
		for _, t := range ts {
			m[t] = true
		}
	}
	for _, ts := range c.kinds {
		add(ts)
	}
	add(c.frame)
	cls := func(l []*Clause) {
		for _, q := range l {
			add(q.tags)
		}
	}
	if c.always != nil {
		cls(c.always.cls)
	}
	for _, k := range c.cases {
		cls(k.cls)
	}
	cls(c.io)
	cls(c.panics)
	for _, ts := range c.alias {
		_ = ts
	}
	return m
}

func hasTag(ts []string, t string) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("verif", "/verif", "")
	par := fs.Int("j", runtime.NumCPU(), "")
	noh := fs.Bool("noharness", false, "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	k := &checker{prop: *prop, tier: *tier, repo: *repo, root: *root, seed: seed, par: *par, t0: t0}
	if !*noh {
		k.startHarness(nil, k.baseBudget())
	}
	k.prove()
	return k.verdict()
}

type checker struct {
	prop, tier, repo, root string
	seed, par              int
	t0                     time.Time
	p                      *Prog
	loadErr                string
	prim                   []string // functions whose contracts state the property
	res                    map[string]*FnResult
	order                  []string
	deleg                  map[string]string // function -> property whose check discharges its contract
	hch                    chan *harnessOut
	lemErr                 string
}

func (k *checker) baseBudget() time.Duration {
	if k.tier == "thorough" {
		return 90 * time.Second
	}
	return 6 * time.Second
}

func (k *checker) prove() {
	p, err := Load(k.repo, filepath.Join(k.root, "contracts"))
	if err != nil {
		k.loadErr = err.Error()
		return
	}
	k.p = p
	opt := &Options{Solver: "z3-new", TimeoutMs: 20000, Budget: 400 * time.Second, Deadline: k.t0.Add(660 * time.Second)}
	if k.tier == "thorough" {
		opt.TimeoutMs, opt.Budget, opt.Cross, opt.Deadline = 60000, 1800*time.Second, true, time.Time{}
	}
	for _, n := range p.spec.order {
		c := p.spec.cons[n]
		if c.kind == "func" && !c.assume && !c.inline && c.tagSet()[k.prop] {
			k.prim = append(k.prim, n)
		}
	}
	k.res = map[string]*FnResult{}
	k.deleg = map[string]string{}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, k.par)
	var start func(n string)
	start = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := p.Verify(p.spec.cons[n], opt)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			k.res[n] = r
			for _, u := range r.Used {
				if c := p.spec.cons[u]; c != nil && c.kind == "func" && !c.assume && !c.inline {
					if d := c.kinds["delegate"]; len(d) > 0 && !c.tagSet()[k.prop] {
						k.deleg[u] = d[0] // its contract is what that property's check decides
						continue
					}
					start(u)
				}
			}
		}()
	}
	mu.Lock()
	for _, n := range k.prim {
		start(n)
	}
	mu.Unlock()
	wg.Wait()
	for _, n := range p.spec.order {
		if k.res[n] != nil {
			k.order = append(k.order, n)
		}
	}
}

type item struct {
	o    *Oblig
	prim bool
}

// exact: the failure is a counterexample of the solver on a path free of approximations.
func (i item) exact() bool { return i.o.Status == "failed" && len(i.o.Approx) == 0 }

func (k *checker) verdict() int {
	var obs []item
	primFn := map[string]bool{}
	for _, n := range k.prim {
		primFn[n] = true
	}
	var undec []string
	var fnrep []map[string]interface{}
	by := map[string]int{}
	var solver time.Duration
	trusted, assumed := map[string]bool{}, map[string]bool{}
	nProved, calls, simp := 0, 0, 0
	if k.loadErr != "" {
		undec = append(undec, "the source could not be loaded: "+k.loadErr)
	}
	for _, n := range k.order {
		r := k.res[n]
		nn, dd := 0, 0
		for _, o := range r.Obs {
			prim := hasTag(o.Tags, k.prop)
			if !prim && !depKinds[o.Kind] {
				continue
			}
			if !prim && primFn[n] && len(o.Tags) > 0 && !hasTag(o.Tags, "dep") && !k.usedByOther(n) {
				continue // states another property, and nothing here depends on it
			}
			obs = append(obs, item{o, prim})
			nn++
			if o.Status == "proved" {
				dd++
				nProved++
			} else if !(item{o, prim}).exact() {
				undec = append(undec, fmt.Sprintf("%s: %s (%s): %s %s", n, o.Label, o.Status, o.Detail, strings.Join(o.Approx, "; ")))
			}
		}
		if r.Err != "" {
			undec = append(undec, fmt.Sprintf("%s: outside the verifier's reach: %s", n, r.Err))
		} else if nn == 0 {
			undec = append(undec, fmt.Sprintf("%s: no obligations", n))
		}
		for b, c := range r.By {
			by[b] += c
		}
		calls += r.Calls
		simp += r.Simp
		solver += r.Solver
		for _, t := range r.Trust {
			trusted[t] = true
		}
		for _, u := range r.Used {
			if c := k.p.spec.cons[u]; c == nil || c.kind != "func" || c.assume {
				assumed[u] = true
			}
			if d := k.deleg[u]; d != "" && k.res[u] == nil {
				assumed[u+", discharged by the check of "+d] = true
			}
		}
		fnrep = append(fnrep, map[string]interface{}{"function": n, "source": r.Source, "obligations": nn, "discharged": dd, "states_property": primFn[n],
			"inlined": r.Inl, "relies_on": r.Used, "out_of_reach": r.Err, "notes": r.Notes, "wall_s": r.Wall.Seconds(), "solver_s": r.Solver.Seconds()})
	}
	if k.loadErr == "" && len(k.prim) == 0 {
		undec = append(undec, "no contract states this property")
	}
	// first harness run
	var h *harnessOut
	if k.hch != nil {
		h = <-k.hch
	}
	var bad, badDep []item
	for _, i := range obs {
		if i.o.Status == "proved" {
			continue
		}
		if i.exact() {
			if i.prim {
				bad = append(bad, i)
			} else {
				badDep = append(badDep, i)
			}
		}
	}
	if h != nil && h.Fail == "" && h.Err == "" && (len(bad) > 0 || len(badDep) > 0 || len(undec) > 0) {
		// search harder, starting from the values of the counterexamples
		hints := k.hints(append(append([]item(nil), bad...), badDep...))
		d := 45 * time.Second
		if k.tier == "thorough" {
			d = 4 * time.Minute
		}
		if left := 780*time.Second - time.Since(k.t0); k.tier == "quick" && d > left {
			d = left
		}
		if d > 2*time.Second {
			k.startHarness(hints, d)
			h2 := <-k.hch
			if h2.Err == "" {
				h2.Evals += h.Evals
				h = h2
			}
		}
	}
	vio := 0
	line := ""
	switch {
	case h != nil && h.Fail != "":
		vio++
		line = "VIOLATION property=" + k.prop + " replay=" + k.writeReplay(h, append(bad, badDep...), undec)
	case len(bad) > 0:
		vio++
		line = "VIOLATION property=" + k.prop + " replay=" + k.writeReplay(h, append(bad, badDep...), undec) + " no-failing-input-found"
	}
	known := k.knownFindings()
	for _, f := range known {
		fmt.Println(f)
	}
	level := "proof"
	cov := map[string]interface{}{
		"obligations": len(obs), "discharged": nProved,
		"checker_cmd":               fmt.Sprintf("bash check.sh %s %s", k.prop, k.tier),
		"trusted_base":              k.trustedBase(keys(trusted), keys(assumed)),
		"functions":                 fnrep,
		"functions_under_contract":  len(k.order),
		"back_ends":                 by,
		"solver_queries":            calls,
		"discharged_by_simplifier":  simp,
		"solver_s":                  round(solver.Seconds()),
		"undecided":                 undec,
		"failed_obligations":        obNames(bad),
		"failed_in_dependencies":    obNames(badDep),
		"note_on_undecided":         "an undecided obligation is not counted as discharged; the replay harness stands in for it, as a bounded check",
		"known_findings_suppressed": len(known),
	}
	if h != nil {
		cov["replay_harness"] = map[string]interface{}{"what": "bounded execution of the real code against an independent oracle; not counted as proof", "evaluations": h.Evals, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "samples": h.Samples, "error": h.Err, "fail": h.Fail}
	}
	ev := map[string]interface{}{"property": k.prop, "tier": k.tier, "seed": k.seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(k.t0).Seconds()), "violations": vio}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(k.root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(k.root, "evidence", k.prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d undecided reasons, %.1fs solver, %.1fs\n", k.prop, len(k.order), len(obs), nProved, len(undec), solver.Seconds(), time.Since(k.t0).Seconds())
	for _, u := range undec {
		fmt.Println("  undecided:", clip(u, 400))
	}
	for _, i := range append(append([]item(nil), bad...), badDep...) {
		fmt.Printf("  failed obligation: %s [%s] %s: %s\n", i.o.Fn, i.o.Kind, i.o.Label, clip(i.o.Detail, 300))
	}
	if h != nil {
		fmt.Printf("  replay: %d evaluations, %d distinct %s\n", h.Evals, h.Distinct, clip(h.Err, 800))
	}
	if line != "" {
		if h != nil && h.Fail != "" {
			fmt.Printf("  failing input: %s\n  %s\n", clip(h.Input, 600), clip(h.Fail, 600))
		}
		fmt.Println(line)
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

// usedByOther: some other function of this check relies on n's contract.
func (k *checker) usedByOther(n string) bool {
	for m, r := range k.res {
		if m != n && hasTag(r.Used, n) {
			return true
		}
	}
	return false
}

func obNames(is []item) []string {
	out := []string{}
	for _, i := range is {
		out = append(out, i.o.Fn+": ["+i.o.Kind+"] "+i.o.Label)
	}
	return out
}

var hexRe = regexp.MustCompile(`^#x([0-9a-fA-F]+)$`)

// hints collects the numbers of the solver's counterexamples.
func (k *checker) hints(is []item) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	for _, i := range is {
		for _, key := range sortedKeys(i.o.Model) {
			v := i.o.Model[key]
			var n uint64
			if m := hexRe.FindStringSubmatch(v); m != nil {
				n, _ = strconv.ParseUint(m[1], 16, 64)
			} else if strings.HasPrefix(v, "#b") {
				n, _ = strconv.ParseUint(v[2:], 2, 64)
			} else {
				continue
			}
			if !seen[n] && len(out) < 64 {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}

func (k *checker) startHarness(hints []uint64, budget time.Duration) {
	k.hch = make(chan *harnessOut, 1)
	go func() { k.hch <- k.harness(hints, budget) }()
}

// harness runs TestVP_<prop> from /verif/replay inside the package, through an overlay.
func (k *checker) harness(hints []uint64, budget time.Duration) *harnessOut {
	h := &harnessOut{}
	dir := filepath.Join(k.root, "replay")
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	want := "TestVP_" + k.prop
	repl := map[string]string{}
	found, race := false, false
	for _, f := range files {
		b, _ := os.ReadFile(f)
		s := string(b)
		base := filepath.Base(f)
		if strings.HasPrefix(base, "common") {
			repl[filepath.Join(k.repo, "zz_verif_"+base)] = f
		} else if strings.Contains(s, "func "+want+"(") {
			found = true
			if strings.Contains(s, "// race: "+k.prop) {
				race = true
			}
			repl[filepath.Join(k.repo, "zz_verif_"+base)] = f
			for _, m := range regexp.MustCompile(`(?m)^// needs: (.*)$`).FindAllStringSubmatch(s, -1) {
				for _, g := range strings.Fields(m[1]) {
					repl[filepath.Join(k.repo, "zz_verif_"+g)] = filepath.Join(dir, g)
				}
			}
		}
	}
	if !found {
		h.Err = "no harness for this property"
		return h
	}
	tmp, err := os.MkdirTemp("", "vpreplay")
	if err != nil {
		h.Err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	outf := filepath.Join(tmp, "out.json")
	args := []string{"test", "-overlay", ovf, "-count=1", "-vet=off", "-run", "^" + want + "$", "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())+240)}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = k.repo
	var hs []string
	for _, n := range hints {
		hs = append(hs, strconv.FormatUint(n, 10))
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	vars := []string{"VP_OUT=" + outf, "VP_SEED=" + strconv.Itoa(k.seed), "VP_BUDGET_MS=" + strconv.Itoa(int(budget.Milliseconds())), "VP_HINTS=" + strings.Join(hs, ",")}
	cmd.Env = append(env, append(vars, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")...)
	out, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(outf)
	if rerr == nil {
		json.Unmarshal(b, h)
	}
	h.Out = clip(string(out), 6000)
	if h.Fail == "" && err != nil {
		s := string(out)
		switch {
		case strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]"):
			h.Err = "harness does not build: " + clip(s, 1500)
		case race && strings.Contains(s, "WARNING: DATA RACE"):
			h.Fail = "data race: " + clip(s[strings.Index(s, "WARNING: DATA RACE"):], 3000)
			h.Input = "concurrent schedule of the harness (see output)"
		case strings.Contains(s, "panic: ") && !strings.Contains(s, "panic: test timed out") || strings.Contains(s, "fatal error: "):
			h.Fail = "the code under test crashed the process: " + clip(s, 3000)
			h.Input = "see the harness output (the case being run is the last one named there)"
		case strings.Contains(s, "panic: test timed out"):
			h.Err = "harness timed out"
		default:
			h.Err = "harness failed: " + clip(s, 1500)
		}
	}
	h.Cmd = fmt.Sprintf("cd %s && %s go test -overlay <overlay of %s/*.go> -run '^%s$' .", k.repo, strings.Join(vars[1:], " "), dir, want)
	return h
}

func (k *checker) writeReplay(h *harnessOut, bad []item, undec []string) string {
	dir := filepath.Join(k.root, "build", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, k.prop+".json")
	m := map[string]interface{}{"property": k.prop, "seed": k.seed, "undecided": undec}
	var l []map[string]interface{}
	for _, i := range bad {
		l = append(l, map[string]interface{}{"function": i.o.Fn, "kind": i.o.Kind, "obligation": i.o.Label, "status": i.o.Status, "path": i.o.Detail, "solver_model": i.o.Model, "states_property": i.prim})
	}
	m["failed_obligations"] = l
	if h != nil {
		if h.Fail != "" {
			m["failing_input"] = h.Input
			m["failure"] = h.Fail
		}
		m["replay_cmd"] = h.Cmd
		m["harness_output"] = h.Out
		m["harness_evaluations"] = h.Evals
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// knownFindings prints the recorded, unrepaired findings of this property.
func (k *checker) knownFindings() []string {
	b, err := os.ReadFile(filepath.Join(k.root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+k.prop+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func (k *checker) trustedBase(trusted, assumed []string) []string {
	out := []string{
		"the gover engine in /verif/gover (symbolic execution of go/ssa, condition generation, array and sequence encoding)",
		"golang.org/x/tools/go/ssa and go/types (translation of the source)",
		"the SMT solvers z3 5.3.2 and cvc5 1.1.2 (including cvc5's bit-vector-to-integer translation)",
		"the contracts in /verif/contracts say what the property says",
	}
	for _, t := range trusted {
		out = append(out, "model of "+t)
	}
	for _, t := range assumed {
		out = append(out, "assumed contract: "+t)
	}
	sort.Strings(out[4:])
	return out
}

var assumptions = []string{
	"partial correctness: termination is not proved",
	"machine integers are bit vectors of their Go width; lengths and loop counts stay below 2^40",
	"memory is sequentially consistent; accesses protected by the locks the contracts name are not interleaved (the lock discipline itself is an obligation)",
	"append grows a slice into fresh memory when its capacity is exceeded; capacities beyond the length are unknown",
	"standard library and serial-port functions behave as their models say (listed in trusted_base)",
	"no unsafe code, no reflection",
}
