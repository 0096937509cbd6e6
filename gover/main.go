package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	fnre := flag.String("fn", ".", "")
	verbose := flag.Bool("v", false, "")
	par := flag.Int("j", 8, "")
	budget := flag.Duration("budget", 120*time.Second, "")
	flag.Parse()
	p, err := Load(*repo, *dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	re := regexp.MustCompile(*fnre)
	opt := &Options{Solver: "z3-new", Alt: "", TimeoutMs: 20000, Budget: *budget, Verbose: *verbose}
	var names []string
	for _, n := range p.spec.order {
		c := p.spec.cons[n]
		if c.kind == "func" && !c.assume && re.MatchString(n) {
			names = append(names, n)
		}
	}
	res := p.VerifyAll(names, opt, *par)
	for _, r := range res {
		fmt.Print(r.Report(*verbose))
	}
}

func Load(repo, dir string) (*Prog, error) {
	ov := map[string]string{}
	lem, _ := filepath.Glob(filepath.Join(dir, "lemmas", "*.go"))
	for _, f := range lem {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[f] = string(b)
	}
	p, err := LoadProg(repo, ov)
	if err != nil {
		return nil, err
	}
	sp, err := LoadSpec(dir)
	if err != nil {
		return nil, err
	}
	p.spec = sp
	for n, g := range sp.guards {
		if t := p.typeNamed(n); t != nil {
			p.guards[typeName(t)] = g
		}
	}
	return p, nil
}

func (p *Prog) VerifyAll(names []string, opt *Options, par int) []*FnResult {
	res := make([]*FnResult, len(names))
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res[i] = p.Verify(p.spec.cons[n], opt)
		}(i, n)
	}
	wg.Wait()
	return res
}

func (r *FnResult) Report(verbose bool) string {
	var sb strings.Builder
	bad := 0
	for _, o := range r.Obs {
		if o.Status != "proved" {
			bad++
		}
	}
	st := "ok"
	if bad > 0 {
		st = "FAIL"
	}
	if r.Err != "" {
		st = "ERR " + r.Err
	}
	fmt.Fprintf(&sb, "%-50s %d obligations, %d not proved, %.1fs (solver %.1fs, %d calls) %s\n", r.Name, len(r.Obs), bad, r.Wall.Seconds(), r.Solver.Seconds(), r.Calls, st)
	for _, a := range r.Approx {
		fmt.Fprintf(&sb, "    approx: %s\n", a)
	}
	for _, o := range r.Obs {
		if o.Status != "proved" {
			fmt.Fprintf(&sb, "    %s [%s] %s %v: %s\n", o.Status, o.Kind, o.Label, o.Tags, o.Detail)
			n := 0
			for _, k := range sortedKeys(o.Model) {
				if !verbose {
					break
				}
				fmt.Fprintf(&sb, "        %s = %s\n", k, o.Model[k])
				if n++; n > 40 {
					break
				}
			}
		} else if verbose {
			fmt.Fprintf(&sb, "    proved [%s] %s %v (%d paths)\n", o.Kind, o.Label, o.Tags, o.Paths)
		}
	}
	if verbose {
		fmt.Fprintf(&sb, "    used %v\n    inlined %v\n    trusted %v\n    notes %v\n", r.Used, r.Inl, r.Trust, r.Notes)
	}
	return sb.String()
}
