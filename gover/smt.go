package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	mu      sync.Mutex
	name    string
	argv    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Calls   int
	By      map[string]int
	Time    time.Duration
	timeout int  // ms
	cross   bool // unsat answers of the resident solver are put to cvc5 as well
}

func NewSolver(name string, timeoutMs int) *Solver {
	s := &Solver{name: name, timeout: timeoutMs}
	// the resident solver gets a short limit; what it does not settle goes to all solvers at once
	s.argv = []string{"z3-new", "-in", "-t:400"}
	return s
}

type racer struct {
	name string
	argv []string
	pre  string
}

var racers = []racer{
	{"cvc5-int", []string{"cvc5", "--solve-bv-as-int=sum", "--lang=smt2", "--produce-models"}, "(set-logic ALL)\n"},
	{"z3-new", []string{"z3-new", "-in"}, ""},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models"}, "(set-logic QF_UFBV)\n"},
}

var raceSem = make(chan bool, 4)

// Race runs the solvers side by side on one query; the first answer counts.
func (s *Solver) Race(script string, want []string, limit time.Duration) (Result, map[string]string, string) {
	return s.race(context.Background(), script, want, limit)
}

func (s *Solver) race(outer context.Context, script string, want []string, limit time.Duration) (Result, map[string]string, string) {
	select {
	case raceSem <- true:
	case <-outer.Done():
		return Unknown, nil, "no answer within the time limit"
	}
	defer func() { <-raceSem }()
	ctx, cancel := context.WithTimeout(outer, limit)
	defer cancel()
	type ans struct {
		r   Result
		m   map[string]string
		who string
	}
	ch := make(chan ans, len(racers))
	for _, rc := range racers {
		go func(rc racer) {
			cmd := exec.CommandContext(ctx, rc.argv[0], rc.argv[1:]...)
			sc := rc.pre + script + "(check-sat)\n"
			if len(want) > 0 {
				sc += "(get-value (" + strings.Join(want, " ") + "))\n"
			}
			cmd.Stdin = strings.NewReader(sc)
			out, _ := cmd.Output()
			t := strings.TrimSpace(string(out))
			a := ans{r: Unknown, who: rc.name}
			switch {
			case strings.HasPrefix(t, "unsat"):
				a.r = Unsat
			case strings.HasPrefix(t, "sat"):
				a.r = Sat
				if len(want) > 0 {
					a.m = map[string]string{}
					parseModel(strings.TrimPrefix(t, "sat"), a.m)
				}
			}
			ch <- a
		}(rc)
	}
	for range racers {
		a := <-ch
		if a.r != Unknown {
			s.won(a.who)
			return a.r, a.m, a.r.String()
		}
	}
	return Unknown, nil, "no answer within the time limit"
}

func (s *Solver) won(who string) {
	s.mu.Lock()
	s.By[who]++
	s.mu.Unlock()
}

func (s *Solver) start() error {
	cmd := exec.Command(s.argv[0], s.argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.mu.Lock()
	s.cmd = cmd
	s.mu.Unlock()
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	pre := "(set-option :print-success false)\n(set-logic QF_UFBV)\n"
	if strings.HasPrefix(s.name, "z3") {
		pre = "(set-option :print-success false)\n(set-option :produce-models true)\n"
	}
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) Close() {
	s.mu.Lock()
	cmd := s.cmd
	s.cmd = nil
	s.mu.Unlock()
	if cmd != nil {
		s.in.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}
}

func (s *Solver) kill() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
}

// Check decides satisfiability of the conjunction. want: terms to evaluate in a model.
func (s *Solver) Check(script string, want []string, long bool) (r Result, m map[string]string, why string) {
	if s.By == nil {
		s.By = map[string]int{}
	}
	t0 := time.Now()
	s.Calls++
	defer func() {
		s.Time += time.Since(t0)
		if debug {
			println("Q", len(script)/10000, time.Since(t0).Microseconds(), r.String(), long)
		}
	}()
	limit := 8 * time.Second
	if long {
		limit = time.Duration(s.timeout) * time.Millisecond
	}
	if len(script) >= 200000 {
		return s.Race(script, want, limit)
	}
	type ans struct {
		r Result
		m map[string]string
		t string
	}
	res := make(chan ans, 1)
	go func() {
		r, m, t := s.check1(script, want)
		res <- ans{r, m, t}
	}()
	resident := func(a ans) (Result, map[string]string, string) {
		s.won("z3-new")
		if s.cross && long && a.r == Unsat && s.second(script) == Sat {
			return Unknown, nil, "z3-new says unsat, cvc5 says sat"
		}
		return a.r, a.m, a.t
	}
	head := time.NewTimer(60 * time.Millisecond)
	defer head.Stop()
	select {
	case a := <-res:
		if a.r != Unknown {
			return resident(a)
		}
		return s.Race(script, want, limit)
	case <-head.C:
	}
	// not settled at once: the others join
	race := make(chan ans, 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		r, m, t := s.race(ctx, script, want, limit)
		race <- ans{r, m, t}
	}()
	select {
	case a := <-res:
		if a.r != Unknown {
			return resident(a)
		}
		b := <-race
		return b.r, b.m, b.t
	case b := <-race:
		if b.r != Unknown {
			s.kill() // it is started again for the next query
		}
		a := <-res
		if b.r == Unknown && a.r != Unknown {
			return resident(a)
		}
		return b.r, b.m, b.t
	}
}

func (s *Solver) check1(script string, want []string) (Result, map[string]string, string) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, err.Error()
		}
	}
	kill := time.AfterFunc(10*time.Second, s.kill)
	defer kill.Stop()
	go func(in io.Writer) { io.WriteString(in, "(push 1)\n"+script+"(check-sat)\n(echo \"<<done>>\")\n") }(s.in)
	ans, err := s.readUntil("<<done>>")
	if err != nil {
		s.Close()
		return Unknown, nil, "solver died: " + err.Error()
	}
	var r Result
	first := strings.TrimSpace(ans)
	switch {
	case strings.HasPrefix(first, "unsat"):
		r = Unsat
	case strings.HasPrefix(first, "sat"):
		r = Sat
	default:
		r = Unknown
	}
	model := map[string]string{}
	if r == Sat && len(want) > 0 {
		io.WriteString(s.in, "(get-value ("+strings.Join(want, " ")+"))\n(echo \"<<done>>\")\n")
		v, err := s.readUntil("<<done>>")
		if err == nil {
			parseModel(v, model)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if strings.Contains(first, "error") {
		s.Close()
		return Unknown, nil, first
	}
	return r, model, first
}

func (s *Solver) readUntil(mark string) (string, error) {
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.Contains(l, mark) {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

func parseModel(v string, m map[string]string) {
	// ((name val) (name val)): names may be |quoted|
	v = strings.TrimSpace(v)
	i := 0
	for i < len(v) {
		if v[i] == '(' && i+1 < len(v) && v[i+1] != '(' {
			j := strings.IndexByte(v[i:], ')')
			depth := 0
			j = i
			for ; j < len(v); j++ {
				if v[j] == '(' {
					depth++
				} else if v[j] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j >= len(v) {
				return
			}
			body := v[i+1 : j]
			k := strings.LastIndexByte(body, ' ')
			if k > 0 {
				m[strings.TrimSpace(body[:k])] = body[k+1:]
			}
			i = j + 1
			continue
		}
		i++
	}
}

// ---- printing

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	decl  map[string]bool
	cnt   map[*Term]int
	vars  []*Term
	napp  []*Term
}

func q(n string) string { return "|" + n + "|" }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func Script(asserts []*Term) (string, []*Term) {
	p := &printer{names: map[*Term]string{}, decl: map[string]bool{}}
	// iterative post-order to avoid deep recursion trouble
	for _, a := range asserts {
		p.emit(a)
	}
	for _, a := range asserts {
		fmt.Fprintf(&p.sb, "(assert %s)\n", p.ref(a))
	}
	return p.sb.String(), p.vars
}

func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	p.emit(t)
	return p.names[t]
}

func bvlit(w int, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (p *printer) emit(t *Term) {
	if _, ok := p.names[t]; ok {
		return
	}
	for _, a := range t.args {
		p.emit(a)
	}
	switch t.op {
	case OConst:
		p.names[t] = bvlit(t.w, t.val)
		return
	case OVar:
		n := q(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortOf(t.w))
			p.vars = append(p.vars, t)
		}
		p.names[t] = n
		return
	case OApp:
		n := q("f:" + t.name)
		if !p.decl[n] {
			p.decl[n] = true
			var as []string
			for _, a := range t.args {
				as = append(as, sortOf(a.w))
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), sortOf(t.w))
		}
	}
	var body string
	refs := make([]string, len(t.args))
	for i, a := range t.args {
		refs[i] = p.names[a]
	}
	switch t.op {
	case OApp:
		body = "(" + q("f:"+t.name) + " " + strings.Join(refs, " ") + ")"
	case OIte:
		body = "(ite " + strings.Join(refs, " ") + ")"
	case OLin:
		var s []string
		for i, r := range refs {
			switch t.coefs[i] {
			case 1:
				s = append(s, r)
			case mask(t.w):
				s = append(s, "(bvneg "+r+")")
			default:
				if n := log2(t.coefs[i]); n > 0 {
					s = append(s, "(bvshl "+r+" "+bvlit(t.w, uint64(n))+")")
				} else {
					s = append(s, "(bvmul "+bvlit(t.w, t.coefs[i])+" "+r+")")
				}
			}
		}
		if t.val != 0 {
			s = append(s, bvlit(t.w, t.val))
		}
		body = s[0]
		for _, x := range s[1:] {
			body = "(bvadd " + body + " " + x + ")"
		}
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, refs[0])
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, refs[0])
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, refs[0])
	case OBAnd, OBOr, OBXor, OMul:
		body = refs[0]
		for _, r := range refs[1:] {
			body = "(" + opNames[t.op] + " " + body + " " + r + ")"
		}
	default:
		body = "(" + opNames[t.op] + " " + strings.Join(refs, " ") + ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), body)
	p.names[t] = n
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// second puts a query to cvc5.
func (s *Solver) second(script string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2")
	cmd.Stdin = strings.NewReader("(set-logic QF_UFBV)\n" + script + "(check-sat)\n")
	out, _ := cmd.Output()
	t := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(t, "unsat"):
		s.won("cvc5 (second opinion)")
		return Unsat
	case strings.HasPrefix(t, "sat"):
		return Sat
	}
	return Unknown
}
