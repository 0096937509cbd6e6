package main

// Loading of the code under verification: /repo's current sources (plus a
// ghost file with lemma functions, as an overlay) are type-checked and turned
// into SSA on every run. Dependencies are type-checked without bodies.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type LoopInfo struct {
	head map[*ssa.BasicBlock]*Loop
}

type GuardDecl struct {
	lock    string
	fields  map[string]string // field -> lock field
	atomics map[string]bool
	elems   map[string]string // fields whose slice contents are protected
}

type Prog struct {
	fset   *token.FileSet
	pkg    *ssa.Package
	prog   *ssa.Program
	tpkg   *types.Package
	pkgs   map[string]*types.Package
	loops  map[*ssa.Function]*LoopInfo
	guards map[string]*GuardDecl
	ext    map[string]int64
	spec   *Spec
	gmut   map[*ssa.Global]bool // written outside init
	lemma  map[string]bool
	mu     sync.Mutex
	lerr   error // the ghost file did not type-check
	files  []string
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	ImportMap  map[string]string
	Imports    []string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
}

func LoadProg(repo string, overlay map[string]string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,ImportMap,Imports,Standard,DepOnly,Error", ".")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var list []*listPkg
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		list = append(list, p)
	}
	p := &Prog{fset: token.NewFileSet(), pkgs: map[string]*types.Package{"unsafe": types.Unsafe}, loops: map[*ssa.Function]*LoopInfo{},
		guards: map[string]*GuardDecl{}, ext: map[string]int64{}, gmut: map[*ssa.Global]bool{}, lemma: map[string]bool{}}
	parsed := make([][]*ast.File, len(list))
	perr := make([]error, len(list))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, lp := range list {
		if lp.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(i int, lp *listPkg) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			for _, f := range lp.GoFiles {
				fn := f
				if !filepath.IsAbs(fn) {
					fn = filepath.Join(lp.Dir, f)
				}
				mode := parser.SkipObjectResolution
				af, err := parser.ParseFile(p.fset, fn, nil, mode)
				if err != nil && perr[i] == nil {
					perr[i] = err
				}
				parsed[i] = append(parsed[i], af)
			}
		}(i, lp)
	}
	wg.Wait()
	var root *listPkg
	var rootFiles []*ast.File
	for i, lp := range list {
		if lp.ImportPath == "unsafe" {
			continue
		}
		if !lp.DepOnly {
			root, rootFiles = lp, parsed[i]
			if perr[i] != nil {
				return nil, perr[i]
			}
			continue
		}
		im := lp.ImportMap
		conf := types.Config{IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64"),
			Importer: impFunc(func(path string) (*types.Package, error) {
				if m, ok := im[path]; ok {
					path = m
				}
				if q, ok := p.pkgs[path]; ok {
					return q, nil
				}
				return nil, fmt.Errorf("missing %s", path)
			})}
		tp, _ := conf.Check(lp.ImportPath, p.fset, parsed[i], nil)
		p.pkgs[lp.ImportPath] = tp
	}
	if root == nil {
		return nil, fmt.Errorf("no package in %s", repo)
	}
	_ = build.Default
	for _, f := range root.GoFiles {
		p.files = append(p.files, f)
	}
	sort.Strings(p.files)
	imp := impFunc(func(path string) (*types.Package, error) {
		if m, ok := root.ImportMap[path]; ok {
			path = m
		}
		if q, ok := p.pkgs[path]; ok {
			return q, nil
		}
		return nil, fmt.Errorf("missing %s", path)
	})
	check := func(files []*ast.File) (*types.Package, *types.Info, error) {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.15"}
		tp, err := conf.Check(root.ImportPath, p.fset, files, info)
		return tp, info, err
	}
	files := rootFiles
	tp, info, err := check(files)
	if err != nil {
		return nil, fmt.Errorf("type check: %v", err)
	}
	var names []string
	for n := range overlay {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		af, err := parser.ParseFile(p.fset, n, overlay[n], parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		f2 := append(append([]*ast.File(nil), files...), af)
		tp2, info2, err := check(f2)
		if err != nil {
			p.lerr = err
			// a failed check leaves objects in a bad state: re-check what is good
			tp, info, err = check(files)
			if err != nil {
				return nil, err
			}
			continue
		}
		tp, info, files = tp2, info2, f2
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				p.lemma[fd.Name.Name] = true
			}
		}
	}
	p.tpkg = tp
	p.prog = ssa.NewProgram(p.fset, ssa.BuilderMode(0))
	seen := map[*types.Package]bool{}
	var create func(q *types.Package)
	create = func(q *types.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		for _, i := range q.Imports() {
			create(i)
		}
		if q != tp {
			p.prog.CreatePackage(q, nil, nil, true)
		}
	}
	for _, q := range p.pkgs {
		if q != types.Unsafe {
			create(q)
		}
	}
	create(tp)
	p.pkg = p.prog.CreatePackage(tp, files, info, false)
	p.pkg.Build()
	// globals written outside package initialisation
	only := p.initOnly()
	for _, f := range p.allFuncs() {
		if only[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil {
						p.gmut[g] = true
					}
					continue
				}
				// address taken for anything but loads
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch u := in.(type) {
						case *ssa.UnOp:
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Call:
							_ = u
						default:
							p.gmut[g] = true
						}
					}
				}
			}
		}
	}
	return p, nil
}

// initOnly: the functions that run during package initialisation and at no other time.
func (p *Prog) initOnly() map[*ssa.Function]bool {
	all := p.allFuncs()
	users := map[*ssa.Function]map[*ssa.Function]bool{} // who calls it
	taken := map[*ssa.Function]bool{}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(*ssa.Call); ok {
					callee = c.Call.StaticCallee()
				}
				n := 0
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g == callee && n == 0 {
							n++
							if users[g] == nil {
								users[g] = map[*ssa.Function]bool{}
							}
							users[g][f] = true
						} else {
							taken[g] = true
						}
					}
				}
			}
		}
	}
	only := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#"))
	}
	for _, f := range all {
		if isInit(f) {
			only[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range all {
			if only[f] || taken[f] || len(users[f]) == 0 || ast.IsExported(f.Name()) || f.Signature.Recv() != nil || f.Parent() != nil {
				continue
			}
			ok := true
			for u := range users[f] {
				ok = ok && only[u]
			}
			if ok {
				only[f], again = true, true
			}
		}
	}
	return only
}

func rootGlobal(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return rootGlobal(v.X)
	case *ssa.IndexAddr:
		return rootGlobal(v.X)
	}
	return nil
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.pkg.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// fullName: "CRC16", "(*NodeRegister).ReadCoils", "(LRC).Value"
func shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return shortName(f.Parent()) + "$" + f.Name()
	}
	r := f.Signature.Recv()
	if r == nil {
		return f.Name()
	}
	t := r.Type()
	s := ""
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		s = "*"
	}
	n := t.String()
	if nm, ok := t.(*types.Named); ok {
		n = nm.Obj().Name()
	}
	return "(" + s + n + ")." + f.Name()
}

// find a function by contract name; methods match with value or pointer receiver.
func (p *Prog) find(name string) *ssa.Function {
	if !strings.HasPrefix(name, "(") {
		if f, ok := p.pkg.Members[name].(*ssa.Function); ok {
			return f
		}
		return nil
	}
	i := strings.Index(name, ").")
	tn := strings.TrimPrefix(name[1:i], "*")
	mn := name[i+2:]
	tm, ok := p.pkg.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
		if sel := p.prog.MethodSets.MethodSet(t).Lookup(p.tpkg, mn); sel != nil {
			f := p.prog.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f.Pkg == p.pkg {
		return true
	}
	for q := f; q != nil; q = q.Parent() {
		if q.Pkg == p.pkg {
			return true
		}
	}
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() == p.tpkg {
		return true
	}
	// synthetic wrappers (promoted methods, bound methods)
	return f.Synthetic != "" && len(f.Blocks) > 0
}

func (p *Prog) loopsOf(fn *ssa.Function) *LoopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if li, ok := p.loops[fn]; ok {
		return li
	}
	li := &LoopInfo{head: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.head[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.head[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if l := li.head[b]; l != nil {
			n++
			l.ord = n
		}
	}
	p.loops[fn] = li
	return li
}

func (p *Prog) extID(name string) int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.ext[name]; ok {
		return v
	}
	v := int64(0x1000 + len(p.ext))
	p.ext[name] = v
	return v
}

// initGlobal: constants of the package are installed by running its initialiser
// before verification starts; everything else is arbitrary.
func (p *Prog) initGlobal(x *Exec, st *State, g *ssa.Global) (Value, bool) {
	if x.initing {
		return st.zero(g.Type().Underlying().(*types.Pointer).Elem()), true
	}
	return nil, false
}

func (p *Prog) typeNamed(name string) types.Type {
	o := p.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}
