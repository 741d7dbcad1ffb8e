package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/avast/apkverifier"

type Prog struct {
	pathsOnce sync.Once
	paths     []string

	repo     string
	fset     *token.FileSet
	ssa      *ssa.Program
	repoPkgs []*ssa.Package
	pkgBy    map[string]*ssa.Package // by path
	funcs    map[string]*ssa.Function
	mu       sync.Mutex
	tags     map[string]int
	tagTypes map[int]types.Type
	extTag   int
	repoTag  int
	impls    map[string][]types.Type
	frozen   map[*ssa.Global]bool // assigned only in init
	ginit    map[*ssa.Global]*globInit
	loops    map[*ssa.Function]*LoopForest
	leafMemo map[types.Type][]Leaf
}

func goEnv(repo string) ([]string, func()) {
	// private copies of go.mod / go.sum so that the tracked ones are never written
	dir, err := os.MkdirTemp("", "govcmod")
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(repo, f))
		os.WriteFile(filepath.Join(dir, "x"+f[2:]), b, 0o644)
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(dir, "x.mod"), "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
	return env, func() { os.RemoveAll(dir) }
}

func Load(repo string) (*Prog, error) {
	env, done := goEnv(repo)
	defer done()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo, Fset: fset, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintln(os.Stderr, "load:", e)
				nerr++
			}
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{repo: repo, fset: fset, ssa: prog, pkgBy: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		tags: map[string]int{}, tagTypes: map[int]types.Type{}, extTag: 100000, impls: map[string][]types.Type{}, frozen: map[*ssa.Global]bool{},
		loops: map[*ssa.Function]*LoopForest{}, leafMemo: map[types.Type][]Leaf{}}
	for _, sp := range prog.AllPackages() {
		p.pkgBy[sp.Pkg.Path()] = sp
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			p.repoPkgs = append(p.repoPkgs, sp)
		}
	}
	sort.Slice(p.repoPkgs, func(i, j int) bool { return p.repoPkgs[i].Pkg.Path() < p.repoPkgs[j].Pkg.Path() })
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Synthetic == "" {
			p.funcs[FuncKey(f)] = f
		}
	}
	p.scanGlobals()
	p.scanInits()
	return p, nil
}

// FuncKey: "signingblock.(*schemeV2).verifySigner", "apkverifier.Verify"
func FuncKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return FuncKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pk := ""
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg)
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortPkg(f.Object().Pkg())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			star = "*"
			t = pt.Elem()
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		return pk + ".(" + star + n + ")." + f.Name()
	}
	return pk + "." + f.Name()
}

func shortPkg(p *types.Package) string {
	path := p.Path()
	if path == modPath {
		return "apkverifier"
	}
	if strings.HasPrefix(path, modPath+"/") {
		return path[strings.LastIndexByte(path, '/')+1:]
	}
	return path
}

func isRepo(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }

func (p *Prog) scanGlobals() {
	bad := map[*ssa.Global]bool{}
	for _, sp := range p.repoPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.frozen[g] = true
			}
		}
	}
	for f := range ssautil.AllFunctions(p.ssa) {
		if f.Pkg == nil || !isRepo(f.Pkg.Pkg) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					// loads are fine, anything else (store, address taken) is not; &g used by IndexAddr/FieldAddr for reads is fine
					switch x := in.(type) {
					case *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.Slice:
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							bad[g] = true
						}
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		p.frozen[g] = false
	}
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

func (p *Prog) Tag(t types.Type) int {
	k := typeKey(t)
	p.mu.Lock()
	defer p.mu.Unlock()
	if n, ok := p.tags[k]; ok {
		return n
	}
	var n int
	if typeInRepo(t) {
		p.repoTag++
		n = p.repoTag
	} else {
		p.extTag++
		n = p.extTag
	}
	p.tags[k] = n
	p.tagTypes[n] = t
	return n
}

func (p *Prog) TagType(n int) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tagTypes[n]
}

func typeInRepo(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return isRepo(n.Obj().Pkg())
	}
	return false
}

// Implementers: concrete repo types (T or *T) implementing an interface
func (p *Prog) Implementers(it types.Type) []types.Type {
	k := typeKey(it)
	p.mu.Lock()
	if r, ok := p.impls[k]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, sp := range p.repoPkgs {
		names := sortedKeys(sp.Members)
		for _, n := range names {
			tn, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	p.mu.Lock()
	p.impls[k] = out
	p.mu.Unlock()
	return out
}

// ---------- natural loops

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type LoopForest struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

func (p *Prog) Loops(f *ssa.Function) *LoopForest {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l := p.loops[f]; l != nil {
		return l
	}
	lf := &LoopForest{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := lf.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !l.blocks[pr] {
							l.blocks[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	p.loops[f] = lf
	return lf
}
