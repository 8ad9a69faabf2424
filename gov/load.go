package main

// Loading /repo together with the contract files, and reading directives.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Contract struct {
	name    string // wrapper name
	fn      *ssa.Function
	props   []string
	target  string // resolved key of the contracted function, if any
	use     bool   // callers are checked against the contract
	trusted bool   // never verified itself (interfaces of external services)
	inline  []string
	file    string
	doc     string
	loops   string
	opts    map[string]string
}

type World struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	repoFiles map[string]bool
	specFile  map[string]bool // overlay files
	contracts []*Contract
	byTarget  map[string]*Contract     // use contracts
	models    map[string]*ssa.Function // key -> model
	globals   map[string]*ssa.Function // global key -> initial value
	invs      []*ssa.Function          // loop invariant templates
	uses      map[string]bool          // (iface) method keys handled as contract
	dropped   []string
	impls     map[string][]types.Type
	lines     int
	mutable   map[*ssa.Global]bool
	isModel   map[*ssa.Function]bool
}

// readOverlay maps contract files onto package directories of the repository.
func readOverlay(contracts, repo string) map[string][]byte {
	ov := map[string][]byte{}
	filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		b, e := os.ReadFile(p)
		if e != nil {
			panic(e)
		}
		ov[filepath.Join(repo, rel)] = b
		return nil
	})
	return ov
}

func load(repo, contracts string, pkgFilter []string) (*World, error) {
	if p := "/opt/veriftools/go1.23.12/bin"; !strings.HasPrefix(os.Getenv("PATH"), p) {
		os.Setenv("PATH", p+":"+os.Getenv("PATH"))
	}
	overlay := readOverlay(contracts, repo)
	w := &World{specFile: map[string]bool{}, pkgs: map[string]*ssa.Package{}, byTarget: map[string]*Contract{},
		models: map[string]*ssa.Function{}, globals: map[string]*ssa.Function{}, uses: map[string]bool{}, mutable: map[*ssa.Global]bool{}, isModel: map[*ssa.Function]bool{}}
	for f := range overlay {
		w.specFile[f] = true
	}
	var pkgs []*packages.Package
	for round := 0; round < 8; round++ {
		w.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     repo,
			Fset:    w.fset,
			Overlay: overlay,
			Env:     append(os.Environ(), goEnv()...),
		}
		// syntax only for the repository's own packages: parse nothing else
		cfg.Mode &^= packages.NeedDeps
		cfg.Mode |= packages.NeedImports
		var err error
		pkgs, err = packages.Load(cfg, pkgFilter...)
		if err != nil {
			return nil, err
		}
		bad := map[string][]int{}
		var hard []string
		seenErr := map[string]bool{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if seenErr[e.Pos+e.Msg] {
					continue
				}
				seenErr[e.Pos+e.Msg] = true
				file, line := splitPos(e.Pos)
				if w.specFile[file] {
					bad[file] = append(bad[file], line)
					w.dropped = append(w.dropped, fmt.Sprintf("%s:%d: %s", filepath.Base(file), line, e.Msg))
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					hard = append(hard, e.Pos+": "+e.Msg)
				}
			}
		})
		if len(bad) == 0 {
			if len(hard) > 0 {
				return nil, fmt.Errorf("does not type-check: %s", strings.Join(hard, "; "))
			}
			break
		}
		if round == 7 {
			return nil, fmt.Errorf("contracts do not type-check: %v", w.dropped)
		}
		for f, ls := range bad {
			overlay[f] = dropDecls(f, overlay[f], ls)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	w.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s: %v", pkgs[i].PkgPath, pkgs[i].Errors)
		}
		sp.Build()
		w.pkgs[sp.Pkg.Path()] = sp
	}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if w.specFile[name] {
				w.readDirectives(p, f, name)
			}
		}
	}
	sort.Slice(w.contracts, func(i, j int) bool { return w.contracts[i].name < w.contracts[j].name })
	w.findMutableGlobals()
	return w, nil
}

func splitPos(s string) (string, int) {
	parts := strings.Split(s, ":")
	if len(parts) < 2 {
		return s, 0
	}
	var n int
	fmt.Sscanf(parts[1], "%d", &n)
	return parts[0], n
}

// dropDecls removes the declarations containing the given lines: contracts of
// functions which no longer exist. Unused imports are dropped as specs.
func dropDecls(name string, src []byte, lines []int) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(fmt.Sprintf("contract file %s: %v", name, err))
	}
	in := func(n ast.Node) bool {
		a, b := fset.Position(n.Pos()).Line, fset.Position(n.End()).Line
		for _, l := range lines {
			if a <= l && l <= b {
				return true
			}
		}
		return false
	}
	var decls []ast.Decl
	var gone []ast.Node
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var specs []ast.Spec
			for _, s := range g.Specs {
				if in(s) {
					gone = append(gone, s)
				} else {
					specs = append(specs, s)
				}
			}
			g.Specs = specs
			if len(specs) > 0 {
				decls = append(decls, g)
			}
			continue
		}
		if in(d) {
			gone = append(gone, d)
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				fd.Doc.List = nil
			}
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	var cs []*ast.CommentGroup
	for _, c := range f.Comments {
		keep := len(c.List) > 0
		for _, g := range gone {
			if keep && c.Pos() >= g.Pos() && c.End() <= g.End() {
				keep = false
			}
		}
		if keep {
			cs = append(cs, c)
		}
	}
	f.Comments = cs
	var b strings.Builder
	if err := printer.Fprint(&b, fset, f); err != nil {
		panic(err)
	}
	return []byte(b.String())
}

func (w *World) readDirectives(p *packages.Package, f *ast.File, file string) {
	sp := w.pkgs[p.PkgPath]
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil {
			continue
		}
		fn := sp.Func(fd.Name.Name)
		if fn == nil {
			continue
		}
		if strings.HasPrefix(fd.Name.Name, "inv_") {
			w.invs = append(w.invs, fn)
		}
		if fd.Doc == nil {
			continue
		}
		c := &Contract{name: fd.Name.Name, fn: fn, file: file, opts: map[string]string{}}
		isC := false
		for _, l := range fd.Doc.List {
			t := l.Text
			if !strings.HasPrefix(t, "//gov:") {
				if strings.HasPrefix(t, "// ") {
					c.doc += strings.TrimPrefix(t, "// ") + " "
				}
				continue
			}
			fs := strings.Fields(strings.TrimPrefix(t, "//gov:"))
			switch fs[0] {
			case "contract":
				c.target = resolveKey(fs[1], p.PkgPath)
				isC = true
			case "props":
				c.props = append(c.props, fs[1:]...)
				isC = true
			case "use":
				c.use = true
			case "trusted":
				c.trusted = true
			case "inline":
				for _, x := range fs[1:] {
					c.inline = append(c.inline, resolveKey(x, p.PkgPath))
				}
			case "opt":
				for _, x := range fs[1:] {
					k, v, _ := strings.Cut(x, "=")
					c.opts[k] = v
				}
			case "model":
				for _, k := range fs[1:] {
					w.models[resolveKey(k, p.PkgPath)] = fn
					w.isModel[fn] = true
				}
			case "global":
				w.globals[resolveKey(fs[1], p.PkgPath)] = fn
			default:
				panic("unknown directive " + t)
			}
		}
		if isC {
			w.contracts = append(w.contracts, c)
			if c.use && c.target != "" {
				w.byTarget[c.target] = c
			}
		}
	}
}

// resolveKey expands F, (T).M and (*T).M relative to a package.
func resolveKey(k, pkg string) string {
	if strings.HasPrefix(k, "(") {
		in := k[1:strings.Index(k, ")")]
		rest := k[strings.Index(k, ")"):]
		star := ""
		if strings.HasPrefix(in, "*") {
			star, in = "*", in[1:]
		}
		if !strings.Contains(in, ".") && in != "error" {
			in = pkg + "." + in
		} else if strings.HasPrefix(in, "adapter/") || strings.HasPrefix(in, "config/") {
			in = modPath + "/" + in
		}
		return "(" + star + in + rest
	}
	if strings.HasPrefix(k, "adapter/") || strings.HasPrefix(k, "config/") {
		return modPath + "/" + k
	}
	if !strings.Contains(k, ".") {
		return pkg + "." + k
	}
	return k
}

func (w *World) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	p := w.fset.Position(fn.Pos())
	return w.specFile[p.Filename]
}

// findMutableGlobals records the package variables some repository function
// (other than package initialisation) may write.
func (w *World) findMutableGlobals() {
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil || w.pkgs[fn.Pkg.Pkg.Path()] == nil || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		if w.isSpec(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, isLoad := in.(*ssa.UnOp); isLoad && u.Op == token.MUL {
							continue
						}
						if _, isIdx := in.(*ssa.IndexAddr); isIdx {
							continue // arrays: written only through a Store on the result
						}
						w.mutable[g] = true
					}
				}
			}
		}
	}
}

func goEnv() []string {
	return []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off",
		"GOROOT=/opt/veriftools/go1.23.12", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOTOOLCHAIN=local"}
}
