package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pkg is one type-checked package of the repository under analysis.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
}

// Prog is the whole repository: every package `go build ./...` compiles, type-checked from source against export data.
type Prog struct {
	Root   string
	Module string
	Fset   *token.FileSet
	Pkgs   map[string]*Pkg
	Order  []*Pkg
	SSA    *ssa.Program
	Funcs  []*ssa.Function // every source function, methods and closures included, deterministic order

	callers   map[*ssa.Function][]CallRef
	modsCache map[*ssa.Function]map[string]bool
	enumCache map[*types.Named][]EnumMember
	impls     map[*types.Func][]*ssa.Function
	liveCache map[*ssa.Function]*liveInfo
	byName    map[string]*ssa.Function
	taken     map[*ssa.Function]bool
	lockInfo  *LockInfo
	accCache  map[string][]Access
	globals   map[*ssa.Global]*Val
	slices    map[*ssa.Global][]*Val
	aux       map[string]bool // standard packages loaded from source so that calls into them can be followed
	sliceID   map[*ssa.Global]int
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	DepOnly    bool
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var auxPkgs = map[string]bool{"slices": true, "maps": true, "cmp": true}

// Load lists, parses, type-checks and builds SSA for all packages of the module at root.
func Load(root string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,DepOnly,Standard,Module,Error", "./...")
	cmd.Dir = root
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(&stdout)
	exports := map[string]string{}
	var targets, auxs []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.DepOnly {
			exports[p.ImportPath] = p.Export
			if p.Standard && auxPkgs[p.ImportPath] {
				pp := p
				auxs = append(auxs, &pp)
			}
			continue
		}
		if strings.Contains(p.ImportPath, "/integration/tmp_") {
			continue // what a run of the integration suite has left or is writing
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		pp := p
		targets = append(targets, &pp)
	}
	if len(targets) == 0 {
		return nil, fmt.Errorf("no packages listed under %s", root)
	}

	prog := &Prog{Root: root, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, aux: map[string]bool{}}
	auxDone := map[string]*Pkg{}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	byPath := map[string]*listPkg{}
	for _, t := range targets {
		byPath[t.ImportPath] = t
		if t.Module != nil {
			prog.Module = t.Module.Path
		}
	}
	var firstErr error
	imp := &srcImporter{}
	var auxOrder []*Pkg
	var check func(path string) (*types.Package, error)
	check = func(path string) (*types.Package, error) {
		if p, ok := prog.Pkgs[path]; ok {
			return p.Types, nil
		}
		if p, ok := auxDone[path]; ok {
			return p.Types, nil
		}
		t, ok := byPath[path]
		if !ok {
			if path == "unsafe" {
				return types.Unsafe, nil
			}
			return gc.Import(path)
		}
		pk := &Pkg{Path: path, Dir: t.Dir}
		if len(t.CgoFiles) > 0 {
			return nil, fmt.Errorf("package %s uses cgo: not supported", path)
		}
		for _, f := range t.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(t.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
		}
		pk.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		conf := types.Config{Importer: imp, Error: func(err error) {
			if firstErr == nil {
				firstErr = err
			}
		}}
		tp, err := conf.Check(path, prog.Fset, pk.Files, pk.Info)
		if err != nil {
			return nil, err
		}
		pk.Types = tp
		if t.DepOnly {
			auxDone[path] = pk
			auxOrder = append(auxOrder, pk)
			prog.aux[path] = true
			return tp, nil
		}
		prog.Pkgs[path] = pk
		prog.Order = append(prog.Order, pk)
		return tp, nil
	}
	imp.f = check
	for _, t := range auxs {
		byPath[t.ImportPath] = t
	}
	for _, t := range targets {
		if _, err := check(t.ImportPath); err != nil {
			return nil, fmt.Errorf("type-checking %s: %v", t.ImportPath, err)
		}
	}
	if firstErr != nil {
		return nil, firstErr
	}

	prog.SSA = ssa.NewProgram(prog.Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createImports func(ps []*types.Package)
	createImports = func(ps []*types.Package) {
		for _, p := range ps {
			if created[p] {
				continue
			}
			created[p] = true
			if _, ok := prog.Pkgs[p.Path()]; ok || prog.aux[p.Path()] {
				createImports(p.Imports())
				continue
			}
			prog.SSA.CreatePackage(p, nil, nil, true)
			createImports(p.Imports())
		}
	}
	for _, p := range prog.Order {
		createImports(p.Types.Imports())
	}
	for _, p := range auxOrder {
		createImports(p.Types.Imports())
		p.SSA = prog.SSA.CreatePackage(p.Types, p.Files, p.Info, true)
	}
	for _, p := range prog.Order {
		p.SSA = prog.SSA.CreatePackage(p.Types, p.Files, p.Info, false)
	}
	prog.SSA.Build()
	prog.collectFuncs()
	return prog, nil
}

type srcImporter struct {
	f func(string) (*types.Package, error)
}

func (s *srcImporter) Import(path string) (*types.Package, error) { return s.f(path) }

func (p *Prog) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Order {
		var names []string
		for n := range pk.SSA.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pk.SSA.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				named, ok := m.Type().(*types.Named)
				if !ok || named.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(p.SSA.FuncValue(named.Method(i)))
				}
			}
		}
	}
}

// RelPos renders a position relative to the repository root.
func (p *Prog) RelPos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// PkgBySuffix returns the package whose import path is module + "/" + suffix ("" for the root package).
func (p *Prog) PkgBySuffix(suffix string) *Pkg {
	path := p.Module
	if suffix != "" {
		path += "/" + suffix
	}
	return p.Pkgs[path]
}

// ShortPkg strips the module path from a package path.
func (p *Prog) ShortPkg(path string) string {
	if path == p.Module {
		return "."
	}
	return strings.TrimPrefix(path, p.Module+"/")
}

// CallRef is one call site.
type CallRef struct {
	Caller *ssa.Function
	Instr  ssa.CallInstruction
}
