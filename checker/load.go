package main

// Loading: every Go module of /repo is listed with the project's own toolchain (go list -deps, offline),
// parsed and type-checked from source (dependencies without function bodies), and put in SSA form.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/ConsenSys/fc-retrieval/"

var repoDir = "/repo"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
	Module     *struct{ GoVersion string }
}

type Universe struct {
	unplain map[fieldID]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	Name    string // module directory name
	Fset    *token.FileSet
	Prog    *ssa.Program
	Pkgs    []*ssa.Package // repo packages (with bodies), incl. those of replaced modules
	Roots   map[*ssa.Package]bool
	Types   map[string]*types.Package
	Infos   map[*types.Package]*types.Info
	Files   map[*types.Package][]*ast.File
	Funcs   []*ssa.Function // all repo functions incl. anonymous
	byName  map[string]*ssa.Function
	impls   map[string][]*ssa.Function
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "GOWORK", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "PATH", "CGO_ENABLED", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	goBin := "/opt/veriftools/go1.23.12/bin"
	if _, err := os.Stat(goBin); err != nil {
		goBin = ""
	}
	env = append(env, "PATH="+goBin+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1")
	return env
}

func goListCmd(dir string, args ...string) ([]byte, error) {
	exe := "/opt/veriftools/go1.23.12/bin/go"
	if _, err := os.Stat(exe); err != nil {
		exe = "go"
	}
	var out []byte
	for _, mod := range []string{"-mod=readonly", "-mod=mod"} {
		cmd := exec.Command(exe, args...)
		cmd.Dir = dir
		env := goEnv()
		env = append(env, "GOFLAGS="+mod)
		cmd.Env = env
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if err == nil {
			return so.Bytes(), nil
		}
		out = so.Bytes()
		if mod == "-mod=mod" {
			return out, fmt.Errorf("go %v in %s: %v: %s", args, dir, err, se.String())
		}
	}
	return out, nil
}

var modulePatterns = map[string][]string{
	"common": {"./..."}, "client": {"./..."}, "gateway-admin": {"./..."}, "provider-admin": {"./..."},
	"gateway": {"./..."}, "provider": {"./..."}, "register": {"./..."},
	"itest": {"./config", "./demo/...", "./scripts/..."},
}

func LoadUniverse(mod string) (*Universe, error) {
	dir := filepath.Join(repoDir, mod)
	args := append([]string{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,ImportMap,Standard,DepOnly,Error,Module"}, modulePatterns[mod]...)
	out, err := goListCmd(dir, args...)
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	pk := map[string]*listPkg{}
	var order []*listPkg
	for dec.More() {
		p := new(listPkg)
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		pk[p.ImportPath] = p
		order = append(order, p)
	}
	u := &Universe{Name: mod, Fset: token.NewFileSet(), Types: map[string]*types.Package{}, Infos: map[*types.Package]*types.Info{}, Files: map[*types.Package][]*ast.File{}, Roots: map[*ssa.Package]bool{}, byName: map[string]*ssa.Function{}}
	// parse in parallel
	type parsed struct {
		files []*ast.File
		err   error
	}
	res := make(map[string]*parsed)
	var mu sync.Mutex
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, p := range order {
		if p.ImportPath == "unsafe" {
			continue
		}
		isRepo := strings.HasPrefix(p.ImportPath, repoPrefix)
		if p.Error != nil && isRepo {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		wg.Add(1)
		go func(p *listPkg) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			pr := &parsed{}
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				mode := parser.SkipObjectResolution
				if isRepo {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(u.Fset, filepath.Join(p.Dir, f), nil, mode)
				if err != nil && isRepo {
					pr.err = err
				}
				if af != nil {
					if !isRepo {
						stripBodies(af)
					}
					pr.files = append(pr.files, af)
				}
			}
			mu.Lock()
			res[p.ImportPath] = pr
			mu.Unlock()
		}(p)
	}
	wg.Wait()
	u.Prog = ssa.NewProgram(u.Fset, ssa.InstantiateGenerics)
	sizes := types.SizesFor("gc", "amd64")
	for _, p := range order { // go list -deps: dependencies first
		if p.ImportPath == "unsafe" {
			u.Types["unsafe"] = types.Unsafe
			continue
		}
		isRepo := strings.HasPrefix(p.ImportPath, repoPrefix)
		pr := res[p.ImportPath]
		if pr.err != nil {
			return nil, fmt.Errorf("%s: %v", p.ImportPath, pr.err)
		}
		var firstErr error
		conf := types.Config{
			Sizes:            sizes,
			FakeImportC:      true,
			IgnoreFuncBodies: !isRepo,
			Error: func(err error) {
				if firstErr == nil {
					firstErr = err
				}
			},
			Importer: importerFunc(func(path string) (*types.Package, error) {
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if t := u.Types[path]; t != nil {
					return t, nil
				}
				return nil, fmt.Errorf("no package %s", path)
			}),
		}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		var info *types.Info
		if isRepo {
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
				Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
		}
		tp, _ := conf.Check(p.ImportPath, u.Fset, pr.files, info)
		if firstErr != nil && isRepo {
			return nil, fmt.Errorf("type-check %s: %v", p.ImportPath, firstErr)
		}
		u.Types[p.ImportPath] = tp
		if isRepo {
			sp := u.Prog.CreatePackage(tp, pr.files, info, true)
			u.Pkgs = append(u.Pkgs, sp)
			u.Infos[tp] = info
			u.Files[tp] = pr.files
			if !p.DepOnly {
				u.Roots[sp] = true
			}
		} else {
			u.Prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, sp := range u.Pkgs {
		sp.Build()
	}
	u.collect()
	return u, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func stripBodies(f *ast.File) {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			fd.Body = nil
		}
	}
}

func (u *Universe) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		u.Funcs = append(u.Funcs, f)
		u.byName[FuncName(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range u.Pkgs {
		names := make([]string, 0, len(sp.Members))
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(u.Prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
}

// FuncName gives a short stable name: common/pkg/x.(T).M or gateway/internal/y.F ; anonymous functions get parent$n.
func FuncName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Parent() != nil {
		return FuncName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	obj := f.Object()
	if obj == nil || obj.Pkg() == nil {
		return f.String()
	}
	p := shortPkg(obj.Pkg().Path())
	if r := f.Signature.Recv(); r != nil {
		return p + ".(" + typeBase(r.Type()) + ")." + f.Name()
	}
	return p + "." + f.Name()
}

func shortPkg(p string) string { return strings.TrimPrefix(p, repoPrefix) }

func typeBase(t types.Type) string {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Named:
			return x.Obj().Name()
		case *types.Alias:
			t = types.Unalias(x)
			continue
		}
		return t.String()
	}
}

func typeFull(t types.Type) string {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Alias:
			t = types.Unalias(x)
			continue
		case *types.Named:
			if x.Obj().Pkg() == nil {
				return x.Obj().Name()
			}
			return shortPkg(x.Obj().Pkg().Path()) + "." + x.Obj().Name()
		}
		return t.String()
	}
}

func isRepoFunc(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoPrefix)
}

func (u *Universe) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := u.Fset.Position(p)
	f := pp.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// Implementations resolves an interface method to the repo's concrete methods (test doubles excluded: they are not in non-test packages, except packages named mock*).
func (u *Universe) Implementations(recv types.Type, name string) []*ssa.Function {
	it, ok := recv.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := recv.String() + "." + name
	if u.impls == nil {
		u.impls = map[string][]*ssa.Function{}
	}
	if r, ok := u.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, sp := range u.Pkgs {
		if strings.Contains(sp.Pkg.Path(), "mock") {
			continue
		}
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			t := tm.Type()
			if types.IsInterface(t) {
				continue
			}
			nt, ok := t.(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			var rt types.Type
			if types.Implements(t, it) {
				rt = t
			} else if types.Implements(types.NewPointer(t), it) {
				rt = types.NewPointer(t)
			} else {
				continue
			}
			ms := u.Prog.MethodSets.MethodSet(rt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					f := u.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic != "" && f.Object() != nil {
						if g := u.Prog.FuncValue(f.Object().(*types.Func)); g != nil && g.Blocks != nil {
							f = g
						}
					}
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	u.impls[key] = out
	return out
}

// Callee resolves a call: static callee, or the unique repo implementation of an interface method.
func (u *Universe) Callee(c ssa.CallInstruction) *ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		im := u.Implementations(cc.Value.Type(), cc.Method.Name())
		if len(im) == 1 {
			return im[0]
		}
		return nil
	}
	return cc.StaticCallee()
}

// CalleeName: qualified name of the called function or interface method ("" when dynamic).
func (u *Universe) CalleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return typeFull(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return FuncFull(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// FuncFull: pkg.F or pkg.T.M with repo prefix stripped.
func FuncFull(f *ssa.Function) string {
	if f.Parent() != nil {
		return FuncName(f)
	}
	obj := f.Object()
	if obj == nil || obj.Pkg() == nil {
		return f.String()
	}
	p := shortPkg(obj.Pkg().Path())
	if r := f.Signature.Recv(); r != nil {
		return p + "." + typeBase(r.Type()) + "." + f.Name()
	}
	return p + "." + f.Name()
}
