package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lesismal/arpc"

type World struct {
	dir          string
	pkgs         []*packages.Package
	prog         *ssa.Program
	fset         *token.FileSet
	spkg         map[string]*ssa.Package // by import path
	tt           *TermTab
	forms        map[string]lin
	nonNil       map[*Term]bool
	sitesC       map[*ssa.Function][]*ssa.CallCommon
	asValue      map[*ssa.Function]bool
	ownParams    map[string]bool
	fullTables   map[*types.Var]bool
	constGlobals map[*ssa.Global]bool
	closedFields map[*types.Var]bool
	handlerImpl  types.Type
	handlerIface types.Type
	analysed     map[*ssa.Function]bool
	allFns       []*ssa.Function
	npaths       int
	rolesC       *Roles
	valueC       map[*ssa.Function]bool
	writesC      map[*ssa.Function]map[*types.Var]bool
	usersC       map[*ssa.Function][]*ssa.Function
	callersC     map[*ssa.Function][]*ssa.Function
}

func loadWorld(dir, modfile string) (*World, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")
	flags := "-mod=readonly"
	if modfile != "" {
		flags += " -modfile=" + modfile
	}
	env = append(env, "GOFLAGS="+flags)
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	if f, content, ok := strings.Cut(overlay, "="); ok {
		b, err := os.ReadFile(content)
		if err != nil {
			return nil, err
		}
		cfg.Overlay = map[string][]byte{f: b}
	}
	pkgs, err := packages.Load(cfg, ".", "./codec", "./log", "./util", "./extension/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	// language version of the repository's own go.mod (decides loop-variable scope)
	ver := goDirective(dir + "/go.mod")
	for _, p := range pkgs {
		if p.TypesInfo != nil && p.TypesInfo.FileVersions != nil && ver != "" {
			for f := range p.TypesInfo.FileVersions {
				p.TypesInfo.FileVersions[f] = ver
			}
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: dir, pkgs: pkgs, prog: prog, fset: pkgs[0].Fset, spkg: map[string]*ssa.Package{}, tt: newTermTab(),
		forms: map[string]lin{}, nonNil: map[*Term]bool{}, constGlobals: map[*ssa.Global]bool{}, closedFields: map[*types.Var]bool{}, analysed: map[*ssa.Function]bool{}}
	for _, p := range sp {
		if p != nil {
			w.spkg[p.Pkg.Path()] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.inModule(fn) && len(fn.Blocks) > 0 {
			w.allFns = append(w.allFns, fn)
		}
	}
	sort.Slice(w.allFns, func(i, j int) bool {
		if w.allFns[i].Pos() != w.allFns[j].Pos() {
			return w.allFns[i].Pos() < w.allFns[j].Pos()
		}
		return w.allFns[i].String() < w.allFns[j].String()
	})
	w.prepare()
	return w, nil
}

func goDirective(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			return "go" + f[1]
		}
	}
	return ""
}

func (w *World) prepare() {
	root := w.spkg[modPath]
	// globals that are only written by package initialisation
	written := map[*ssa.Global]bool{}
	for _, fn := range w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" {
						written[g] = true
					}
				}
				if c, ok := in.(*ssa.Call); ok {
					w.noteClose(&c.Call)
				}
				if c, ok := in.(*ssa.Defer); ok {
					w.noteClose(&c.Call)
				}
			}
		}
	}
	w.spreadClosed()
	for _, p := range w.spkg {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !written[g] && isErrorType(deref(g.Type())) {
				w.constGlobals[g] = true
			}
		}
	}
	if root != nil {
		if o := root.Pkg.Scope().Lookup("Handler"); o != nil {
			w.handlerIface = o.Type()
			iface, _ := o.Type().Underlying().(*types.Interface)
			for _, n := range root.Pkg.Scope().Names() {
				tn, ok := root.Pkg.Scope().Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) || iface == nil {
					continue
				}
				if p := types.NewPointer(tn.Type()); types.Implements(p, iface) {
					w.handlerImpl = p
				}
			}
		}
	}
}

// spreadClosed: a channel field filled from a closable one (directly or through a parameter) is closable as well.
func (w *World) spreadClosed() {
	args := map[*ssa.Parameter][]ssa.Value{}
	type fill struct {
		f *types.Var
		v ssa.Value
	}
	var fills []fill
	for _, fn := range w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && len(g.Params) == len(ci.Common().Args) {
						for i, a := range ci.Common().Args {
							if _, ok := a.Type().Underlying().(*types.Chan); ok {
								args[g.Params[i]] = append(args[g.Params[i]], a)
							}
						}
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Chan); !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					fills = append(fills, fill{deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field), st.Val})
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range fills {
			if w.closedFields[f.f] {
				continue
			}
			seen := map[ssa.Value]bool{}
			var back func(v ssa.Value) bool
			back = func(v ssa.Value) bool {
				if seen[v] {
					return false
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						return w.closedFields[deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)]
					}
				case *ssa.Field:
					return w.closedFields[x.X.Type().Underlying().(*types.Struct).Field(x.Field)]
				case *ssa.ChangeType:
					return back(x.X)
				case *ssa.Phi:
					for _, e := range x.Edges {
						if back(e) {
							return true
						}
					}
				case *ssa.Parameter:
					for _, a := range args[x] {
						if back(a) {
							return true
						}
					}
				}
				return false
			}
			if back(f.v) {
				w.closedFields[f.f] = true
				again = true
			}
		}
	}
}

// trace a value back through loads/phis/ranges to struct fields whose channel it is.
func (w *World) noteClose(c *ssa.CallCommon) {
	b, ok := c.Value.(*ssa.Builtin)
	if !ok || b.Name() != "close" {
		return
	}
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				st := deref(fa.X.Type()).Underlying().(*types.Struct)
				w.closedFields[st.Field(fa.Field)] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.Field:
			st := x.X.Type().Underlying().(*types.Struct)
			w.closedFields[st.Field(x.Field)] = true
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.Parameter:
			// a helper closing its argument: every caller's argument
			idx := -1
			for i, p := range x.Parent().Params {
				if p == x {
					idx = i
				}
			}
			for _, fn := range w.allFns {
				for _, bl := range fn.Blocks {
					for _, in := range bl.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() && idx >= 0 && idx < len(ci.Common().Args) {
							back(ci.Common().Args[idx])
						}
					}
				}
			}
		}
	}
	back(c.Args[0])
}

func (w *World) inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	p := fn.Pkg
	if p == nil {
		if fn.Origin() != nil {
			return w.inModule(fn.Origin())
		}
		if fn.Parent() != nil {
			return w.inModule(fn.Parent())
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return w.modPkg(fn.Object().Pkg())
		}
		// synthetic wrapper
		if len(fn.Blocks) > 0 && fn.Synthetic != "" {
			return true
		}
		return false
	}
	return w.modPkg(p.Pkg)
}

func (w *World) modPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (w *World) isLogPkg(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/log"
}

func (w *World) opaquePkg(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return p == modPath+"/log" || p == modPath+"/codec"
}

func (w *World) devirt(t types.Type) types.Type {
	if w.handlerIface != nil && types.Identical(t, w.handlerIface) {
		return w.handlerImpl
	}
	return nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	return strings.TrimPrefix(q.Filename, w.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// Fn finds a function or method: Fn("", "NewClient"), Fn("", "Client.Call") , Fn("extension/pubsub", "Server.Publish")
func (w *World) Fn(pkg, name string) *ssa.Function {
	pp := modPath
	if pkg != "" {
		pp += "/" + pkg
	}
	sp := w.spkg[pp]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := sp.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.IsInterface(t) || types.NewMethodSet(t).Lookup(sp.Pkg, name[i+1:]) == nil {
				continue
			}
			if f := w.prog.LookupMethod(t, sp.Pkg, name[i+1:]); f != nil {
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

// HFn: method of the Handler implementation.
func (w *World) HFn(name string) *ssa.Function {
	if w.handlerImpl == nil {
		return nil
	}
	if types.NewMethodSet(w.handlerImpl).Lookup(w.spkg[modPath].Pkg, name) == nil {
		return nil
	}
	return w.prog.LookupMethod(w.handlerImpl, w.spkg[modPath].Pkg, name)
}

func (w *World) Type(pkg, name string) types.Type {
	pp := modPath
	if pkg != "" {
		pp += "/" + pkg
	}
	sp := w.spkg[pp]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// fieldsWhere lists fields of struct t satisfying p.
func fieldsWhere(t types.Type, p func(*types.Var) bool) []*types.Var {
	var out []*types.Var
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if p(s.Field(i)) {
				out = append(out, s.Field(i))
			}
		}
	}
	return out
}

func fieldNamed(t types.Type, name string) *types.Var {
	for _, v := range fieldsWhere(t, func(v *types.Var) bool { return v.Name() == name }) {
		return v
	}
	return nil
}

var _ = ast.IsExported

// isHandlerMethod: a method of the library's Handler implementation.
func (w *World) isHandlerMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && w.handlerImpl != nil && types.Identical(r.Type(), w.handlerImpl)
}
