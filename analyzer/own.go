package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sites: every static call of fn in the module; ok is false if fn is also used as a value or may be called from elsewhere.
func (w *World) sites(fn *ssa.Function) ([]*ssa.CallCommon, bool) {
	if w.sitesC == nil {
		w.sitesC = map[*ssa.Function][]*ssa.CallCommon{}
		w.asValue = map[*ssa.Function]bool{}
		var buf [16]*ssa.Value
		for _, f := range w.allFns {
			if f.Synthetic != "" && f.Parent() == nil && !strings.HasPrefix(f.Name(), "init") {
				continue // wrappers of promoted methods
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var cc *ssa.CallCommon
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc = ci.Common()
						if g := cc.StaticCallee(); g != nil {
							w.sitesC[g] = append(w.sitesC[g], cc)
						}
					}
					for _, op := range in.Operands(buf[:0]) {
						if g, ok := (*op).(*ssa.Function); ok && (cc == nil || op != &cc.Value) {
							w.asValue[g] = true
						}
					}
				}
			}
		}
	}
	s := w.sitesC[fn]
	return s, len(s) > 0 && !w.asValue[fn] && fn.Object() != nil && !token.IsExported(fn.Name())
}

// ownFuncParam: the parameter, of an internal helper, only ever receives functions written in this module:
// what they do is seen where the helper is called.
func (w *World) ownFuncParam(t *Term) bool {
	if t == nil || t.op != "param" {
		return false
	}
	if w.ownParams == nil {
		w.ownParams = map[string]bool{}
		not := map[string]bool{}
		for _, f := range w.allFns {
			if !takesFunc(f) || f.Synthetic != "" && f.Parent() == nil {
				continue
			}
			sites, closed := w.sites(f)
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				own := closed
				for _, cc := range sites {
					if i >= len(cc.Args) {
						own = false
						continue
					}
					if g := funcOf(cc.Args[i]); g == nil || !w.inModule(g) && g.Parent() == nil {
						own = false
					}
				}
				name := w.ParamTerm(f, i, p.Type()).s
				if own {
					w.ownParams[name] = true
				} else {
					not[name] = true
				}
			}
		}
		for n := range not {
			delete(w.ownParams, n)
		}
	}
	return w.ownParams[t.s]
}

// fullTable: the values of the table in this field are never nil.
func (w *World) fullTable(v *types.Var) bool {
	if v == nil {
		return false
	}
	if w.fullTables == nil {
		w.fullTables = map[*types.Var]bool{}
	}
	if r, ok := w.fullTables[v]; ok {
		return r
	}
	w.fullTables[v] = true // by induction
	mt, ok := v.Type().Underlying().(*types.Map)
	res := ok
	if ok {
		if _, isP := mt.Elem().Underlying().(*types.Pointer); !isP {
			res = false
		}
	}
	n := 0
	if res {
		for _, f := range w.allFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.MapUpdate)
					if !ok || !types.Identical(u.Map.Type().Underlying(), mt) {
						continue
					}
					n++
					if !w.neverNil(u.Value, mt, 0) {
						res = false
					}
				}
			}
		}
	}
	res = res && n > 0
	w.fullTables[v] = res
	return res
}

// neverNil: the value is a pointer to something on every path; entries of tables of type mt are taken to be.
func (w *World) neverNil(v ssa.Value, mt *types.Map, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
		return true
	case *ssa.ChangeType:
		return w.neverNil(x.X, mt, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !w.neverNil(e, mt, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return types.Identical(rg.X.Type().Underlying(), mt)
			}
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			return false
		}
		if c, ok := x.X.(*ssa.Call); ok {
			g := c.Call.StaticCallee()
			return g != nil && strings.HasSuffix(g.String(), "sync.Pool).Get")
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !w.neverNil(ret.Results[0], mt, depth+1) {
					return false
				}
				n++
			}
		}
		return n > 0
	case *ssa.Parameter:
		f := x.Parent()
		sites, ok := w.sites(f)
		if !ok {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, cc := range sites {
				if i >= len(cc.Args) || !w.neverNil(cc.Args[i], mt, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}
