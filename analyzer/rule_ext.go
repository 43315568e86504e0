package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = ruleC31
}

// ---- C31 ---------------------------------------------------------------------

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

// flagLike: a field that can say "begun".
func flagLike(v *types.Var) bool {
	if isBool(v.Type()) || isIntType(v.Type()) {
		return true
	}
	for _, n := range []string{"sync/atomic.Bool", "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64"} {
		if isNamed(v.Type(), n) {
			return true
		}
	}
	return false
}

// isSet: the value says "begun" / "not begun".
func (p *Path) isSet(t *Term) (val, known bool) {
	if t == nil {
		return false, false
	}
	if t.typ != nil && isIntType(t.typ) {
		lo, hi := p.rng(t)
		if lo == 0 && hi == 0 {
			return false, true
		}
		if lo > 0 || hi < 0 {
			return true, true
		}
		v, k := p.truth(p.ex.cmpEq(t, p.ex.tt.Int(0)))
		return !v, k
	}
	return p.truth(t)
}

func ruleC31(c *Check) {
	c.rule("admit", "the middleware runs the next handler only after it registered the request with the wait group, atomically with having seen that the shutdown has not begun")
	c.rule("leave", "every registration is undone exactly once, after the handler, also if it panics")
	c.rule("refuse", "a request that finds the shutdown begun is answered with the shutting-down error, and the chain is aborted without running the next handler")
	c.rule("shutdown", "Shutdown marks the beginning before it waits on the same wait group, holds no lock while waiting, and nothing ever takes the mark back")
	w := c.w
	pkg := "extension/middleware/router"
	t := w.Type(pkg, "Graceful")
	hd, sd := w.Fn(pkg, "Graceful.Handler"), w.Fn(pkg, "Graceful.Shutdown")
	if t == nil || !c.need(hd, "Graceful.Handler") || !c.need(sd, "Graceful.Shutdown") {
		return
	}
	flags := map[*types.Var]bool{}
	for _, v := range fieldsWhere(t, flagLike) {
		flags[v] = true
	}
	o := c.extOpts()
	o.KeepLoads = true
	v0 := o.Volatile
	o.Volatile = func(a *Term) bool { return v0(a) || flags[a.fieldVar()] }
	isNext := func(e *Event) bool { return isCall(e, "arpc.Context).Next") }
	flagLoad := func(e *Event) (*Term, bool) {
		if len(e.Args) == 0 || !flags[e.Args[0].fieldVar()] {
			return nil, false
		}
		return e.Args[0].args[0], e.Kind == "load" || e.Kind == "atomic" && e.Name == "load"
	}
	wgOf := func(e *Event, m string) *Term {
		if isCall(e, "sync.WaitGroup)."+m) && e.Args[0].op == "field" {
			return e.Args[0].args[0]
		}
		return nil
	}
	ex := c.explore("Graceful.Handler", hd, o)
	n := 0
	for _, hp := range ex.paths {
		ret := hp.events[len(hp.events)-1]
		if ret.Kind != "return" || len(ret.Args) != 1 {
			c.bad("admit", "Graceful.Handler", hd.Pos(), hp, "Graceful.Handler does not return a handler on every path")
			continue
		}
		fn := c.closureOf(ret.Args[0])
		if fn == nil {
			c.bad("admit", "Graceful.Handler", ret.Pos, hp, "Graceful.Handler returns a handler that cannot be followed")
			continue
		}
		n++
		for _, panics := range []bool{false, true} {
			oo := o
			name := "middleware"
			if ret.Args[0].op == "closure" {
				oo.Bind = ret.Args[0].args
			}
			prev := oo.Init
			mem := hp.mem
			oo.Init = func(ex *Ex, st *State) {
				if prev != nil {
					prev(ex, st)
				}
				for k, v := range mem {
					st.mem[k] = v
				}
			}
			if panics {
				oo.PanicAt = isNext
				name = "middleware, handler panics"
			}
			mx := c.explore("Graceful.Handler "+name, fn, oo)
			g := ex.ParamTerms(hd)[0]
			for _, p := range mx.paths {
				if p.done == "cut" {
					continue
				}
				c.graceful(p, fn, g, isNext, flagLoad, wgOf)
			}
		}
	}
	if n == 0 {
		c.bad("anchor", "Graceful.Handler", hd.Pos(), nil, "no middleware handler was found")
	}
	// Shutdown
	sx := c.explore("Graceful.Shutdown", sd, o)
	g := sx.ParamTerms(sd)[0]
	for _, p := range sx.paths {
		c.ob("shutdown paths")
		if p.done != "return" {
			c.bad("shutdown", "Graceful.Shutdown ends", sd.Pos(), p, "Graceful.Shutdown does not return on every path")
			continue
		}
		marked, waited := -1, -1
		for i, e := range p.events {
			if (e.Kind == "store" || e.Kind == "atomic" && (e.Name == "store" || e.Name == "swap" || e.Name == "cas")) && len(e.Args) > 1 && flags[e.Args[0].fieldVar()] && e.Args[0].args[0] == g {
				v := e.Args[len(e.Args)-1]
				if e.Name == "cas" && e.Chosen == 1 {
					marked = i // it was marked already
					continue
				}
				if s, k := p.isSet(v); k && s {
					if e.Kind == "store" && !exclusive(p, i, g) {
						c.bad("shutdown", "Graceful.Shutdown mark", e.Pos, p, "the beginning of the shutdown is marked without excluding a request that is just being admitted")
					}
					if marked < 0 {
						marked = i
					}
				}
			}
			if wgOf(e, "Wait") == g {
				waited = i
				if len(critSection(p, i)) > 0 {
					c.bad("shutdown", "Graceful.Shutdown lock", e.Pos, p, "Shutdown waits while it holds a lock requests need to be refused")
				}
			}
			if wgOf(e, "Add") != nil || wgOf(e, "Done") != nil {
				c.bad("shutdown", "Graceful.Shutdown count", e.Pos, p, "Shutdown changes the number of registered requests")
			}
		}
		if marked < 0 {
			c.bad("shutdown", "Graceful.Shutdown mark", sd.Pos(), p, "Shutdown may return without having marked its beginning")
		} else if waited < marked {
			c.bad("shutdown", "Graceful.Shutdown wait", sd.Pos(), p, "Shutdown does not wait for the registered requests after it marked its beginning")
		}
	}
	// the mark is never taken back, and nobody else counts
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && flags[structOf(fa.X.Type()).Field(fa.Field)] {
						c.ob("marks")
						if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && (k.Value.String() == "false" || k.Value.String() == "0") {
							c.bad("shutdown", shortName(f.String())+" unmark", x.Pos(), nil, "%s takes back the mark that the shutdown has begun", shortName(f.String()))
						}
					}
				case *ssa.FieldAddr:
					v := structOf(x.X.Type()).Field(x.Field)
					if !isNamed(v.Type(), "sync.WaitGroup") || !types.Identical(deref(x.X.Type()), t) {
						continue
					}
					root := f
					for root.Parent() != nil {
						root = root.Parent()
					}
					c.ob("uses of the wait group")
					if !c.within(root, map[*ssa.Function]bool{hd: true, sd: true}) {
						c.bad("leave", shortName(f.String())+" wait group", x.Pos(), nil, "%s uses the wait group outside the middleware and Shutdown", shortName(f.String()))
					}
				}
			}
		}
	}
	c.floor("requests admitted", 2)
	c.floor("requests refused", 1)
	c.floor("shutdown paths", 1)
}

func (c *Check) graceful(p *Path, fn *ssa.Function, g *Term, isNext func(*Event) bool, flagLoad func(*Event) (*Term, bool), wgOf func(*Event, string) *Term) {
	adds, dones, next := 0, 0, -1
	add := -1
	refused, abort := 0, 0
	seen := -1 // last flag read
	seenVal := false
	for i, e := range p.events {
		if o, ok := flagLoad(e); ok && o == g && next < 0 {
			if v, k := p.isSet(e.Res); k {
				seen, seenVal = i, v
			}
		}
		switch {
		case wgOf(e, "Add") == g:
			if k, ok := e.Args[1].IntVal(); ok && k == 1 {
				adds++
				add = i
			} else if ok && k == -1 {
				dones++
			} else {
				c.bad("leave", "middleware count", e.Pos, p, "the middleware registers something else than one request")
			}
		case wgOf(e, "Done") == g:
			dones++
			if next >= 0 && e.Pos.IsValid() && i < next {
				c.bad("leave", "middleware early", e.Pos, p, "the request is taken off the wait group before its handler ran")
			}
		case isNext(e):
			if next >= 0 {
				c.bad("admit", "middleware twice", e.Pos, p, "the next handler is run twice")
			}
			next = i
			c.ob("requests admitted")
			if adds-dones != 1 {
				c.bad("admit", "middleware registered", e.Pos, p, "the next handler runs without being registered with the wait group")
				continue
			}
			switch {
			case seen < 0 || seenVal:
				c.bad("admit", "middleware check", e.Pos, p, "the next handler runs without having seen that the shutdown has not begun")
			case sameSection(p, min(seen, add), max(seen, add), g):
			case add < seen && (p.events[seen].Kind == "atomic" || len(critSection(p, seen)) > 0):
			default:
				c.bad("admit", "middleware window", e.Pos, p, "between the check for the shutdown and the registration of the request a shutdown can begin and finish")
			}
		case isCall(e, "arpc.Context).Error"):
			if len(e.Args) == 2 && strings.Contains(e.Args[1].String(), "ErrShutdown") {
				refused++
			}
		case isCall(e, "arpc.Context).Abort"):
			abort++
		case e.Kind == "go":
			c.bad("leave", "middleware goroutine", e.Pos, p, "the middleware hands the request to another goroutine")
		}
	}
	if adds != dones {
		c.bad("leave", "middleware balance", fn.Pos(), p, "a request is registered %d times but taken off %d times", adds, dones)
	}
	if next >= 0 {
		if refused > 0 {
			c.bad("refuse", "middleware both", fn.Pos(), p, "a request is both handled and refused")
		}
		return
	}
	c.ob("requests refused")
	if seen < 0 || !seenVal {
		c.bad("admit", "middleware drops", fn.Pos(), p, "a request is not handed on although the shutdown has not been seen to begin")
	}
	if refused != 1 {
		c.bad("refuse", "middleware answer", fn.Pos(), p, "a refused request is not answered with the shutting-down error")
	}
	if abort == 0 {
		c.bad("refuse", "middleware abort", fn.Pos(), p, "after a refusal the handlers behind the middleware still run")
	}
}

// within: f is used (called or passed on) only below one of the roots.
func (c *Check) within(f *ssa.Function, roots map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if roots[f] || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return rec(f.Parent())
		}
		if token.IsExported(f.Name()) && f.Synthetic == "" {
			return false
		}
		n := 0
		for _, g := range c.users(f) {
			if g.Synthetic != "" && g.Parent() == nil {
				continue
			}
			n++
			if !rec(g) {
				return false
			}
		}
		return n > 0
	}
	return rec(f)
}

// users: the functions that mention f.
func (c *Check) users(f *ssa.Function) []*ssa.Function {
	w := c.w
	if w.usersC == nil {
		w.usersC = map[*ssa.Function][]*ssa.Function{}
		for _, g := range w.allFns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						h := funcOf(*op)
						if h == nil {
							h = unboundOf(*op)
						} else {
							h = unbound(h)
						}
						if h != nil {
							w.usersC[h] = append(w.usersC[h], g)
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if h := ci.Common().StaticCallee(); h != nil {
							w.usersC[h] = append(w.usersC[h], g)
						}
					}
				}
			}
		}
	}
	return dedupFns(w.usersC[f])
}
