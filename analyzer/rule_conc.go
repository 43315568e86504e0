package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = ruleC10
	checks["C11"] = ruleC11
	checks["C12"] = ruleC12
}

// conc: per-function summaries used to keep explorations small.
type conc struct {
	c      *Check
	byName map[string]*ssa.Function
	esc    map[*ssa.Function]int // 1 running, 2 no, 3 yes
	acq    map[*ssa.Function]map[*types.Var]bool
	why    map[*ssa.Function]string
	inl    map[*ssa.Function]bool // helpers that leave locks changed: always inlined
}

func (c *Check) conc() *conc {
	k := &conc{c: c, byName: map[string]*ssa.Function{}, esc: map[*ssa.Function]int{}, acq: map[*ssa.Function]map[*types.Var]bool{}, why: map[*ssa.Function]string{}, inl: map[*ssa.Function]bool{}}
	for _, f := range c.w.allFns {
		k.byName[f.String()] = f
	}
	return k
}

func takesFunc(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// libFunc: the called function value was produced by code outside the module (a context's cancel function).
func (c *Check) libFunc(t *Term) bool {
	for t != nil && t.op == "extract" && len(t.args) > 0 {
		t = t.args[0]
	}
	if t != nil && t.op == "call" {
		return !strings.Contains(t.s, modPath)
	}
	return c.w.ownFuncParam(t)
}

// userCall: the event runs user-supplied code.
func (c *Check) userCall(e *Event) bool {
	switch e.Kind {
	case "dyn":
		return len(e.Args) == 0 || !c.libFunc(e.Args[0])
	case "call":
		return strings.Contains(e.Name, "arpc.MessageCoder).")
	}
	return false
}

func (k *conc) opaque(f *ssa.Function) bool {
	if k.inl[f] || takesFunc(f) || f.Parent() != nil || len(f.Blocks) == 0 {
		return false
	}
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") || f.Synthetic != "" && strings.Contains(f.Synthetic, "bound") {
		return false
	}
	return !callsRecover(f)
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bl, ok := ci.Common().Value.(*ssa.Builtin); ok && bl.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// panics: the event may raise a panic out of user code (directly or out of a summarised callee).
func (k *conc) panics(e *Event) bool {
	if k.c.userCall(e) {
		return true
	}
	if e.Kind == "call" {
		if f := k.byName[e.Name]; f != nil {
			return k.escapes(f)
		}
	}
	return false
}

func (k *conc) opts() Opts {
	o := k.c.std()
	o.ExecSpawn = false
	o.Opaque = k.opaque
	o.PanicAt = k.panics
	o.MaxLoop = 1
	return o
}

// escapes: a panic of user code run by fn can leave fn.
func (k *conc) escapes(fn *ssa.Function) bool {
	switch k.esc[fn] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	k.esc[fn] = 1
	src, _ := k.escapeFrom(fn, k.opts())
	if src != nil {
		k.esc[fn] = 3
		return true
	}
	k.esc[fn] = 2
	return false
}

func (k *conc) escapeFrom(fn *ssa.Function, o Opts) (*Event, *Path) {
	if o.Keep == nil {
		o.Keep = func(e *Event) bool { return e.Kind == "panic" || e.Kind == "recover" || e.Kind == "escape" || k.panics(e) }
	}
	ex := k.c.w.Explore(fn, o)
	k.c.entries[fnName(fn)] = len(ex.paths)
	if ex.over {
		k.c.over = append(k.c.over, fnName(fn))
	}
	for _, p := range ex.paths {
		if p.done != "panic" {
			continue
		}
		for i := len(p.events) - 1; i >= 0; i-- {
			if p.events[i].Kind == "panic" {
				return p.events[i], p
			}
		}
		return &Event{Kind: "panic", Pos: fn.Pos()}, p
	}
	return nil, nil
}

// asyncSite is a place where the library starts concurrent work.
type asyncSite struct {
	in    *ssa.Function
	instr ssa.Instruction
	cc    *ssa.CallCommon
	what  string
	root  *ssa.Function
	args  []*Term
	bind  []*Term
}

func (c *Check) asyncSites() []asyncSite {
	var out []asyncSite
	for _, fn := range c.w.allFns {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					s := asyncSite{in: fn, instr: in, cc: &x.Call, what: "goroutine"}
					c.fillSite(&s, x.Call.Value, x.Call.Args)
					if x.Call.IsInvoke() {
						if impl := c.w.devirt(x.Call.Value.Type()); impl != nil {
							s.root = c.w.prog.LookupMethod(impl, x.Call.Method.Pkg(), x.Call.Method.Name())
						}
					}
					out = append(out, s)
				case *ssa.Call:
					if t := x.Call.StaticCallee(); t != nil && t.String() == "time.AfterFunc" {
						s := asyncSite{in: fn, instr: in, cc: &x.Call, what: "timer function"}
						c.fillSite(&s, x.Call.Args[1], nil)
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

func (c *Check) fillSite(s *asyncSite, v ssa.Value, args []ssa.Value) {
	tt := c.w.tt
	free := func(f *ssa.Function) []*Term {
		var bs []*Term
		for _, fv := range f.FreeVars {
			bs = append(bs, tt.mk("free", f.String()+"."+fv.Name(), fv.Type(), nil))
		}
		return bs
	}
	f := funcOf(v)
	if f == nil {
		return
	}
	s.root = f
	for i, a := range args {
		if g := funcOf(a); g != nil {
			if len(g.FreeVars) > 0 {
				s.args = append(s.args, tt.mk("closure", g.String(), g.Type(), g, free(g)...))
			} else {
				s.args = append(s.args, tt.mk("fn", g.String(), g.Type(), g))
			}
		} else if i < len(f.Params) {
			s.args = append(s.args, c.w.ParamTerm(f, i, f.Params[i].Type()))
		}
	}
	s.bind = free(f)
}

func ruleC10(c *Check) {
	k := c.conc()
	c.rule("contained", "for every go statement and time.AfterFunc in the library, for the message dispatcher and for the accept loop: on no path does a panic raised by user code (a function value the library did not create, a message coder) leave the started function; callees are summarised by the same analysis")
	c.rule("unlocked", "a panic of user code that leaves a function holding library locks never leaves the outermost library function with a lock still held")
	c.rule("reader-survives", "a panic of a message handler does not leave the dispatcher, so the reading loop goes on")
	for _, s := range c.asyncSites() {
		c.ob("concurrent starts")
		name := s.what + " in " + fnName(s.in)
		if s.root == nil || len(s.root.Blocks) == 0 || !c.w.inModule(s.root) {
			if s.root != nil && !c.w.inModule(s.root) {
				continue // a library function of somebody else without user code
			}
			c.bad("contained", name, s.instr.Pos(), nil, "a %s runs a function value that is not known here without containing its panics", s.what)
			continue
		}
		o := k.opts()
		o.Args, o.Bind = s.args, s.bind
		if len(s.args) < len(s.root.Params) {
			o.Args = nil
		}
		if e, p := k.escapeFrom(s.root, o); e != nil {
			c.bad("contained", name, s.instr.Pos(), p, "a panic of user code (%s) leaves the %s started here and ends the process", c.w.pos(e.Pos), s.what)
		}
	}
	c.floor("concurrent starts", 15)
	om := c.w.HFn("OnMessage")
	if c.need(om, "Handler.OnMessage") {
		c.ob("dispatcher")
		if e, p := k.escapeFrom(om, k.opts()); e != nil {
			// contained one level up is as good, as long as the loop goes on
			if !c.readerContains(k, om) {
				c.bad("reader-survives", "Handler.OnMessage", e.Pos, p, "a panic of user code run for one message (%s) leaves the dispatcher, so the connection is no longer read", c.w.pos(e.Pos))
			}
		}
	}
	for _, n := range []string{"Server.Serve", "Server.Run"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		c.ob("accept loops")
		if e, p := k.escapeFrom(fn, k.opts()); e != nil {
			c.bad("contained", n, e.Pos, p, "a panic of user code (%s) ends the accept loop of %s", c.w.pos(e.Pos), n)
		}
	}
	if fn := c.w.Fn("extension/listener", "Listener.Run"); fn != nil {
		c.ob("accept loops")
		if e, p := k.escapeFrom(fn, k.opts()); e != nil {
			c.bad("contained", "listener.Run", e.Pos, p, "a panic of user code ends the accept loop of the splitting listener")
		}
	}
	// handlers and hooks the library itself installs run inside the dispatcher, nothing further to show for them
	c.lockPaths(k, func(fn *ssa.Function, p *Path, l *Term, pos token.Pos) {
		user := false
		for _, e := range p.events {
			user = user || e.Kind == "panic"
		}
		if user {
			c.bad("unlocked", fnName(fn)+" "+lockName(l), pos, p, "a panic of user code leaves %s with the lock %s still held", fnName(fn), lockName(l))
		}
	}, nil)
	c.floor("lock scopes", 25)
}

// readerContains: every reading loop survives a panic of the dispatcher.
func (c *Check) readerContains(k *conc, om *ssa.Function) bool {
	rec, _ := c.r.loops()
	if len(rec) == 0 {
		return false
	}
	for _, l := range rec {
		o := k.opts()
		o.PanicAt = func(e *Event) bool { return e.Kind == "call" && e.Name == om.String() }
		o.MaxLoop = 2
		o.Keep = func(e *Event) bool {
			return e.Kind == "panic" || e.Kind == "call" && strings.HasSuffix(e.Name, ").Recv")
		}
		ex := c.w.Explore(l, o)
		for _, p := range ex.paths {
			for i, e := range p.events {
				if e.Kind != "panic" {
					continue
				}
				again := p.done == "cut"
				for _, f := range p.events[i:] {
					if f.Kind == "call" {
						again = true
					}
				}
				if !again {
					return false
				}
			}
		}
	}
	return true
}

// ---- locks -------------------------------------------------------------------

func isLockEv(e *Event) bool {
	return e.Kind == "lock" || e.Kind == "rlock" || e.Kind == "unlock" || e.Kind == "runlock"
}

func lockName(l *Term) string {
	if v := l.fieldVar(); v != nil {
		b := l.args[0]
		if b.typ != nil {
			return shortName(typeKey(deref(b.typ))) + "." + v.Name()
		}
		return v.Name()
	}
	return shortName(l.String())
}

func mutexType(t types.Type) bool {
	s := typeKey(deref(t))
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func lockCall(cc *ssa.CallCommon) (string, ssa.Value) {
	t := cc.StaticCallee()
	if t == nil {
		return "", nil
	}
	switch t.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "acquire", cc.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return "release", cc.Args[0]
	}
	return "", nil
}

func lockVar(v ssa.Value) *types.Var {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return structOf(fa.X.Type()).Field(fa.Field)
	}
	return nil
}

// callees: module functions fn may run in the same goroutine (static and devirtualised calls, closures it creates).
func (w *World) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				onlyGo := true
				for _, r := range *mc.Referrers() {
					switch x := r.(type) {
					case *ssa.Go:
					case *ssa.Call:
						if t := x.Call.StaticCallee(); t == nil || t.String() != "time.AfterFunc" {
							onlyGo = false
						}
					default:
						onlyGo = false
					}
				}
				if !onlyGo {
					out = append(out, unbound(mc.Fn.(*ssa.Function)))
				}
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if t := cc.StaticCallee(); t != nil {
					out = append(out, unbound(t))
				} else if cc.IsInvoke() {
					if impl := w.devirt(cc.Value.Type()); impl != nil {
						if f := w.prog.LookupMethod(impl, cc.Method.Pkg(), cc.Method.Name()); f != nil {
							out = append(out, f)
						}
					}
				}
				for _, a := range cc.Args {
					if f, ok := a.(*ssa.Function); ok {
						out = append(out, f)
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range out {
		if f != nil && len(f.Blocks) > 0 && w.inModule(f) {
			r = append(r, f)
		}
	}
	return r
}

// closure over callees
func (w *World) reach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range w.callees(f) {
			rec(g)
		}
	}
	rec(fn)
	return seen
}

func (k *conc) acquires(fn *ssa.Function) map[*types.Var]bool {
	if m, ok := k.acq[fn]; ok {
		return m
	}
	m := map[*types.Var]bool{}
	for f := range k.c.w.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if kind, v := lockCall(ci.Common()); kind == "acquire" {
						if lv := lockVar(v); lv != nil {
							m[lv] = true
						}
					}
				}
			}
		}
	}
	k.acq[fn] = m
	return m
}

// lockFns: functions with lock operations of their own.
func (c *Check) lockFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.w.allFns {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if kind, _ := lockCall(ci.Common()); kind != "" {
						has = true
					}
				}
			}
		}
		if has {
			out = append(out, fn)
		}
	}
	return out
}

type heldLock struct {
	l  *Term
	ev *Event
}

// valueUses: functions used as values (stored, passed to code that is not followed, started as goroutines or timers).
func (c *Check) valueUses() map[*ssa.Function]bool {
	if c.w.valueC != nil {
		return c.w.valueC
	}
	out := map[*ssa.Function]bool{}
	c.w.valueC = out
	for _, fn := range c.w.allFns {
		if fn.Synthetic != "" && fn.Parent() == nil && fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				followed := false
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					_, isGo := in.(*ssa.Go)
					if t := ci.Common().StaticCallee(); t != nil && !isGo {
						followed = len(t.Blocks) > 0 && c.w.inModule(t) && !c.w.opaquePkg(t) && onlyCalls(t) || t.String() == "(*sync.Once).Do"
					}
					if isGo {
						if t := ci.Common().StaticCallee(); t != nil {
							out[t] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callee = mc.Fn
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if f := funcOf(*op); f != nil && !followed {
						if _, isMC := in.(*ssa.ChangeType); isMC {
							continue
						}
						out[unbound(f)] = true
						out[f] = true
					}
				}
			}
		}
	}
	return out
}

// onlyCalls: fn does nothing with the functions it is given but call them.
func onlyCalls(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		for _, r := range *p.Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				if x.Call.Value != p {
					return false
				}
			case *ssa.Defer:
				if x.Call.Value != p {
					return false
				}
			case *ssa.DebugRef, *ssa.BinOp:
			default:
				return false
			}
		}
	}
	return true
}

// outermost: nobody in the module can be relied on to finish what fn leaves undone.
func (c *Check) outermost(fn *ssa.Function) bool {
	if c.valueUses()[fn] {
		return true
	}
	if fn.Parent() != nil {
		return false
	}
	if o := fn.Object(); o != nil && o.Exported() {
		return true
	}
	return len(c.w.callers(fn)) == 0
}

// lockPaths explores every lock scope: each function with lock operations, and - for helpers that change what is held - their callers.
// atEnd is called for every lock still held when the outermost function is left; nest for every acquisition or call made while locks are held.
func (c *Check) lockPaths(k *conc, atEnd func(fn *ssa.Function, p *Path, l *Term, pos token.Pos), nest func(fn *ssa.Function, p *Path, e *Event, held []heldLock)) {
	work := c.lockFns()
	done := map[*ssa.Function]int{}
	for n := 0; n < len(work) && n < 400; n++ {
		fn := work[n]
		if done[fn] == len(k.inl)+1 {
			continue
		}
		done[fn] = len(k.inl) + 1
		own := k.acquires(fn)
		o := k.opts()
		o.Opaque = func(f *ssa.Function) bool {
			if !k.opaque(f) {
				return false
			}
			return true
		}
		o.Keep = func(e *Event) bool {
			switch e.Kind {
			case "load", "store", "slice", "index", "append", "copy", "makeslice", "binacc":
				return false
			}
			return true
		}
		_ = own
		ex := c.explore("locks "+fnName(fn), fn, o)
		c.ob("lock scopes")
		type left struct {
			p   *Path
			l   *Term
			pos token.Pos
			rel bool
		}
		var lefts []left
		for _, p := range ex.paths {
			var held []heldLock
			for _, e := range p.events {
				if e.G != 0 {
					continue
				}
				switch e.Kind {
				case "lock", "rlock":
					if nest != nil {
						nest(fn, p, e, held)
					}
					held = append(held, heldLock{e.Args[0], e})
				case "unlock", "runlock":
					ok := false
					for i := len(held) - 1; i >= 0; i-- {
						if held[i].l == e.Args[0] {
							if (held[i].ev.Kind == "rlock") != (e.Kind == "runlock") {
								c.bad("released", fnName(fn)+" mode "+lockName(e.Args[0]), e.Pos, p, "%s releases %s in another mode than it was taken", fnName(fn), lockName(e.Args[0]))
							}
							held = append(held[:i:i], held[i+1:]...)
							ok = true
							break
						}
					}
					if !ok {
						lefts = append(lefts, left{p, e.Args[0], e.Pos, true})
					}
				default:
					if nest != nil && len(held) > 0 {
						nest(fn, p, e, held)
					}
				}
			}
			if p.done == "return" || p.done == "panic" {
				for _, h := range held {
					lefts = append(lefts, left{p, h.l, h.ev.Pos, false})
				}
			}
		}
		if len(lefts) == 0 {
			continue
		}
		if c.outermost(fn) || n > 300 {
			for _, l := range lefts {
				if l.rel {
					c.bad("released", fnName(fn)+" extra "+lockName(l.l), l.pos, l.p, "%s releases %s, which it does not hold", fnName(fn), lockName(l.l))
				} else {
					atEnd(fn, l.p, l.l, l.pos)
				}
			}
			continue
		}
		up := c.w.callers(fn)
		if fn.Parent() != nil {
			up = append(up, fn.Parent())
		}
		for g := range k.inl {
			_ = g
		}
		if !k.inl[fn] {
			k.inl[fn] = true
			for key := range c.cache {
				if strings.HasPrefix(key, "locks ") {
					delete(c.cache, key)
				}
			}
		}
		work = append(work, up...)
	}
}

func ruleC12(c *Check) {
	k := c.conc()
	c.rule("released", "on every path of every function with lock operations - also when user code panics - each lock taken is released in the mode it was taken before the outermost library function is left, and none is released twice")
	c.rule("no-relock", "no lock is acquired, directly or in a callee, while the same lock is held")
	c.rule("order", "the 'acquired while holding' relation between the library's locks has no cycle")
	c.rule("no-wait-under-lock", "while a lock of a client or of a publish/subscribe client is held there is no blocking channel operation, sleep, network read or write and no call of user code (the dialer and the reader wrapper used for (re)starting excepted)")
	type edge struct{ a, b string }
	edges := map[edge]string{}
	cliTypes := map[string]bool{}
	for _, t := range []types.Type{c.r.client, c.w.Type("extension/pubsub", "Client")} {
		if t != nil {
			cliTypes[typeKey(t)] = true
		}
	}
	isCli := func(l *Term) bool {
		return l.op == "field" && l.args[0].typ != nil && cliTypes[typeKey(deref(l.args[0].typ))]
	}
	owner := map[*types.Var]string{}
	c.lockPaths(k, func(fn *ssa.Function, p *Path, l *Term, pos token.Pos) {
		c.bad("released", fnName(fn)+" "+lockName(l), pos, p, "%s can be left (%s) with %s still held", fnName(fn), p.done, lockName(l))
	}, func(fn *ssa.Function, p *Path, e *Event, held []heldLock) {
		switch e.Kind {
		case "lock", "rlock":
			c.ob("nested acquisitions examined")
			n := lockName(e.Args[0])
			if v := e.Args[0].fieldVar(); v != nil {
				owner[v] = n
			}
			for _, h := range held {
				if h.l == e.Args[0] {
					c.bad("no-relock", fnName(fn)+" "+n, e.Pos, p, "%s is taken again while it is already held (taken at %s)", n, c.w.pos(h.ev.Pos))
					continue
				}
				edges[edge{lockName(h.l), n}] = c.w.pos(e.Pos)
			}
			return
		case "call":
			if f := k.byName[e.Name]; f != nil {
				c.ob("calls under a lock")
				for v := range k.acquires(f) {
					for _, h := range held {
						if h.l.fieldVar() == v {
							c.bad("no-relock", fnName(fn)+" "+lockName(h.l), e.Pos, p, "%s calls %s, which takes %s, while holding %s", fnName(fn), shortName(e.Name), lockName(h.l), lockName(h.l))
							continue
						}
						edges[edge{lockName(h.l), c.ownerOf(v)}] = c.w.pos(e.Pos)
					}
				}
			}
		}
		for _, h := range held {
			if !isCli(h.l) {
				continue
			}
			if why := c.waits(k, e); why != "" {
				c.bad("no-wait-under-lock", fnName(fn)+" "+lockName(h.l), e.Pos, p, "%s while %s is held: %s", fnName(fn), lockName(h.l), why)
			}
		}
	})
	c.floor("lock scopes", 25)
	// cycles
	adj := map[string][]string{}
	for e := range edges {
		adj[e.a] = append(adj[e.a], e.b)
		c.ob("order edges")
		c.sample("%s -> %s (%s)", e.a, e.b, edges[e])
	}
	var nodes []string
	for n := range adj {
		nodes = append(nodes, n)
		sort.Strings(adj[n])
	}
	sort.Strings(nodes)
	state := map[string]int{}
	var stack []string
	var dfs func(n string)
	dfs = func(n string) {
		state[n] = 1
		stack = append(stack, n)
		for _, m := range adj[n] {
			if state[m] == 1 {
				c.bad("order", n+" -> "+m, token.NoPos, nil, "locks are nested in a cycle: %s -> %s (%s) while the other order also occurs", n, m, edges[edge{n, m}])
			} else if state[m] == 0 {
				dfs(m)
			}
		}
		stack = stack[:len(stack)-1]
		state[n] = 2
	}
	for _, n := range nodes {
		if state[n] == 0 {
			dfs(n)
		}
	}
	c.floor("order edges", 1)
}

func (c *Check) ownerOf(v *types.Var) string {
	for _, p := range c.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			t := sc.Lookup(n).Type()
			if structOf(t) == nil {
				continue
			}
			st := structOf(t)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == v {
					return shortName(typeKey(t)) + "." + v.Name()
				}
			}
		}
	}
	return v.Name()
}

// waits: the event may wait or run user code.
func (c *Check) waits(k *conc, e *Event) string {
	for _, f := range e.Stack {
		if f == c.w.Fn("", "Client.Restart") {
			return ""
		}
	}
	switch e.Kind {
	case "send", "recv":
		return "blocks on a channel " + e.Kind
	case "select":
		if e.Block {
			return "blocks in a select"
		}
	case "dyn":
		if !c.userCall(e) || c.exemptDyn(loadField(e.Args[0])) {
			return ""
		}
		return "runs user code"
	case "call":
		if strings.Contains(e.Name, "arpc.MessageCoder).") {
			return "runs a message coder"
		}
		if waitCall(e.Name) {
			return "waits in " + shortName(e.Name)
		}
		if f := k.byName[e.Name]; f != nil {
			return k.mayWait(f)
		}
	}
	return ""
}

func (c *Check) exemptDyn(f *types.Var) bool {
	return f != nil && (f == c.r.dialer || f == c.r.hook["SetReaderWrapper"])
}

func waitCall(n string) bool {
	switch n {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "io.ReadFull", "io.ReadAtLeast", "io.Copy", "net.Dial", "net.DialTimeout":
		return true
	}
	return strings.HasSuffix(n, "(net.Conn).Write") || strings.HasSuffix(n, "(net.Conn).Read") || strings.HasSuffix(n, "net.Buffers).WriteTo") || strings.HasSuffix(n, "(io.Reader).Read")
}

func (k *conc) mayWait(fn *ssa.Function) string {
	if s, ok := k.why[fn]; ok {
		return s
	}
	k.why[fn] = ""
	res := ""
	for f := range k.c.w.reach(fn) {
		if f == k.c.w.Fn("", "Client.Restart") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					res = "calls " + fnName(fn) + ", which blocks on a channel"
				case *ssa.Select:
					if x.Blocking {
						res = "calls " + fnName(fn) + ", which blocks in a select"
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						res = "calls " + fnName(fn) + ", which blocks on a channel"
					}
				case *ssa.Go:
				case ssa.CallInstruction:
					cc := x.Common()
					if t := cc.StaticCallee(); t != nil {
						if waitCall(t.String()) {
							res = "calls " + fnName(fn) + ", which waits in " + t.Name()
						}
					} else if cc.IsInvoke() {
						n := "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
						if waitCall(n) || strings.Contains(n, "arpc.MessageCoder).") {
							res = "calls " + fnName(fn) + ", which calls " + shortName(n)
						}
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						if u, ok := cc.Value.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && k.c.exemptDyn(structOf(fa.X.Type()).Field(fa.Field)) {
								continue
							}
						}
						if funcOf(cc.Value) == nil {
							res = "calls " + fnName(fn) + ", which runs user code"
						}
					}
				}
			}
		}
	}
	k.why[fn] = res
	return res
}

// ---- C11 ---------------------------------------------------------------------

// guarded: table fields (maps, and slices of records) of structs that carry a mutex.
func (c *Check) guarded() map[*types.Var]string {
	out := map[*types.Var]string{}
	for _, p := range c.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			mu := false
			for i := 0; i < st.NumFields(); i++ {
				if mutexType(st.Field(i).Type()) {
					mu = true
				}
			}
			if !mu {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				v := st.Field(i)
				switch u := v.Type().Underlying().(type) {
				case *types.Map:
					out[v] = n + "." + v.Name()
				case *types.Slice:
					if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
						out[v] = n + "." + v.Name()
					}
				}
			}
		}
	}
	return out
}

func ruleC11(c *Check) {
	k := c.conc()
	g := c.guarded()
	c.rule("lockset", "every read of a table field (a map, or a slice of records, in a struct with a mutex) and every operation on the table itself happens while a mutex of the same object is held, writes with it held exclusively; where a helper relies on its caller's lock every caller is checked; all accesses of one field share one mutex")
	c.rule("private", "an access without the lock is accepted only on an object created on the same path and not yet handed to a goroutine, or on a table value detached by a store under the lock in the critical section that read it")
	acc := map[*types.Var]map[*ssa.Function]bool{}
	for _, fn := range c.w.allFns {
		if fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					v := structOf(fa.X.Type()).Field(fa.Field)
					if _, ok := g[v]; ok {
						if acc[v] == nil {
							acc[v] = map[*ssa.Function]bool{}
						}
						acc[v][fn] = true
					}
				}
			}
		}
	}
	common := map[*types.Var]map[*types.Var]bool{}
	var vars []*types.Var
	for v := range acc {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	for _, v := range vars {
		var fns []*ssa.Function
		for f := range acc[v] {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
		for _, fn := range fns {
			c.ob("functions accessing a table")
			c.lockset(k, v, g[v], fn, fn, common, 0, map[*ssa.Function]bool{fn: true})
		}
		c.sample("%s accessed in %d functions", g[v], len(fns))
	}
	c.floor("functions accessing a table", 30)
	c.floor("accesses under the lock", 60)
}

// lockset checks the accesses of field v made by code of fn, seen from root (fn itself or a caller).
func (c *Check) lockset(k *conc, v *types.Var, name string, fn, root *ssa.Function, common map[*types.Var]map[*types.Var]bool, depth int, inl map[*ssa.Function]bool) {
	o := c.std()
	o.ExecSpawn = false
	o.KeepLoads = true
	o.MaxLoop = 1
	o.Opaque = func(f *ssa.Function) bool {
		if inl[f] || f.Parent() != nil && inl[f.Parent()] {
			return false
		}
		if takesFunc(f) && depth == 0 {
			// runs what it is given: follow it when a closure of fn may be among it
			return !hasClosure(fn)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if kind, _ := lockCall(ci.Common()); kind != "" && len(f.Blocks) <= 1 && !k.balanced(f) {
						return false // lock helper
					}
				}
			}
		}
		return true
	}
	key := fmt.Sprintf("lockset %s %s", fnName(root), fnName(fn))
	ex := c.explore(key, root, o)
	type bad struct {
		p   *Path
		e   *Event
		msg string
	}
	var bads []bad
	for _, p := range ex.paths {
		held := map[*Term]string{}
		pub := map[*Term]bool{}
		for i, e := range p.events {
			if e.G != 0 {
				continue
			}
			switch e.Kind {
			case "lock":
				held[e.Args[0]] = "w"
			case "rlock":
				held[e.Args[0]] = "r"
			case "unlock", "runlock":
				delete(held, e.Args[0])
			case "go":
				for _, a := range e.Args {
					a.walk(func(x *Term) bool {
						if x.op == "alloc" {
							pub[x] = true
						}
						return false
					})
				}
			}
			var obj, m *Term
			write := false
			switch e.Kind {
			case "load":
				if e.Args[0].fieldVar() == v {
					obj = e.Args[0].args[0]
				}
			case "store":
				if e.Args[0].fieldVar() == v {
					obj, write = e.Args[0].args[0], true
				}
			case "mapget", "range", "rangenext", "rangeend":
				m = e.Args[0]
			case "mapset", "mapdel":
				m, write = e.Args[0], true
			}
			if m != nil && loadField(m) == v {
				obj = loadBase(m)
			}
			if obj == nil || obj.op == "alloc" && !pub[obj] {
				continue
			}
			if e.Fn != fn && !inl[e.Fn] {
				continue
			}
			mode, lv := "", map[*types.Var]bool{}
			for l, md := range held {
				if l.op == "field" && l.args[0] == obj {
					if mode != "w" {
						mode = md
					}
					lv[l.fieldVar()] = true
				}
			}
			if mode == "" && m != nil && c.detached(p, m, i) {
				c.ob("detached tables")
				continue
			}
			if mode == "" {
				bads = append(bads, bad{p, e, "without holding its lock"})
				continue
			}
			if write && mode == "r" {
				c.bad("lockset", name+" in "+fnName(fn), e.Pos, p, "%s is modified in %s with its lock held for reading only", name, fnName(fn))
				continue
			}
			c.ob("accesses under the lock")
			if common[v] == nil {
				common[v] = lv
			} else {
				for x := range common[v] {
					if !lv[x] {
						delete(common[v], x)
					}
				}
				if len(common[v]) == 0 {
					c.bad("lockset", name+" mixed "+fnName(fn), e.Pos, p, "%s is guarded by another mutex in %s than elsewhere", name, fnName(fn))
				}
			}
		}
	}
	if len(bads) == 0 {
		return
	}
	up := c.w.callers(root)
	if root.Parent() != nil {
		up = append(up, root.Parent())
	}
	if c.outermost(root) || len(up) == 0 || depth >= 3 {
		b := bads[0]
		c.bad("lockset", name+" in "+fnName(fn), b.e.Pos, b.p, "%s is accessed in %s %s", name, fnName(fn), b.msg)
		return
	}
	for _, u := range up {
		if inl[u] {
			continue
		}
		in2 := map[*ssa.Function]bool{u: true}
		for f := range inl {
			in2[f] = true
		}
		c.lockset2(k, v, name, fn, u, common, depth+1, in2)
	}
}

func (c *Check) lockset2(k *conc, v *types.Var, name string, fn, root *ssa.Function, common map[*types.Var]map[*types.Var]bool, depth int, inl map[*ssa.Function]bool) {
	c.ob("callers relied on for the lock")
	c.lockset(k, v, name, fn, root, common, depth, inl)
}

func hasClosure(fn *ssa.Function) bool { return len(fn.AnonFuncs) > 0 }

// balanced: fn releases exactly what it takes (cheap syntactic test: as many releases as acquisitions).
func (k *conc) balanced(fn *ssa.Function) bool {
	a, r := 0, 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				switch kind, _ := lockCall(ci.Common()); kind {
				case "acquire":
					a++
				case "release":
					r++
				}
			}
		}
	}
	return a > 0 && r > 0
}

// detached: the table value was taken out of its owner by a store made under the owner's lock, in the critical section that read it.
func (c *Check) detached(p *Path, m *Term, at int) bool {
	f, owner := loadField(m), loadBase(m)
	for i := 0; i < at; i++ {
		e := p.events[i]
		if e.Kind != "load" || e.Args[0].fieldVar() != f || e.Args[0].args[0] != owner || e.Res != m {
			continue
		}
		for j, s := range p.events {
			if s.Kind == "store" && s.Args[0].fieldVar() == f && s.Args[0].args[0] == owner && s.Args[1] != m {
				if j < i && p.heldSame(j, i, owner) || j > i && p.heldSame(i, j, owner) {
					return true
				}
			}
		}
	}
	return false
}

func (p *Path) heldSame(i, j int, owner *Term) bool { return sameSection(p, i, j, owner) }

// writesOf: the struct fields fn or what it calls assigns.
func (w *World) writesOf(fn *ssa.Function) map[*types.Var]bool {
	if m := w.writesC[fn]; m != nil {
		return m
	}
	out := map[*types.Var]bool{}
	for f := range w.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					out[structOf(fa.X.Type()).Field(fa.Field)] = true
				}
				if s, ok := deref(st.Addr.Type()).Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						out[s.Field(i)] = true
					}
				}
			}
		}
	}
	if w.writesC == nil {
		w.writesC = map[*ssa.Function]map[*types.Var]bool{}
	}
	w.writesC[fn] = out
	return out
}
