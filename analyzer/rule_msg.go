package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = ruleC13
}

// msgAlias: t is (part of) the memory of a message: its buffer, a slice of it
// or a string or interface made from it without copying. Returns the message.
func (r *Roles) msgAlias(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "slice", "b2s", "s2b", "iface", "append", "unwrap":
			if len(t.args) == 0 {
				return nil
			}
			t = t.args[0]
		default:
			if f := loadField(t); f != nil && f == r.buffer {
				return origin(loadBase(t))
			}
			return nil
		}
	}
	return nil
}

// msgBase: the message a field or cell address belongs to.
func (r *Roles) msgBase(a *Term) *Term {
	for a != nil {
		if r.isMsg(a) {
			return origin(a)
		}
		switch a.op {
		case "field", "idx", "slice", "init", "ver":
			if len(a.args) == 0 {
				return nil
			}
			a = a.args[0]
		default:
			return nil
		}
	}
	return nil
}

type msgState struct {
	refs    int
	retains int
	given   int // handed to other goroutines
	how     string
	pos     token.Pos
}

// ownership follows every message and context of one path.
func (c *Check) ownership(root string, p *Path, ctxMsgF *types.Var) {
	r := c.r
	st := map[*Term]*msgState{}
	get := func(m *Term) *msgState {
		if st[m] == nil {
			st[m] = &msgState{refs: 1}
		}
		return st[m]
	}
	ctxGone := map[*Term]token.Pos{}
	// goroutines: what each touches, and where it was started
	start := map[int]int{}
	kinds := map[int]map[*Term]string{} // G -> message -> "use" or "end"
	note := func(g int, m *Term, k string) {
		if kinds[g] == nil {
			kinds[g] = map[*Term]string{}
		}
		if kinds[g][m] != "end" {
			kinds[g][m] = k
		}
	}
	type touch struct {
		at   int
		kind string
	}
	parent := map[*Term][]touch{}
	end := func(i int, e *Event, m *Term, how string, release bool) {
		s := get(m)
		c.ob("releases and hand-overs")
		s.refs--
		if s.refs < 0 {
			what := "released"
			if !release {
				what = "queued"
			}
			c.bad("one-owner", root+" "+how, e.Pos, p, "%s: a message is %s (%s) although it was already given up (%s at %s)", root, what, how, s.how, c.w.pos(s.pos))
			s.refs = 0
		}
		s.how, s.pos = how, e.Pos
		if !release {
			s.given++
		}
		note(e.G, m, "end")
		if e.G == 0 {
			parent[m] = append(parent[m], touch{i, "end"})
		}
	}
	use := func(i int, e *Event, m *Term, what string, write bool) {
		if m == nil || m.op == "nil" {
			return
		}
		s := get(m)
		c.ob("message uses")
		if s.refs <= 0 {
			c.bad("no-use-after", root+" "+what, e.Pos, p, "%s: a message is used (%s) after it was given up (%s at %s)", root, what, s.how, c.w.pos(s.pos))
		} else if write && s.given > 0 {
			c.bad("shared-unmodified", root+" "+what, e.Pos, p, "%s: a message is modified (%s) although it is already queued to another connection", root, what)
		}
		note(e.G, m, "use")
		if e.G == 0 {
			parent[m] = append(parent[m], touch{i, "use"})
		}
	}
	for i, e := range p.events {
		if e.Kind == "start" {
			for j := 0; j < i; j++ {
				if p.events[j] == e.By {
					start[e.G] = j
				}
			}
			continue
		}
		// the message a context argument stands for
		ctxM := func(t *Term) *Term {
			if t == nil || t.typ == nil || c.r.context == nil || !types.Identical(t.typ, types.NewPointer(c.r.context)) {
				return nil
			}
			if pos, ok := ctxGone[t]; ok {
				c.bad("no-use-after", root+" context", e.Pos, p, "%s: a context is used after it was released at %s", root, c.w.pos(pos))
			}
			return p.ctxMsg(t, ctxMsgF, i)
		}
		switch e.Kind {
		case "load":
			if m := r.msgBase(e.Args[0]); m != nil && e.Args[0] != m {
				use(i, e, m, "read", false)
			}
			continue
		case "store":
			if m := r.msgBase(e.Args[0]); m != nil && e.Args[0] != m {
				use(i, e, m, "write", true)
			} else if m := r.msgAlias(e.Args[1]); m != nil && m.op != "nil" && c.keptView(p, e.Args[0], m) {
				c.bad("kept-view", root, e.Pos, p, "%s: %s is kept sharing the memory of a message that is released elsewhere", root, addrText(e.Args[0]))
			}
			continue
		case "enter", "return", "rangeend", "makeslice", "lock", "unlock", "rlock", "runlock", "escape", "nilderef", "recover", "slice", "index":
			continue
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, modPath+".Message).Release") {
			end(i, e, origin(e.Args[0]), "Release", true)
			continue
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, modPath+".Message).Payback") {
			end(i, e, origin(e.Args[0]), "Payback", true)
			continue
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, modPath+".Message).Retain") {
			m := origin(e.Args[0])
			use(i, e, m, "Retain", false)
			get(m).refs++
			get(m).retains++
			continue
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, modPath+".Context).Release") {
			m := ctxM(e.Args[0])
			ctxGone[e.Args[0]] = e.Pos
			if m != nil {
				end(i, e, origin(m), "Context.Release", true)
			}
			continue
		}
		if r.isHook(e, "HandleMessageDone") && len(e.Args) == 3 {
			end(i, e, origin(e.Args[2]), "message-done hook", true)
			continue
		}
		if r.isHook(e, "HandleContextDone") && len(e.Args) == 2 {
			m := ctxM(e.Args[1])
			ctxGone[e.Args[1]] = e.Pos
			if m != nil {
				end(i, e, origin(m), "context-done hook", true)
			} else {
				c.ob("contexts from outside")
			}
			continue
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, modPath+".Client).PushMsg") && len(e.Args) > 1 {
			// decided by its own exploration: it queues or releases the message exactly once
			m := origin(e.Args[1])
			if s := get(m); s.refs > 1 || s.given > 0 {
				c.ob("shared hand-overs")
				if !c.noCoders(p, e.Args[0]) {
					c.bad("shared-unmodified", root+" coders", e.Pos, p, "%s: a message shared with other receivers is sent to a client whose coders may transform it in place", root)
				}
			}
			end(i, e, m, "PushMsg", false)
			continue
		}
		if c.isDispatch(e) {
			end(i, e, origin(e.Args[len(e.Args)-1]), "dispatch", false)
			continue
		}
		if e.Kind == "send" && r.isMsg(e.Args[1]) {
			end(i, e, origin(e.Args[1]), "channel send", false)
			continue
		}
		if e.Kind == "select" {
			if e.Chosen >= 0 && e.Cases[e.Chosen].Send && r.isMsg(e.Cases[e.Chosen].Val) {
				end(i, e, origin(e.Cases[e.Chosen].Val), "channel send", false)
			}
			continue
		}
		if e.Kind == "mapset" {
			for _, a := range e.Args[1:] {
				if m := r.msgAlias(a); m != nil && m.op != "nil" && e.Args[0].op != "makemap" {
					c.bad("kept-view", root+" table", e.Pos, p, "%s: a table entry is kept sharing the memory of a message that is released elsewhere", root)
				}
			}
		}
		coder := e.Kind == "call" && strings.Contains(e.Name, "arpc.MessageCoder).")
		for ai, a := range e.Args {
			if (e.Kind == "mapget" || e.Kind == "mapset" || e.Kind == "mapdel") && ai == 0 {
				continue
			}
			if r.isMsg(a) && a.op != "nil" {
				use(i, e, origin(a), "passed to "+shortName(e.Name), coder)
			} else if m := r.msgAlias(a); m != nil {
				use(i, e, m, "its memory passed to "+e.Kind+" "+shortName(e.Name), e.Kind == "copy" && ai == 0)
			} else if m := ctxM(a); m != nil {
				use(i, e, origin(m), "its context passed to "+shortName(e.Name), false)
			}
		}
	}
	for g, at := range start {
		for m, k := range kinds[g] {
			for _, t := range parent[m] {
				if t.at > at && (k == "end" || t.kind == "end") && get(m).retains == 0 {
					c.bad("one-owner", root+" spawn", p.events[t.at].Pos, p, "%s: a message is still used or released here although a function started before owns it", root)
				}
			}
		}
	}
	if p.done == "return" {
		for m, s := range st {
			if s.retains > 0 && s.refs != 0 {
				c.bad("retained-per-queue", root, s.pos, p, "%s: a message retained %d times ends with %d references nobody gives back", root, s.retains, s.refs)
			}
			_ = m
		}
	}
}

func ruleC13(c *Check) {
	r := c.r
	c.rule("one-owner", "on every path of every operation that handles messages, releases and hand-overs to another goroutine (queue, reply slot, stream queue, dispatch, started function) of one message together never exceed one plus its retains")
	c.rule("no-use-after", "after its last release or hand-over a message, its buffer, a string or slice sharing its memory, and a released context are not read, written, logged or handed to any code")
	c.rule("kept-view", "a string or slice sharing a message's memory is not stored in a table or in an object reachable by others, unless that object owns the message")
	c.rule("shared-unmodified", "a message retained for several receivers is not modified once it was queued to one of them")
	c.rule("retained-per-queue", "a path that retains a message gives back exactly what it retained, plus its own reference")
	c.rule("count", "Retain adds one and Release subtracts one atomically; only the release that takes the count below zero frees the buffer and returns the record, once each, cleared, and touches nothing of it afterwards")
	c.rule("pool-hooks", "enabling pooling installs done hooks that release the message or context they are given exactly once, and buffer functions of one allocator")
	var mf *types.Var
	if r.context != nil {
		for _, v := range fieldsWhere(r.context, func(v *types.Var) bool { return types.Identical(v.Type(), types.NewPointer(r.message)) }) {
			mf = v
		}
	}
	if mf == nil {
		c.need(nil, "Context's message field")
		return
	}
	refOp := func(fn *ssa.Function) bool {
		switch fn.String() {
		case "(*" + modPath + ".Message).Retain", "(*" + modPath + ".Message).Release", "(*" + modPath + ".Message).Payback", "(*" + modPath + ".Context).Release":
			return true
		}
		return false
	}
	entered := map[string]bool{}
	run := func(name string, fn *ssa.Function, o Opts) {
		prev := o.Opaque
		o.Opaque = func(f *ssa.Function) bool { return refOp(f) || prev != nil && prev(f) }
		o.KeepLoads, o.KeepLogs = true, true
		entered[fn.String()] = true
		ex := c.explore("own "+name, fn, o)
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind == "enter" || e.Kind == "start" {
					entered[e.Name] = true
				}
			}
			c.ownership(name, p, mf)
		}
	}
	std := func() Opts {
		o := c.std()
		o.MaxLoop = 1
		return o
	}
	for _, op := range c.ops(append(append([]string{}, sendOps...), "Stream.Recv", "Stream.RecvContext", "Stream.RecvWith")...) {
		run(op.name, op.fn, std())
	}
	if fn := c.w.HFn("OnMessage"); c.need(fn, "Handler.OnMessage") {
		o := std()
		o.RunSpawned = true
		run("Handler.OnMessage", fn, c.withCoders(o, fn, 0))
		run("Handler.OnMessage(1 coder)", fn, c.withCoders(o, fn, 1))
	}
	recv, send := r.loops()
	for _, fn := range recv {
		o := std()
		prev := o.Opaque
		o.Opaque = func(f *ssa.Function) bool {
			return !c.takesMsg(f) && f.Parent() == nil || c.w.isHandlerMethod(f) && (f.Name() == "OnMessage" || f.Name() == "Recv") || prev(f)
		}
		run(fnName(fn), fn, o)
	}
	for _, fn := range send {
		o := c.std()
		run(fnName(fn), fn, c.withCoders(o, fn, 0))
		o.MaxLoop = 1
		run(fnName(fn)+"(1 coder)", fn, c.withCoders(o, fn, 1))
	}
	for _, n := range []string{"Server.Broadcast", "Server.BroadcastWithFilter"} {
		if fn := c.w.Fn("", n); c.need(fn, n) {
			run(n, fn, c.noBuild(c.std()))
		}
	}
	// whatever else gives messages up
	for _, fn := range c.w.allFns {
		if entered[fn.String()] || fn.Parent() != nil || refOp(fn) || !c.givesUp(fn) {
			continue
		}
		if fn.Pkg == nil {
			continue
		}
		o := c.noBuild(c.std())
		o.RunSpawned = true
		run(fnName(fn), fn, o)
		c.sample("also followed: %s", fnName(fn))
	}
	c.refCount(mf)
	c.poolHooks()
	c.floor("releases and hand-overs", 50)
	c.floor("message uses", 100)
}

// keptView: the address belongs to an object, other than the message, that others can reach
// and that does not own the message m itself.
func (c *Check) keptView(p *Path, a, m *Term) bool {
	if a.op != "field" {
		return false
	}
	c.ob("views stored")
	o := a.root()
	if c.r.msgBase(a) != nil || o.op != "alloc" {
		return false
	}
	shared := false
	for _, e := range p.events {
		switch e.Kind {
		case "store":
			if e.Args[0].root() == o && c.r.isMsg(e.Args[1]) && origin(e.Args[1]) == m {
				return false
			}
			if e.Args[1] == o && e.Args[0].root().op != "alloc" {
				shared = true
			}
		case "mapset":
			if e.Args[2] == o && e.Args[0].op != "makemap" {
				shared = true
			}
		}
	}
	return shared
}

func addrText(a *Term) string {
	if v := a.fieldVar(); v != nil {
		return v.Name()
	}
	return a.String()
}

// noCoders: the path knows that the client's handler has no coders.
func (c *Check) noCoders(p *Path, cl *Term) bool {
	r := c.r
	h := p.ex.tt.mk("unwrap", typeKey(c.w.handlerImpl), c.w.handlerImpl, nil, p.loadF(cl, r.hdl))
	cs := p.loadF(h, r.coders)
	_, hi := p.rng(p.ex.lenOf(p.State, cs))
	return hi <= 0
}

// takesMsg: a message can flow into fn through its parameters.
func (c *Check) takesMsg(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if types.Identical(p.Type(), types.NewPointer(c.r.message)) || types.Identical(p.Type(), types.NewPointer(c.r.context)) {
			return true
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// noBuild: constructors of messages are not entered; their result is a message of its own.
func (c *Check) noBuild(o Opts) Opts {
	prev := o.Opaque
	o.Opaque = func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		if rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.NewPointer(c.r.message)) && !c.takesMsg(f) && !c.givesUp(f) {
			return true
		}
		return f.String() == "(*"+modPath+".Client).PushMsg" || prev(f)
	}
	pn := o.NonNil
	o.NonNil = func(t *Term) bool {
		return t.op == "call" && c.r.isMsg(t) || pn(t)
	}
	return o
}

// givesUp: fn releases or queues a message itself.
func (c *Check) givesUp(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if types.Identical(x.X.Type(), types.NewPointer(c.r.message)) {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && types.Identical(s.Send.Type(), types.NewPointer(c.r.message)) {
						return true
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				n := ""
				if f := cc.StaticCallee(); f != nil {
					n = f.String()
				} else if cc.IsInvoke() {
					n = cc.Method.Name()
				}
				if strings.HasSuffix(n, "Message).Release") || strings.HasSuffix(n, "Message).Retain") || n == "OnMessageDone" || n == "OnContextDone" || strings.HasSuffix(n, "Client).PushMsg") {
					return true
				}
			}
		}
	}
	return false
}

func (c *Check) refCount(mf *types.Var) {
	r := c.r
	var ref *types.Var
	for _, v := range fieldsWhere(r.message, func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}) {
		ref = v
	}
	if ref == nil {
		c.need(nil, "reference count of Message")
		return
	}
	counts := func(p *Path, m *Term) (n int64, evs []*Event) {
		for _, e := range p.events {
			if e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0].fieldVar() == ref && e.Args[0].args[0] == m {
				evs = append(evs, e)
				if len(e.Args) > 1 {
					if d, ok := e.Args[1].IntVal(); ok {
						n += d
					}
				}
			}
		}
		return
	}
	if fn := c.w.Fn("", "Message.Retain"); c.need(fn, "Message.Retain") {
		ex := c.explore("Message.Retain", fn, c.std())
		m := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			c.ob("counter operations")
			if n, evs := counts(p, m); n != 1 || len(evs) != 1 {
				c.bad("count", "Message.Retain", fn.Pos(), p, "Retain does not add exactly one to the reference count in one atomic step")
			}
			for _, e := range p.events {
				if e.Kind == "store" && e.Args[0].root() == m {
					c.bad("count", "Message.Retain", e.Pos, p, "Retain changes the message")
				}
			}
		}
	}
	if fn := c.w.Fn("", "Message.Release"); c.need(fn, "Message.Release") {
		o := c.std()
		o.KeepLoads = true
		ex := c.explore("Message.Release", fn, o)
		m := ex.ParamTerms(fn)[0]
		ended, kept := false, false
		for _, p := range ex.paths {
			c.ob("counter operations")
			n, evs := counts(p, m)
			if n != -1 || len(evs) != 1 {
				c.bad("count", "Message.Release", fn.Pos(), p, "Release does not subtract exactly one from the reference count in one atomic step")
				continue
			}
			frees, puts, putAt, freeAt := 0, 0, -1, -1
			decided := false
			for i, e := range p.events {
				if e == evs[0] {
					decided = true
					continue
				}
				switch {
				case e.Kind == "call" && strings.HasSuffix(e.Name, ").Free") && len(e.Args) > 0 && loadField(e.Args[len(e.Args)-1]) == r.buffer:
					frees++
					freeAt = i
				case e.Kind == "dyn" && len(e.Args) == 2 && loadField(e.Args[1]) == r.buffer:
					frees++
					freeAt = i
				case isCall(e, "sync.Pool).Put") && len(e.Args) == 2 && (e.Args[1] == m || e.Args[1].op == "iface" && e.Args[1].args[0] == m):
					puts++
					putAt = i
				case e.Kind == "store" && e.Args[0].root() == m:
					if !decided {
						c.bad("count", "Message.Release early", e.Pos, p, "Release changes the message before it knows that nobody else owns it")
					}
					if putAt >= 0 {
						c.bad("count", "Message.Release late", e.Pos, p, "Release changes the message after returning it to the pool")
					}
				case e.Kind == "load" && e.Args[0].root() == m && putAt >= 0:
					c.bad("count", "Message.Release late", e.Pos, p, "Release reads the message after returning it to the pool")
				}
			}
			lo, hi := p.rng(evs[0].Res)
			last := hi <= -1 && lo >= -1
			if last {
				ended = true
				if puts > 1 || frees > 1 {
					c.bad("count", "Message.Release twice", fn.Pos(), p, "the last Release frees the buffer %d times and returns the record %d times", frees, puts)
				}
				hnil := false
				for _, cd := range p.conds {
					_ = cd
				}
				_ = hnil
				if puts == 1 {
					stt := structOf(m.typ)
					for i := 0; i < stt.NumFields(); i++ {
						v := stt.Field(i)
						if !p.cleared(m, v, putAt) {
							c.bad("count", "Message.Release clear", fn.Pos(), p, "a message is returned to the pool with its %s not cleared", v.Name())
						}
					}
				}
			} else {
				kept = true
				if puts+frees > 0 {
					c.bad("count", "Message.Release shared", fn.Pos(), p, "Release gives the memory back although the count says another owner is left")
				}
				for i, e := range p.events {
					if i > 0 && e.Kind == "store" && e.Args[0].root() == m {
						c.bad("count", "Message.Release shared", e.Pos, p, "Release changes the message although the count says another owner is left")
					}
				}
			}
			_ = freeAt
		}
		if !ended || !kept {
			c.bad("count", "Message.Release cases", fn.Pos(), nil, "Release does not distinguish the last release (count below zero) from the others")
		}
	}
	// however else a record gets back (Payback)
	c.putSites(c.r.message, func(fn *ssa.Function, p *Path, i int, e *Event, x *Term) {
		c.ob("records given back")
		stt := structOf(c.r.message)
		for j := 0; j < stt.NumFields(); j++ {
			if !p.cleared(x, stt.Field(j), i) {
				c.bad("count", fnName(fn)+" clear", e.Pos, p, "%s returns a message to the pool with its %s not cleared", fnName(fn), stt.Field(j).Name())
			}
		}
	})
	c.floor("records given back", 1)
	if fn := c.w.Fn("", "Context.Release"); c.need(fn, "Context.Release") {
		o := c.std()
		prev := o.Opaque
		o.KeepLoads = true
		o.Opaque = func(f *ssa.Function) bool {
			return strings.HasSuffix(f.String(), modPath+".Message).Release") || prev(f)
		}
		ex := c.explore("Context.Release", fn, o)
		x := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			rel, put := 0, -1
			for i, e := range p.events {
				if isCall(e, modPath+".Message).Release") {
					rel++
					if loadField(e.Args[0]) != mf || loadBase(e.Args[0]) != x {
						c.bad("count", "Context.Release other", e.Pos, p, "Context.Release releases something other than its own message")
					}
				}
				if put >= 0 && (e.Kind == "load" || e.Kind == "store") && e.Args[0].root() == x {
					c.bad("count", "Context.Release late", e.Pos, p, "Context.Release touches the context after returning it to the pool")
				}
				if isCall(e, "sync.Pool).Put") {
					if put >= 0 {
						c.bad("count", "Context.Release twice", e.Pos, p, "a context is returned to the pool twice")
					}
					put = i
					stt := structOf(x.typ)
					for j := 0; j < stt.NumFields(); j++ {
						if !p.cleared(x, stt.Field(j), i) {
							c.bad("count", "Context.Release clear", e.Pos, p, "a context is returned to the pool with its %s not cleared", stt.Field(j).Name())
						}
					}
				}
			}
			c.ob("counter operations")
			if rel != 1 {
				c.bad("count", "Context.Release", fn.Pos(), p, "Context.Release releases its message %d times", rel)
			}
		}
	}
}

// poolHooks: what EnablePool installs.
func (c *Check) poolHooks() {
	r := c.r
	fn := c.w.HFn("EnablePool")
	if !c.need(fn, "Handler.EnablePool") {
		return
	}
	o := c.std()
	o.Args = append([]*Term{}, c.w.paramTerms(fn)...)
	o.Args[1] = c.w.tt.Bool(true)
	ex := c.explore("EnablePool(true)", fn, o)
	h := c.w.paramTerms(fn)[0]
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		for _, k := range []struct{ hook, rel string }{{"HandleMessageDone", modPath + ".Message).Release"}, {"HandleContextDone", modPath + ".Context).Release"}} {
			v := r.hook[k.hook]
			if v == nil {
				c.need(nil, k.hook)
				continue
			}
			t := p.loadF(h, v)
			f := c.closureOf(t)
			if f == nil {
				c.bad("pool-hooks", k.hook, fn.Pos(), p, "EnablePool(true) does not install a %s hook that releases", k.hook)
				continue
			}
			oo := c.std()
			oo.Opaque = func(g *ssa.Function) bool { return strings.HasSuffix(g.String(), k.rel) }
			oo.Bind = t.args
			st := p.State
			oo.Init = func(ex *Ex, s *State) {
				for k, v := range st.mem {
					s.mem[k] = v
				}
			}
			ex2 := c.explore("hook "+f.String(), f, oo)
			ps := ex2.ParamTerms(f)
			arg := ps[len(ps)-1]
			for _, q := range ex2.paths {
				n := 0
				for _, e := range q.events {
					if e.Kind == "dyn" && len(e.Args) > 0 && loadField(e.Args[0]) == v {
						c.bad("pool-hooks", k.hook+" chained", e.Pos, q, "the %s hook of pooling also runs the hook set before it, which may release as well", k.hook)
					}
					if isCall(e, k.rel) {
						n++
						if e.Args[0] != arg {
							c.bad("pool-hooks", k.hook+" other", e.Pos, q, "the %s hook of pooling releases something other than what it was given", k.hook)
						}
					}
				}
				c.ob("pool hooks")
				if n != 1 {
					c.bad("pool-hooks", k.hook+" count", f.Pos(), q, "the %s hook of pooling releases %d times", k.hook, n)
				}
			}
		}
		// the three buffer functions are one allocator's
		var owner *Term
		for _, k := range []struct{ set, m string }{{"HandleMalloc", "Malloc"}, {"HandleAppend", "Append"}, {"HandleFree", "Free"}} {
			v := r.hook[k.set]
			if v == nil {
				v = c.setterField(k.set)
			}
			if v == nil {
				c.need(nil, k.set)
				continue
			}
			t := p.loadF(h, v)
			c.ob("pool hooks")
			own := c.allocatorOf(t, k.m)
			if own == nil {
				c.bad("pool-hooks", k.set, fn.Pos(), p, "EnablePool(true) installs %s as %s function, not the allocator's", t, k.m)
				continue
			}
			if owner == nil {
				owner = own
			} else if owner != own {
				c.bad("pool-hooks", k.set+" mixed", fn.Pos(), p, "EnablePool(true) mixes buffer functions of different allocators")
			}
		}
	}
}

// allocatorOf: the allocator whose method m a function is or passes on to.
func (c *Check) allocatorOf(t *Term, m string) *Term {
	if t.op == "closure" && len(t.args) == 1 && strings.HasSuffix(c.closureOf(t).Name(), "$bound") {
		if strings.Contains(t.String(), m) {
			return t.args[0]
		}
		return nil
	}
	f := c.closureOf(t)
	if f == nil {
		return nil
	}
	var own *Term
	ex := c.explore("buffer function "+f.String(), f, c.std())
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		n := 0
		for _, e := range p.events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "Allocator)."+m) && (own == nil || own == e.Args[0]) {
				own = e.Args[0]
				n++
			}
		}
		if n != 1 {
			return nil
		}
	}
	return own
}
