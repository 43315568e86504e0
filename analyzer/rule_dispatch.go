package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = ruleC14
	checks["C16"] = ruleC16
	checks["C17"] = ruleC17
	checks["C18"] = ruleC18
}

// ---- contents of slices --------------------------------------------------------

type piece struct {
	whole *Term // all elements of this slice
	elem  *Term // or one element
}

func (q piece) String() string {
	if q.whole != nil {
		return q.whole.String() + "..."
	}
	return q.elem.String()
}

// seqOf: the elements of a slice at the end of the path, as pieces.
func (p *Path) seqOf(t *Term) []piece { return p.norm(p.rawSeq(t, 0)) }

func (p *Path) rawSeq(t *Term, d int) []piece {
	if d > 12 || t == nil {
		return []piece{{whole: t}}
	}
	switch t.op {
	case "nil":
		return nil
	case "append":
		return append(p.rawSeq(t.args[0], d+1), p.rawSeq(t.args[1], d+1)...)
	case "slice":
		lo, ok1 := t.args[1].IntVal()
		hi, ok2 := t.args[2].IntVal()
		if ok1 && ok2 && lo == hi {
			return nil
		}
		if ok1 && ok2 && (t.args[0].op == "alloc") && hi-lo < 16 {
			var out []piece
			for i := lo; i < hi; i++ {
				out = append(out, piece{elem: p.elemAt(t.args[0], p.ex.tt.Int(i), elemType(t.typ))})
			}
			return out
		}
		if t.args[0].op == "makeslice" && ok1 && lo == 0 && t.args[2] == t.args[0].args[0] {
			return p.rawSeq(t.args[0], d+1)
		}
		if ok1 && lo == 0 && t.args[0].op != "alloc" && t.args[0].typ != nil && t.args[2] == p.ex.lenOf(p.State, t.args[0]) {
			return p.rawSeq(t.args[0], d+1)
		}
	case "makeslice":
		type part struct {
			off *Term
			pc  piece
			len *Term
		}
		var parts []part
		for _, e := range p.events {
			if e.Kind == "copy" && sliceBase(e.Args[0]) == t {
				off := p.ex.tt.Int(0)
				if e.Args[0].op == "slice" {
					off = e.Args[0].args[1]
				}
				parts = append(parts, part{off, piece{whole: e.Args[1]}, p.ex.lenOf(p.State, e.Args[1])})
			}
			if e.Kind == "store" && e.Args[0].op == "idx" && e.Args[0].args[0] == t {
				parts = append(parts, part{e.Args[0].args[1], piece{elem: e.Args[1]}, p.ex.tt.Int(1)})
			}
		}
		var out []piece
		at := p.ex.tt.Int(0)
		used := map[int]bool{}
		for {
			if dlt, ok := p.linDiff(t.args[0], at); ok && dlt == 0 {
				return out
			}
			hit := false
			for i := len(parts) - 1; i >= 0; i-- {
				if used[i] {
					continue
				}
				if dlt, ok := p.linDiff(parts[i].off, at); ok && dlt == 0 {
					if n, ok := parts[i].len.IntVal(); ok && n == 0 {
						used[i] = true
						continue
					}
					used[i], hit = true, true
					out = append(out, parts[i].pc)
					at = p.ex.arith(token.ADD, at, parts[i].len, types.Typ[types.Int])
					break
				}
			}
			if !hit {
				return []piece{{whole: t}}
			}
		}
	}
	return []piece{{whole: t}}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return types.Typ[types.Int]
}

func (p *Path) elemAt(base, i *Term, et types.Type) *Term {
	return p.ex.load(p.State, p.ex.idx(base, i, et), et)
}

// norm drops empty pieces and spells out slices of known small length.
func (p *Path) norm(in []piece) []piece {
	var out []piece
	for _, q := range in {
		if q.whole == nil {
			out = append(out, q)
			continue
		}
		if q.whole.typ == nil {
			out = append(out, q)
			continue
		}
		lo, hi := p.rng(p.ex.lenOf(p.State, q.whole))
		if lo == hi && lo < 8 {
			for i := int64(0); i < lo; i++ {
				out = append(out, piece{elem: p.elemAt(q.whole, p.ex.tt.Int(i), elemType(q.whole.typ))})
			}
			continue
		}
		out = append(out, q)
	}
	return out
}

func samePieces(a, b []piece) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- roles of the dispatcher -----------------------------------------------------

type chainRoles struct {
	routeT   types.Type // record of a method
	async    *types.Var
	handlers *types.Var
	ctxIdx   *types.Var
	ctxHs    *types.Var
	ctxMsg   *types.Var
	ctxCli   *types.Var
	ctxErr   *types.Var
	ok       bool
}

func isHandlerSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := sl.Elem().(*types.Named)
	return ok && n.Obj().Name() == "HandlerFunc"
}

func (c *Check) chain() *chainRoles {
	r := c.r
	k := &chainRoles{routeT: deref(r.routes.Type().Underlying().(*types.Map).Elem())}
	for _, v := range fieldsWhere(k.routeT, func(*types.Var) bool { return true }) {
		if isBool(v.Type()) {
			k.async = v
		}
		if isHandlerSlice(v.Type()) {
			k.handlers = v
		}
	}
	for _, v := range fieldsWhere(r.context, func(*types.Var) bool { return true }) {
		if w, _ := intSize(v.Type()); w > 0 {
			k.ctxIdx = v
		}
		if isHandlerSlice(v.Type()) {
			k.ctxHs = v
		}
		switch v.Name() {
		case "Message":
			k.ctxMsg = v
		case "Client":
			k.ctxCli = v
		}
	}
	if fn := c.w.Fn("", "Context.ResponseError"); fn != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					k.ctxErr = structOf(fa.X.Type()).Field(fa.Field)
				}
			}
		}
	}
	k.ok = k.async != nil && k.handlers != nil && k.ctxIdx != nil && k.ctxHs != nil && k.ctxMsg != nil && k.ctxErr != nil
	if !k.ok {
		c.bad("anchor", "chain", token.NoPos, nil, "cannot find the parts of a handler chain (route record, context) in the current source")
	}
	return k
}

// chainCall: the event calls an element of a list of handlers; returns list and index.
func chainCall(e *Event) (*Term, *Term) {
	if e.Kind != "dyn" {
		return nil, nil
	}
	t := e.Args[0]
	if (t.op == "init" || t.op == "ver") && len(t.args) > 0 && t.args[0].op == "idx" {
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

func (c *Check) onMessageN(n int) *Ex {
	fn := c.w.HFn("OnMessage")
	if !c.need(fn, "Handler.OnMessage") {
		return nil
	}
	o := c.withCoders(c.std(), fn, n)
	o.RunSpawned, o.MaxLoop = true, 1
	return c.explore(fmt.Sprintf("Handler.OnMessage/%d coders", n), fn, o)
}

// ---- C16 -------------------------------------------------------------------------

func ruleC16(c *Check) {
	r := c.r
	c.rule("by-kind", "an incoming request or notification looks its method up under exactly the method bytes, falls back to the not-found entry only if that is missing, and starts the handler list of the entry found exactly once: inline if the entry is marked inline, through the executor (once) if it is marked asynchronous; without any entry a request is answered with the method-not-found error")
	c.rule("ping", "a ping is answered by writing the pong frame once and nothing else; a pong does nothing; an unknown command stops the client and does nothing else")
	c.rule("reply-kind", "replying hands a message over only if the context's message is a request; otherwise it returns an error and sends nothing")
	c.rule("executor", "handing work to the executor calls the executor set with it exactly once, or without one starts one goroutine that runs it exactly once")
	c.rule("done", "whatever list of handlers a request or notification ran, the context made for it is reported done exactly once, after the handlers")
	c.rule("registered", "registering a method stores one entry under exactly that name, marked inline or asynchronous as the caller asked or else by the handler's default")
	k := c.chain()
	if !k.ok {
		return
	}
	ex := c.onMessageN(0)
	if ex == nil {
		return
	}
	fn := c.w.HFn("OnMessage")
	args := ex.ParamTerms(fn)
	msg, cl := args[2], args[1]
	stop := c.w.Fn("", "Client.Stop")
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		cmd, known := p.cmdOf(r, msg)
		kind := "unknown"
		if known {
			kind = cmdName(cmd)
		}
		buf := p.buf(r, msg)
		ml := p.cell(buf, 7)
		lo, hi := p.rng(ml)
		room, _, _ := p.ex.rng(p.State, toLin(p.ex.lenOf(p.State, buf), 0).sub(toLin(ml, 0)))
		valid := lo >= 1 && hi <= 127 && room >= 16
		rl, rh := p.ex.rangeOf(p.State, toLin(p.ex.lenOf(p.State, buf), 0).sub(toLin(ml, 0)))
		_ = rl
		invalid := hi < 1 || lo > 127 || rh < 16
		// effects visible to anyone
		var gets, chains, execs, writes, queues, others []int
		stops := 0
		for i, e := range p.events {
			switch {
			case e.Kind == "mapget" && loadField(e.Args[0]) == r.routes:
				gets = append(gets, i)
			case e.Kind == "exec":
				execs = append(execs, i)
			case r.queued(e) != nil:
				queues = append(queues, i)
			case e.Kind == "mapget" || e.Kind == "mapset" || e.Kind == "mapdel":
				others = append(others, i)
			case e.Kind == "go" && stop != nil && e.Name == stop.String() || entered(e, stop):
				if e.GKind == "" {
					stops++
				}
			}
			if cn, _ := r.written(e); cn != nil {
				writes = append(writes, i)
			}
			if l, _ := chainCall(e); l != nil && isHandlerSlice2(l) {
				chains = append(chains, i)
			}
		}
		switch {
		case known && (cmd == 1 || cmd == 3):
			c.ob("requests and notifications")
			if invalid {
				if len(gets)+len(chains)+len(execs)+len(queues)+len(writes) > 0 {
					c.bad("by-kind", kind+" invalid", fn.Pos(), p, "a message with an invalid method length is acted on")
				}
				continue
			}
			c.contextDone(k, p, kind, valid, gets, chains)
			c.requestPath(k, p, kind, cmd, valid, gets, chains, execs, queues, writes, msg, cl)
			if len(others) > 0 {
				c.bad("by-kind", kind+" tables", p.events[others[0]].Pos, p, "a %s touches another table than the methods", kind)
			}
			if stops > 0 {
				c.bad("by-kind", kind+" stop", fn.Pos(), p, "a %s stops the client", kind)
			}
		case known && cmd == 4:
			c.ob("pings")
			ok := len(writes) == 1
			if ok {
				_, b := r.written(p.events[writes[0]])
				ok = loadField(b) == r.buffer && globalOf(loadBase(b)) == "PongMessage"
				cn, _ := r.written(p.events[writes[0]])
				ok = ok && loadField(cn) == r.conn && loadBase(cn) == cl
			}
			if !ok || len(gets)+len(chains)+len(execs)+len(queues)+len(others)+stops > 0 {
				c.bad("ping", "ping", fn.Pos(), p, "a ping is not answered by exactly one pong and nothing else")
			}
		case known && cmd == 5:
			c.ob("pongs")
			if len(writes)+len(gets)+len(chains)+len(execs)+len(queues)+len(others)+stops > 0 {
				c.bad("ping", "pong", fn.Pos(), p, "a pong causes something")
			}
		case known && (cmd == 2 || cmd == 6):
			c.ob("responses and stream messages")
			if len(gets)+len(chains) > 0 || stops > 0 {
				c.bad("by-kind", kind+" handlers", fn.Pos(), p, "a %s message runs a method handler or stops the client", kind)
			}
		default:
			// other command, or dropped before the command mattered
			if len(writes)+len(gets)+len(chains)+len(execs)+len(queues)+len(others) > 0 {
				c.bad("ping", "unknown acts", fn.Pos(), p, "a message of unknown kind causes more than stopping the client")
			}
			if invalid {
				continue
			}
			c.ob("unknown commands")
			if stops != 1 {
				c.bad("ping", "unknown", fn.Pos(), p, "a message with an unknown command does not stop the client (%d stops)", stops)
			}
		}
	}
	c.pongFrame()
	c.executorRule()
	c.replyKind()
	c.registration(k)
	c.floor("requests and notifications", 6)
	c.floor("chains started", 3)
	c.floor("pings", 1)
	c.floor("pongs", 1)
	c.floor("unknown commands", 1)
	c.floor("replies", 3)
	c.floor("registered methods", 2)
}

// globalOf: the term is the value of a package-level variable of the module's root package.
func globalOf(t *Term) string {
	for t != nil && (t.op == "init" || t.op == "ver") && len(t.args) > 0 {
		t = t.args[0]
	}
	if t == nil || t.op != "global" && t.op != "gval" {
		return ""
	}
	return t.s[strings.LastIndex(t.s, ".")+1:]
}

func (ex *Ex) rangeOf(s *State, l lin) (int64, int64) {
	lo, hi, _ := ex.rng(s, l)
	return lo, hi
}

func isHandlerSlice2(t *Term) bool { return t.typ != nil && isHandlerSlice(t.typ) }

// methodKey: the term is the method name of the message: the bytes 16..16+methodLen.
func (c *Check) methodKey(p *Path, k, buf *Term) bool {
	for k.op == "b2s" || k.op == "conv" {
		k = k.args[0]
	}
	if k.op != "slice" || k.args[0] != buf {
		return false
	}
	lo, ok1 := p.linDiff(k.args[1], nil)
	hi, ok2 := p.linDiff(k.args[2], p.cell(buf, 7))
	return ok1 && ok2 && lo == 16 && hi == 16
}

func (c *Check) requestPath(k *chainRoles, p *Path, kind string, cmd int, valid bool, gets, chains, execs, queues, writes []int, msg, cl *Term) {
	r := c.r
	fn := c.w.HFn("OnMessage")
	buf := p.buf(r, msg)
	if len(gets) == 0 {
		if valid && !c.nilRoutes(p) {
			c.bad("by-kind", kind+" dropped", fn.Pos(), p, "a valid %s is dropped without looking its method up", kind)
		}
	}
	var rec *Term
	for n, i := range gets {
		e := p.events[i]
		if n == 0 && !c.methodKey(p, e.Args[1], buf) {
			c.bad("by-kind", kind+" key", e.Pos, p, "a %s is looked up under %s, not under its method", kind, e.Args[1])
		}
		if n > 0 {
			if s, ok := e.Args[1].StrVal(); ok && s == "" {
				if rec != nil {
					c.bad("by-kind", kind+" fallback", e.Pos, p, "the not-found entry is used although the method is registered")
				}
			} else if !c.methodKey(p, e.Args[1], buf) {
				c.bad("by-kind", kind+" key", e.Pos, p, "a %s is looked up under %s, neither its method nor the not-found entry", kind, e.Args[1])
			}
		}
		if e.Chosen == 0 {
			rec = e.Res
		}
	}
	// what ran
	if rec == nil {
		if len(chains) > 0 {
			c.bad("by-kind", kind+" unregistered", p.events[chains[0]].Pos, p, "a handler runs although no entry was found")
		}
		if cmd == 1 {
			told := false
			ef := c.w.Fn("", "Context.Error")
			for _, e := range p.events {
				if entered(e, ef) && len(e.Args) == 2 && e.Args[1].op == "iface" && errGlobal(e.Args[1].args[0]) == "ErrMethodNotFound" || entered(e, ef) && errGlobal(e.Args[1]) == "ErrMethodNotFound" {
					told = true
				}
			}
			if !told {
				c.bad("by-kind", kind+" silent", fn.Pos(), p, "a request for an unknown method on a handler without any entry is not answered with the method-not-found error")
			}
		}
		return
	}
	if len(chains) > 1 {
		c.bad("by-kind", kind+" twice", p.events[chains[1]].Pos, p, "the handler list of a %s is started twice", kind)
	}
	if len(execs) > 1 {
		c.bad("by-kind", kind+" executor twice", p.events[execs[1]].Pos, p, "a %s is handed to the executor twice", kind)
	}
	async, ak := p.truth(p.loadF(rec, k.async))
	notFound := p.events[gets[len(gets)-1]].Args[1]
	isNF := false
	if s, ok := notFound.StrVal(); ok && s == "" {
		isNF = true
	}
	for _, i := range chains {
		e := p.events[i]
		l, _ := chainCall(e)
		c.ob("chains started")
		if loadField(l) != k.handlers || loadBase(l) != rec {
			c.bad("by-kind", kind+" list", e.Pos, p, "a %s runs the handler list %s, not that of the entry found", kind, l)
		}
		ctx := e.Args[1]
		if p.memAt(ctx, k.ctxMsg) != msg && p.ctxMsg(ctx, k.ctxMsg, i) != msg {
			c.bad("by-kind", kind+" message", e.Pos, p, "the handlers see another message than the one received")
		}
		if p.ctxMsg(ctx, k.ctxCli, i) != cl {
			c.bad("by-kind", kind+" client", e.Pos, p, "the handlers see another client than the one the message came from")
		}
		if !ak {
			if !isNF {
				c.bad("by-kind", kind+" mode", e.Pos, p, "a %s is run without regard to whether its entry is asynchronous", kind)
			}
			if e.G != 0 {
				c.bad("by-kind", kind+" not-found mode", e.Pos, p, "the not-found handlers run on another goroutine")
			}
		} else if async && e.GKind != "exec" {
			c.bad("by-kind", kind+" inline", e.Pos, p, "an asynchronous entry runs on %s instead of the executor", where(e))
		} else if !async && e.G != 0 {
			c.bad("by-kind", kind+" spawned", e.Pos, p, "an inline entry runs on %s instead of the reading goroutine", where(e))
		}
	}
	if len(chains) == 0 {
		// only if the list is known to be exhausted
		ok := false
		for f, v := range p.facts {
			_ = v
			if f.walk(func(t *Term) bool { return t.op == "len" && loadField(t.args[0]) == k.handlers && loadBase(t.args[0]) == rec }) {
				ok = true
			}
		}
		for s := range p.ivs {
			_ = s
		}
		if !ok && !p.lenKnown(k.handlers, rec) {
			c.bad("by-kind", kind+" not run", fn.Pos(), p, "the handler list of the entry found is not started")
		}
	}
}

// contextDone: what was dispatched is reported done once, after it ran.
func (c *Check) contextDone(k *chainRoles, p *Path, kind string, valid bool, gets, chains []int) {
	r := c.r
	if !valid || len(gets) == 0 || p.done != "return" {
		return
	}
	fn := c.w.HFn("OnMessage")
	var done, msgs []int
	for i, e := range p.events {
		switch {
		case e.Pan:
		case r.isHook(e, "HandleContextDone"):
			done = append(done, i)
		case r.isHook(e, "HandleMessageDone"):
			msgs = append(msgs, i)
		}
	}
	c.ob("contexts reported done")
	if len(chains) == 0 && len(done) == 0 && len(msgs) == 1 {
		return // no context was needed
	}
	if len(done) != 1 {
		c.bad("done", kind+" count", fn.Pos(), p, "the context of a dispatched %s is reported done %d times", kind, len(done))
		return
	}
	for _, i := range chains {
		a, b := p.events[i], p.events[done[0]]
		if i > done[0] || a.G != b.G && a.GKind == "exec" {
			c.bad("done", kind+" early", b.Pos, p, "the context of a %s is reported done before its handlers ran", kind)
		}
		if a.Args[1] != b.Args[1] {
			c.bad("done", kind+" other", b.Pos, p, "another context than the one the handlers of a %s saw is reported done", kind)
		}
	}
}

// executorRule: AsyncExecute runs what it is given once.
func (c *Check) executorRule() {
	fn := c.w.HFn("AsyncExecute")
	if !c.need(fn, "Handler.AsyncExecute") {
		return
	}
	own := c.setterField("SetAsyncExecutor")
	if own == nil {
		return
	}
	o := c.std()
	o.RunSpawned = true
	nn := o.NonNil
	o.NonNil = func(t *Term) bool { return loadField(t) != own && nn(t) }
	ex := c.explore("Handler.AsyncExecute", fn, o)
	// an executor may panic, also after it ran the work
	o.PanicAt = func(e *Event) bool { return e.Kind == "dyn" && len(e.Args) > 0 && loadField(e.Args[0]) == own }
	paths := append(append([]*Path{}, ex.paths...), c.explore("Handler.AsyncExecute panics", fn, o).paths...)
	a := ex.ParamTerms(fn)
	for _, p := range paths {
		if p.done != "return" {
			if p.done == "panic" && c.anyAfter(p, -1, func(e *Event) bool { return e.Kind == "dyn" && len(e.Args) > 0 && loadField(e.Args[0]) == own }) {
				continue
			}
			if p.done != "cut" {
				c.bad("executor", "end", fn.Pos(), p, "handing work to the executor ends in a %s", p.done)
			}
			continue
		}
		c.ob("executions")
		handed, ran, inline, fresh := 0, 0, 0, 0
		for _, e := range p.events {
			if e.Kind != "dyn" || len(e.Args) == 0 {
				continue
			}
			switch {
			case loadField(e.Args[0]) == own && loadBase(e.Args[0]) == a[0]:
				if len(e.Args) == 2 && (e.Args[1] == a[1] || c.mentions(p, e.Args[1], a[1])) {
					handed++
				}
			case e.Args[0] == a[1]:
				if e.G == 0 {
					inline++
				} else {
					ran++
					if e.GKind != "exec" {
						fresh++
					}
				}
			}
		}
		set := true
		if nil0, known := p.isNil(p.loadF(a[0], own)); known {
			set = !nil0
		} else {
			c.bad("executor", "unasked", fn.Pos(), p, "work is started without regard to whether an executor is set")
			continue
		}
		switch {
		case inline > 0:
			c.bad("executor", "inline", fn.Pos(), p, "work handed to the executor runs on the caller's goroutine")
		case set && (handed != 1 || ran > 0 && fresh > 0):
			c.bad("executor", "set", fn.Pos(), p, "work is handed to the executor %d times", handed)
		case !set && (handed != 0 || ran != 1):
			c.bad("executor", "none", fn.Pos(), p, "without an executor the work runs %d times", ran)
		}
	}
	c.floor("executions", 2)
}

// lenKnown: the path compared something with the length of rec's handler list.
func (p *Path) lenKnown(v *types.Var, rec *Term) bool {
	for _, t := range p.conds {
		if t.walk(func(x *Term) bool { return x.op == "len" && loadField(x.args[0]) == v && loadBase(x.args[0]) == rec }) {
			return true
		}
	}
	return false
}

func where(e *Event) string {
	switch e.GKind {
	case "exec":
		return "the executor"
	case "timer":
		return "a timer"
	case "":
		return "the reading goroutine"
	}
	return "a new goroutine"
}

func (c *Check) nilRoutes(p *Path) bool {
	for t, v := range p.facts {
		if v && t.walk(func(x *Term) bool { return loadField(x) == c.r.routes }) {
			return true
		}
	}
	return false
}

// pongFrame: the pong message is built as a pong.
func (c *Check) pongFrame() {
	for name, cmd := range map[string]int64{"PongMessage": 5, "PingMessage": 4} {
		n := 0
		for _, f := range c.w.allFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok || g.Name() != name || g.Pkg.Pkg.Path() != modPath {
						continue
					}
					n++
					call, ok := st.Val.(*ssa.Call)
					good := ok && len(call.Call.Args) > 0
					if good {
						k, isK := call.Call.Args[0].(*ssa.Const)
						good = isK && k.Int64() == cmd
					}
					if !good {
						c.bad("ping", name, st.Pos(), nil, "%s is not built with command %d", name, cmd)
					}
				}
			}
		}
		c.ob("ping and pong frames")
		if n != 1 {
			c.bad("ping", name+" stores", token.NoPos, nil, "%s is assigned %d times", name, n)
		}
	}
}

func (c *Check) replyKind() {
	r := c.r
	mf := fieldNamed(r.context, "Message")
	for _, op := range c.ops("Context.Write", "Context.WriteWithTimeout", "Context.Error") {
		ex := c.exploreOp(op)
		ctx := ex.ParamTerms(op.fn)[0]
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			req := p.ex.load(p.State, p.ex.field(ctx, mf), mf.Type())
			cmd, known := p.cmdOf(r, req)
			for _, e := range p.events {
				cn, _ := r.written(e)
				if r.queued(e) == nil && cn == nil {
					continue
				}
				c.ob("replies")
				if !known || cmd != 1 {
					c.bad("reply-kind", op.name, e.Pos, p, "%s sends a reply to a message that may not be a request", op.name)
				}
			}
			if (!known || cmd != 1) && p.errIs(p.results[0]) != "err" {
				c.bad("reply-kind", op.name+" result", op.fn.Pos(), p, "%s reports success for a message that is not a request", op.name)
			}
		}
	}
}

func (c *Check) registration(k *chainRoles) {
	r := c.r
	def := c.setterField("SetAsyncResponse")
	for _, n := range []string{"Handle", "HandleStream"} {
		fn := c.w.HFn(n)
		if !c.need(fn, "Handler."+n) {
			continue
		}
		want := r.routes
		if n == "HandleStream" {
			want = r.streamRoutes
		}
		rt := deref(want.Type().Underlying().(*types.Map).Elem())
		var av *types.Var
		for _, v := range fieldsWhere(rt, func(v *types.Var) bool { return isBool(v.Type()) }) {
			av = v
		}
		given := c.w.tt.mk("param", "given mode", types.Typ[types.Bool], nil)
		for _, kind := range []string{"none", "bool", "other"} {
			o := c.std()
			opt := given
			switch kind {
			case "none":
				opt = nil
			case "other":
				opt = c.w.tt.mk("param", "given text", types.Typ[types.String], nil)
			}
			if !c.variadic(&o, fn, opt) {
				c.need(nil, "the optional arguments of Handler."+n)
				break
			}
			args := o.Args
			ex := c.explore("Handler."+n+" args "+kind, fn, o)
			done := 0
			for _, p := range ex.paths {
				if p.done != "return" {
					continue
				}
				done++
				var own []*Event
				for _, e := range p.events {
					if e.Kind == "mapset" && c.tableOf(p, e.Args[0], want) && e.Args[1] == args[1] {
						own = append(own, e)
					}
				}
				c.ob("registered methods")
				if len(own) != 1 {
					c.bad("registered", n, fn.Pos(), p, "Handler.%s stores %d entries under the given name", n, len(own))
					continue
				}
				v := p.loadF(own[0].Args[2], av)
				if kind == "bool" {
					if v != given {
						x, k1 := p.truth(v)
						y, k2 := p.truth(given)
						if !k1 || !k2 || x != y {
							c.bad("registered", n+" mode", own[0].Pos, p, "Handler.%s ignores the caller's choice of inline or asynchronous", n)
						}
					}
				} else if !(loadField(v) == def && loadBase(v) == args[0]) {
					c.bad("registered", n+" default", own[0].Pos, p, "Handler.%s does not use the handler's default when the caller does not choose", n)
				}
			}
			if done == 0 {
				c.bad("registered", n+" "+kind, fn.Pos(), nil, "Handler.%s does not register a method on any path (optional argument: %s)", n, kind)
			}
		}
	}
}

// variadic: fn is called with the given optional argument, or with none.
func (c *Check) variadic(o *Opts, fn *ssa.Function, v *Term) bool {
	tt := c.w.tt
	args := c.w.paramTerms(fn)
	last := len(args) - 1
	if last < 0 || !fn.Signature.Variadic() {
		return false
	}
	sl, ok := fn.Params[last].Type().Underlying().(*types.Slice)
	if !ok || !types.IsInterface(sl.Elem()) {
		return false
	}
	o.Args = args
	if v == nil {
		args[last] = tt.Nil()
		return true
	}
	base := tt.mk("param", "given args", fn.Params[last].Type(), nil)
	args[last] = tt.mk("slice", "", fn.Params[last].Type(), nil, base, tt.Int(0), tt.Int(1))
	init := o.Init
	o.Init = func(ex *Ex, s *State) {
		if init != nil {
			init(ex, s)
		}
		s.mem[ex.idx(base, tt.Int(0), sl.Elem())] = tt.mk("iface", typeKey(v.typ), types.NewInterfaceType(nil, nil), v.typ, v)
	}
	return true
}

// tableOf: the map is the one in field v, loaded from it or just stored into it.
func (c *Check) tableOf(p *Path, m *Term, v *types.Var) bool {
	if loadField(m) == v {
		return true
	}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == v && e.Args[1] == m {
			return true
		}
	}
	return false
}

func (c *Check) setterField(name string) *types.Var {
	fn := c.w.HFn(name)
	var v *types.Var
	if fn == nil {
		return nil
	}
	visitFns(c.w, fn, 2, func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.r.handler) {
						v = structOf(fa.X.Type()).Field(fa.Field)
					}
				}
			}
		}
	})
	return v
}

// ---- C14 -------------------------------------------------------------------------

func ruleC14(c *Check) {
	r := c.r
	c.rule("next", "Next advances the position by one before it runs the element at the old position, once; past the end it does nothing; nothing else moves the position except Abort")
	c.rule("abort", "after Abort the position is at or past the end of the list whatever its length")
	c.rule("wrapped", "what Use and Handle put into a list runs the user's function exactly once and then, on every way out of it, continues with Next exactly once")
	c.rule("use", "Use appends its wrapped function to the middleware list and to the end of the list of every registered method, keeping the entry's other settings")
	c.rule("handle", "Handle and HandleNotFound store a list consisting of the whole middleware list in order followed by the wrapped function; the built-in not-found entry is the middleware list followed by one that replies method-not-found; the list does not share its array with the middleware list")
	c.rule("fresh", "a context starts at position 0: it is either set so or comes from a pool whose every returned context was cleared")
	k := c.chain()
	if !k.ok {
		return
	}
	next, abort := c.w.Fn("", "Context.Next"), c.w.Fn("", "Context.Abort")
	if c.need(next, "Context.Next") {
		ex := c.explore("Context.Next", next, c.std())
		ctx := ex.ParamTerms(next)[0]
		i0 := ex.tt.mk("init", "", k.ctxIdx.Type(), nil, ex.field(ctx, k.ctxIdx))
		hs := ex.tt.mk("init", "", k.ctxHs.Type(), nil, ex.field(ctx, k.ctxHs))
		ran := false
		for _, p := range ex.paths {
			if p.done == "cut" {
				c.bad("next", "loop", next.Pos(), p, "Next runs more than one element itself")
				continue
			}
			c.ob("next paths")
			var calls []int
			for i, e := range p.events {
				if l, _ := chainCall(e); l != nil {
					calls = append(calls, i)
				}
			}
			in, _ := p.ex.rangeOf(p.State, toLin(p.ex.lenOf(p.State, hs), 0).sub(toLin(i0, 0)))
			_, out := p.ex.rangeOf(p.State, toLin(p.ex.lenOf(p.State, hs), 0).sub(toLin(i0, 0)))
			switch {
			case in >= 1:
				ran = true
				if len(calls) != 1 {
					c.bad("next", "calls", next.Pos(), p, "Next runs %d elements instead of 1", len(calls))
					continue
				}
				e := p.events[calls[0]]
				l, ix := chainCall(e)
				if d, ok := p.linDiff(ix, i0); l != hs || !ok || d != 0 {
					c.bad("next", "element", e.Pos, p, "Next runs element %s, not the one at its position", ix)
				}
				if len(e.Args) != 2 || e.Args[1] != ctx {
					c.bad("next", "context", e.Pos, p, "Next hands on another context")
				}
				adv := false
				for _, x := range p.events[:calls[0]] {
					if x.Kind == "store" && x.Args[0] == p.ex.field(ctx, k.ctxIdx) {
						d, ok := p.linDiff(x.Args[1], i0)
						adv = ok && d == 1
					}
				}
				if !adv {
					c.bad("next", "advance", e.Pos, p, "Next does not advance its position by one before running the element: it would run again")
				}
				for _, x := range p.events[calls[0]+1:] {
					if x.Kind == "store" && x.Args[0] == p.ex.field(ctx, k.ctxIdx) {
						c.bad("next", "rewind", x.Pos, p, "Next changes the position after running an element, undoing an abort or an inner Next")
					}
				}
			case out <= 0:
				if len(calls) > 0 {
					c.bad("next", "past end", next.Pos(), p, "Next runs an element past the end")
				}
				for _, x := range p.events {
					if x.Kind == "store" && x.Args[0] == p.ex.field(ctx, k.ctxIdx) {
						if lo, _ := p.ex.rangeOf(p.State, toLin(x.Args[1], 0).sub(toLin(p.ex.lenOf(p.State, hs), 0))); lo < 0 {
							c.bad("next", "past end moves", x.Pos, p, "Next past the end moves the position back")
						}
					}
				}
			default:
				c.bad("next", "bound", next.Pos(), p, "Next does not compare its position with the length of the list")
			}
		}
		if !ran {
			c.bad("next", "never", next.Pos(), nil, "Next never runs an element")
		}
	}
	if c.need(abort, "Context.Abort") {
		ex := c.explore("Context.Abort", abort, c.std())
		ctx := ex.ParamTerms(abort)[0]
		for _, p := range ex.paths {
			c.ob("abort paths")
			if p.done != "return" {
				c.bad("abort", "ends", abort.Pos(), p, "Abort does not return")
				continue
			}
			ix, hs := p.loadF(ctx, k.ctxIdx), p.loadF(ctx, k.ctxHs)
			lo, _ := p.ex.rangeOf(p.State, toLin(ix, 0).sub(toLin(p.ex.lenOf(p.State, hs), 0)))
			if lo < 0 {
				c.bad("abort", "position", abort.Pos(), p, "after Abort the position (%s) may still be inside the list", ix)
			}
		}
	}
	// nobody else moves the position
	for _, f := range c.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != k.ctxIdx {
					continue
				}
				c.ob("position writes")
				if k, isK := st.Val.(*ssa.Const); isK && k.Int64() == 0 {
					// clearing: only allowed outside the chain operations
					if !c.calledFromHandlers(f) {
						continue
					}
				}
				if !c.reaches(next, f) && !c.reaches(abort, f) {
					c.bad("next", "writer "+fnName(f), st.Pos(), nil, "%s changes the position of a handler chain", fnName(f))
				}
			}
		}
	}
	c.chainFresh(k)
	c.useRule(k)
	c.handleRule(k)
	c.floor("next paths", 2)
	c.floor("abort paths", 1)
	c.floor("wrapped functions", 3)
	c.floor("use paths", 2)
	c.floor("handle paths", 2)
	_ = r
}

func (c *Check) calledFromHandlers(f *ssa.Function) bool {
	return f == c.w.Fn("", "Context.Write") || f == c.w.Fn("", "Context.Error")
}

// reaches: to is from, or called by it.
func (c *Check) reaches(from, to *ssa.Function) bool {
	hit := false
	visitFns(c.w, from, 5, func(f *ssa.Function) { hit = hit || f == to })
	return hit
}

func (c *Check) chainFresh(k *chainRoles) {
	ex := c.onMessageN(0)
	if ex == nil {
		return
	}
	needPool := false
	for _, p := range ex.paths {
		for i, e := range p.events {
			l, ix := chainCall(e)
			if l == nil || !isHandlerSlice2(l) {
				continue
			}
			c.ob("started chains")
			if n, ok := ix.IntVal(); ok {
				if n != 0 {
					c.bad("fresh", "start", e.Pos, p, "a chain starts at position %d", n)
				}
				continue
			}
			if loadField(ix) == k.ctxIdx && loadBase(ix) == e.Args[1] && e.Args[1].op == "poolobj" {
				needPool = true
				continue
			}
			c.bad("fresh", "start", e.Pos, p, "a chain starts at position %s", ix)
			_ = i
		}
	}
	if !needPool {
		return
	}
	// every context given back is cleared
	for _, fn := range c.rootsTouching(func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		t := call.Call.StaticCallee()
		if t == nil || t.String() != "(*sync.Pool).Put" || len(call.Call.Args) != 2 {
			return false
		}
		mi, ok := call.Call.Args[1].(*ssa.MakeInterface)
		return ok && types.Identical(deref(mi.X.Type()), c.r.context)
	}) {
		ex := c.explore("pool "+fnName(fn), fn, c.std())
		for _, p := range ex.paths {
			for i, e := range p.events {
				if !isCall(e, "sync.Pool).Put") {
					continue
				}
				x := e.Args[1]
				if x.op == "iface" {
					x = x.args[0]
				}
				if x.typ == nil || !types.Identical(deref(x.typ), c.r.context) {
					continue
				}
				c.ob("contexts given back")
				for _, v := range []*types.Var{k.ctxIdx, k.ctxErr, k.ctxHs, k.ctxMsg} {
					if !p.cleared(x, v, i) {
						c.bad("fresh", "pool "+v.Name(), e.Pos, p, "a context is given back to the pool with its %s not cleared", v.Name())
					}
				}
			}
		}
	}
	c.floor("contexts given back", 1)
}

// cleared: the last value of the field stored before event i is its zero value.
func (p *Path) cleared(obj *Term, v *types.Var, i int) bool {
	t := p.loadF(obj, v)
	if t.IsNil() {
		return true
	}
	if n, ok := t.IntVal(); ok && n == 0 {
		return true
	}
	if b, ok := t.BoolVal(); ok && !b {
		return true
	}
	// copied from a package-level zero value
	return t.op == "fieldv" && t.args[0].op == "gval" || t.op == "init" && t.args[0].root().op == "global" || t.op == "gval"
}

// wrapper: the term is a function that runs cb once and then Next once. want "" = user callback.
func (c *Check) wrapper(what string, p *Path, t, cb *Term) {
	f := c.closureOf(t)
	if f == nil {
		c.bad("wrapped", what, token.NoPos, p, "%s stores %s into a handler list, not a wrapped function", what, t)
		return
	}
	next := c.w.Fn("", "Context.Next")
	o := c.std()
	op0 := o.Opaque
	o.Opaque = func(fn *ssa.Function) bool { return fn == next || op0(fn) }
	o.Bind = t.args
	st := p.State
	o.Init = func(ex *Ex, s *State) {
		for k, v := range st.mem {
			s.mem[k] = v
		}
	}
	ex := c.w.Explore(f, o)
	for _, q := range ex.paths {
		if q.done != "return" {
			continue
		}
		c.ob("wrapped functions")
		ctx := q.ex.ParamTerms(f)[0]
		cbs, nexts := 0, 0
		for _, e := range q.events {
			if e.Kind == "dyn" {
				if e.Args[0] == cb && len(e.Args) == 2 && e.Args[1] == ctx {
					cbs++
					if nexts > 0 {
						c.bad("wrapped", what+" order", e.Pos, q, "%s: the rest of the chain runs before the function itself", what)
					}
				} else {
					c.bad("wrapped", what+" other", e.Pos, q, "%s: something else than the given function is run", what)
				}
			}
			if e.Kind == "call" && e.Name == next.String() && e.Args[0] == ctx {
				nexts++
			}
			if e.Kind == "go" || e.Kind == "exec" {
				c.bad("wrapped", what+" go", e.Pos, q, "%s: part of the chain runs on another goroutine", what)
			}
		}
		if cb != nil && cbs != 1 {
			c.bad("wrapped", what+" calls", f.Pos(), q, "%s: the function runs %d times", what, cbs)
		}
		if nexts != 1 {
			c.bad("wrapped", what+" next", f.Pos(), q, "%s: the chain is continued %d times after the function", what, nexts)
		}
	}
}

func (c *Check) closureOf(t *Term) *ssa.Function {
	if t != nil && (t.op == "closure" || t.op == "fn") {
		return t.aux.(*ssa.Function)
	}
	return nil
}

func (c *Check) useRule(k *chainRoles) {
	r := c.r
	fn := c.w.HFn("Use")
	if !c.need(fn, "Handler.Use") {
		return
	}
	ex := c.explore("Handler.Use", fn, c.std())
	args := ex.ParamTerms(fn)
	h, cb := args[0], args[1]
	oldM := ex.tt.mk("init", "", r.middles.Type(), nil, ex.field(h, r.middles))
	wrapped := map[*ssa.Function]bool{}
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		isN, kn := p.isNil(cb)
		if kn && isN {
			if len(p.stored(nil)) > 0 {
				c.bad("use", "nil", fn.Pos(), p, "Use with a nil function changes the handler")
			}
			continue
		}
		c.ob("use paths")
		seq := p.seqOf(p.loadF(h, r.middles))
		old := p.norm([]piece{{whole: oldM}})
		if len(seq) != len(old)+1 || !samePieces(seq[:len(old)], old) || seq[len(old)].elem == nil {
			c.bad("use", "middleware list", fn.Pos(), p, "Use leaves the middleware list %v instead of the old one followed by the new function", seq)
			continue
		}
		w := seq[len(old)].elem
		if f := c.closureOf(w); f == nil || !wrapped[f] {
			c.wrapper("Use", p, w, cb)
			if f != nil {
				wrapped[f] = true
			}
		}
		ended := false
		for i, e := range p.events {
			if e.Kind == "rangeend" && loadField(e.Args[0]) == r.routes {
				ended = true
			}
			if e.Kind != "range" || loadField(e.Args[0]) != r.routes {
				continue
			}
			key, old := e.Args[1], e.Args[2]
			var rec *Term
			for _, x := range p.events[i:] {
				if x.Kind == "mapset" && loadField(x.Args[0]) == r.routes && x.Args[1] == key {
					rec = x.Args[2]
				}
			}
			if rec == nil {
				rec = old // changed in place
			}
			oh := p.ex.tt.mk("init", "", k.handlers.Type(), nil, p.ex.field(old, k.handlers))
			want := append(p.norm([]piece{{whole: oh}}), piece{elem: w})
			got := p.seqOf(p.loadF(rec, k.handlers))
			if !samePieces(want, got) {
				c.bad("use", "method list", e.Pos, p, "Use leaves a registered method with the list %v instead of its own followed by the new function", got)
			}
			if rec != old {
				for _, v := range fieldsWhere(k.routeT, func(v *types.Var) bool { return v != k.handlers }) {
					if p.loadF(rec, v) != p.ex.tt.mk("init", "", v.Type(), nil, p.ex.field(old, v)) {
						c.bad("use", "settings", e.Pos, p, "Use changes %s of a registered method", v.Name())
					}
				}
			}
			c.ob("registered lists extended")
		}
		if !ended && !c.nilRoutes(p) {
			c.bad("use", "all methods", fn.Pos(), p, "Use does not visit every registered method")
		}
	}
	c.floor("registered lists extended", 1)
}

func (c *Check) handleRule(k *chainRoles) {
	r := c.r
	for _, n := range []string{"Handle", "HandleNotFound"} {
		fn := c.w.HFn(n)
		if !c.need(fn, "Handler."+n) {
			continue
		}
		ex := c.explore("Handler."+n, fn, c.std())
		args := ex.ParamTerms(fn)
		h := args[0]
		cb := args[len(args)-1]
		for i, pr := range fn.Params {
			if nm, ok := pr.Type().(*types.Named); ok && nm.Obj().Name() == "HandlerFunc" {
				cb = args[i]
			}
		}
		oldM := ex.tt.mk("init", "", r.middles.Type(), nil, ex.field(h, r.middles))
		done := map[*ssa.Function]bool{}
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("handle paths")
			last := map[string]*Event{}
			for _, e := range p.events {
				if e.Kind == "mapset" && c.tableOf(p, e.Args[0], r.routes) {
					key := "?"
					if s, ok := e.Args[1].StrVal(); ok && s == "" {
						key = ""
					} else if n == "Handle" && e.Args[1] == args[1] {
						key = "method"
					}
					last[key] = e
				}
			}
			own := "method"
			if n == "HandleNotFound" {
				own = ""
			}
			if last["?"] != nil {
				c.bad("handle", n+" name", last["?"].Pos, p, "Handler.%s registers another name than the one given", n)
			}
			if last[own] == nil {
				c.bad("handle", n+" none", fn.Pos(), p, "Handler.%s returns without registering anything", n)
				continue
			}
			for key, e := range last {
				if key == "?" {
					continue
				}
				got := p.seqOf(p.loadF(e.Args[2], k.handlers))
				want := p.norm([]piece{{whole: oldM}})
				if len(got) != len(want)+1 || !samePieces(got[:len(want)], want) || got[len(want)].elem == nil {
					c.bad("handle", n+" list", e.Pos, p, "Handler.%s stores the list %v instead of all middleware followed by one handler", n, got)
					continue
				}
				if extends(p.loadF(e.Args[2], k.handlers), oldM) {
					c.bad("handle", n+" array", e.Pos, p, "Handler.%s appends the handler to the middleware list itself: lists of different methods share one array and overwrite each other's handler", n)
				}
				w := got[len(want)].elem
				f := c.closureOf(w)
				if f != nil && done[f] {
					continue
				}
				if f != nil {
					done[f] = true
				}
				if key == own {
					c.wrapper("Handler."+n, p, w, cb)
				} else {
					c.notFoundWrapper(p, w)
				}
			}
		}
	}
}

func (c *Check) notFoundWrapper(p *Path, t *Term) {
	f := c.closureOf(t)
	if f == nil {
		c.bad("handle", "default not-found", token.NoPos, p, "the built-in not-found entry is not a function")
		return
	}
	ef := c.w.Fn("", "Context.Error")
	o := c.std()
	op0 := o.Opaque
	o.Opaque = func(fn *ssa.Function) bool { return fn == ef || fn == c.w.Fn("", "Context.Next") || op0(fn) }
	o.Bind = t.args
	ex := c.w.Explore(f, o)
	for _, q := range ex.paths {
		n := 0
		for _, e := range q.events {
			if e.Kind == "call" && e.Name == ef.String() {
				a := e.Args[1]
				if a.op == "iface" {
					a = a.args[0]
				}
				if errGlobal(a) == "ErrMethodNotFound" {
					n++
				}
			}
		}
		c.ob("wrapped functions")
		if n != 1 && q.done == "return" {
			c.bad("handle", "default not-found", f.Pos(), q, "the built-in not-found handler does not reply method-not-found once")
		}
	}
}

// ---- C18 -------------------------------------------------------------------------

func ruleC18(c *Check) {
	r := c.r
	c.rule("deep", "Clone returns a new handler whose tables and lists are newly allocated copies with the same contents, entry records included, and whose other settings equal the original's; its context is its own")
	c.rule("own", "no function stored in a handler's settings captures a particular handler, so a clone's callbacks use the clone's settings")
	c.rule("no-share", "registration replaces or extends only what belongs to the handler it is called on")
	fn := c.w.HFn("Clone")
	if !c.need(fn, "Handler.Clone") {
		return
	}
	ex := c.explore("Handler.Clone", fn, c.std())
	h := ex.ParamTerms(fn)[0]
	st := structOf(r.handler)
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("clones")
		res := p.results[0]
		if res.op == "iface" {
			res = res.args[0]
		}
		if res.op != "alloc" {
			c.bad("deep", "object", fn.Pos(), p, "Clone does not return a new handler")
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			nv := p.loadF(res, v)
			ov := p.ex.tt.mk("init", "", v.Type(), nil, p.ex.field(h, v))
			c.ob("settings compared")
			switch u := v.Type().Underlying().(type) {
			case *types.Map:
				c.cloneMap(fn, p, v, nv, ov, u)
			case *types.Slice:
				if sharesArray(nv, ov) {
					c.bad("deep", v.Name()+" shared", fn.Pos(), p, "the clone's %s shares memory with the original's", v.Name())
					continue
				}
				if !samePieces(p.seqOf(nv), p.norm([]piece{{whole: ov}})) {
					c.bad("deep", v.Name()+" content", fn.Pos(), p, "the clone's %s is %v, not a copy of the original's", v.Name(), p.seqOf(nv))
				}
			default:
				if isCtxType(v.Type()) {
					if nv == ov {
						c.bad("deep", v.Name()+" shared", fn.Pos(), p, "the clone shares %s with the original: cancelling one cancels the other", v.Name())
					} else if nv.contains(h) {
						c.bad("deep", v.Name()+" derived", fn.Pos(), p, "the clone's %s is made from the original's: cancelling the original cancels the clone", v.Name())
					} else if !fromCall(nv) {
						c.bad("deep", v.Name()+" missing", fn.Pos(), p, "the clone has no %s of its own", v.Name())
					}
					continue
				}
				if nv != ov {
					c.bad("deep", v.Name(), fn.Pos(), p, "the clone's %s is %s, not the original's", v.Name(), nv)
				}
			}
		}
		for _, e := range p.events {
			if e.Kind == "store" && e.Args[0].root() == h || (e.Kind == "mapset" || e.Kind == "mapdel") && loadBase(e.Args[0]) == h {
				c.bad("deep", "original", e.Pos, p, "Clone changes the original")
			}
		}
	}
	// functions in settings capture no handler
	for _, f := range c.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var val ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(deref(fa.X.Type()), r.handler) {
						continue
					}
					val = x.Val
				case *ssa.Call:
					t := x.Call.StaticCallee()
					if t == nil || !c.w.isHandlerMethod(t) || len(x.Call.Args) < 2 || !c.storesHandlerFn(t) {
						continue
					}
					for _, a := range x.Call.Args[1:] {
						if mc, ok := unChange(a).(*ssa.MakeClosure); ok {
							c.capture(f, mc, in.Pos())
						}
					}
					continue
				default:
					continue
				}
				if _, ok := val.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				c.ob("stored functions")
				if mc, ok := unChange(val).(*ssa.MakeClosure); ok {
					c.capture(f, mc, in.Pos())
				}
			}
		}
	}
	c.noShare()
	c.floor("clones", 1)
	c.floor("settings compared", 20)
	c.floor("stored functions", 8)
	c.floor("table entries copied", 1)
}

func unChange(v ssa.Value) ssa.Value {
	for {
		ct, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = ct.X
	}
}

// storesHandlerFn: the method (or what it calls) stores a function into a handler's settings.
func (c *Check) storesHandlerFn(fn *ssa.Function) bool {
	hit := false
	visitFns(c.w, fn, 2, func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.r.handler) {
						if _, isF := st.Val.Type().Underlying().(*types.Signature); isF {
							hit = true
						}
					}
				}
			}
		}
	})
	return hit
}

// ownDone: the channel is the answer channel of a session record (loaded, or the one just put into it).
func (c *Check) ownDone(p *Path, ch *Term) bool {
	if ch == nil {
		return false
	}
	if loadField(ch) == c.r.sessDone {
		return true
	}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == c.r.sessDone && e.Args[1] == ch {
			return true
		}
	}
	return false
}

func (c *Check) capture(f *ssa.Function, mc *ssa.MakeClosure, pos token.Pos) {
	c.ob("stored functions")
	for _, b := range mc.Bindings {
		t := b.Type()
		for i := 0; i < 2; i++ {
			if types.Identical(t, types.NewPointer(c.r.handler)) || types.Identical(t, c.w.handlerIface) {
				// a handler handed in by the caller is not "this" handler only if the closure is about something else
				c.bad("own", fnName(f), pos, nil, "%s stores a function that captures the handler itself into its settings: a clone would keep using the original", fnName(f))
				return
			}
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t = p.Elem()
		}
	}
}

func isCtxType(t types.Type) bool {
	k := typeKey(t)
	return k == "context.Context" || k == "context.CancelFunc"
}

func fromCall(t *Term) bool {
	for t.op == "extract" || t.op == "iface" || t.op == "conv" {
		t = t.args[0]
	}
	return t.op == "call"
}

// extends: t is an append that may write into the array behind b.
func extends(t, b *Term) bool {
	if t.op == "slice" {
		return extends(t.args[0], b)
	}
	if t.op != "append" {
		return false
	}
	x := t.args[0]
	if x.op == "append" {
		return extends(x, b)
	}
	for x.op == "slice" {
		if len(x.args) > 3 && x.args[3] == x.args[2] {
			return false // no room left
		}
		x = x.args[0]
	}
	return x == b
}

func sharesArray(a, b *Term) bool {
	for {
		switch a.op {
		case "slice", "append":
			// append to a clipped or full slice may still reuse the array
			a = a.args[0]
			continue
		}
		break
	}
	return a == b
}

func (c *Check) cloneMap(fn *ssa.Function, p *Path, v *types.Var, nv, ov *Term, mt *types.Map) {
	r := c.r
	if nv == ov {
		c.bad("deep", v.Name()+" shared", fn.Pos(), p, "the clone shares %s with the original", v.Name())
		return
	}
	if nv.IsNil() {
		if n, k := p.isNil(ov); !k || !n {
			lo, hi := p.rng(p.ex.lenOf(p.State, ov))
			if !(lo == 0 && hi == 0) {
				c.bad("deep", v.Name()+" lost", fn.Pos(), p, "the clone loses the original's %s", v.Name())
			}
		}
		return
	}
	if nv.op != "makemap" {
		c.bad("deep", v.Name()+" odd", fn.Pos(), p, "the clone's %s is %s, not a new table", v.Name(), nv)
		return
	}
	ended := false
	for i, e := range p.events {
		if e.Kind == "rangeend" && e.Args[0] == ov {
			ended = true
		}
		if e.Kind != "range" || e.Args[0] != ov {
			continue
		}
		key, val := e.Args[1], e.Args[2]
		var got *Term
		for _, x := range p.events[i:] {
			if x.Kind == "mapset" && x.Args[0] == nv && x.Args[1] == key {
				got = x.Args[2]
			}
		}
		c.ob("table entries copied")
		if got == nil {
			c.bad("deep", v.Name()+" entry", e.Pos, p, "the clone's %s misses an entry of the original", v.Name())
			continue
		}
		es := structOf(mt.Elem())
		if _, isP := mt.Elem().Underlying().(*types.Pointer); !isP || es == nil {
			if got != val {
				c.bad("deep", v.Name()+" value", e.Pos, p, "the clone's %s holds another value", v.Name())
			}
			continue
		}
		if got == val {
			// sharing a record is harmless only if nothing ever changes a record in place
			if f := c.mutatesRecord(deref(mt.Elem())); f != "" {
				c.bad("deep", v.Name()+" record", e.Pos, p, "the clone shares the records of %s with the original, and %s changes them in place", v.Name(), f)
			}
			continue
		}
		for j := 0; j < es.NumFields(); j++ {
			f := es.Field(j)
			nf := p.loadF(got, f)
			of := p.ex.tt.mk("init", "", f.Type(), nil, p.ex.field(val, f))
			if _, isS := f.Type().Underlying().(*types.Slice); isS {
				if !samePieces(p.seqOf(nf), p.norm([]piece{{whole: of}})) {
					c.bad("deep", v.Name()+"."+f.Name(), e.Pos, p, "the %s of a copied entry of %s is %v, not a copy", f.Name(), v.Name(), p.seqOf(nf))
				}
				if sharesArray(nf, of) {
					if w := c.writesElems(f); w != "" {
						c.bad("deep", v.Name()+"."+f.Name()+" shared", e.Pos, p, "copied entries of %s share their %s with the original, and %s appends to or changes it in place", v.Name(), f.Name(), w)
					}
				}
				continue
			}
			if nf != of {
				c.bad("deep", v.Name()+"."+f.Name(), e.Pos, p, "the %s of a copied entry of %s differs from the original's", f.Name(), v.Name())
			}
		}
	}
	if !ended {
		if n, k := p.isNil(ov); !(k && n) {
			c.bad("deep", v.Name()+" all", fn.Pos(), p, "Clone does not copy every entry of %s", v.Name())
		}
	}
	_ = r
}

// mutatesRecord: a function that stores into a field of an existing record of this type.
func (c *Check) mutatesRecord(t types.Type) string {
	for _, f := range c.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), t) {
					continue
				}
				if _, isNew := fa.X.(*ssa.Alloc); !isNew {
					return fnName(f)
				}
			}
		}
	}
	return ""
}

// writesElems: a function that appends to, or stores into, the slice in this field as loaded from a record.
func (c *Check) writesElems(v *types.Var) string {
	for _, f := range c.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "append" && isFieldLoad(x.Call.Args[0], v) {
						return fnName(f)
					}
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isFieldLoad(ia.X, v) {
						return fnName(f)
					}
				}
			}
		}
	}
	return ""
}

// noShare: registration methods change only memory of their own handler.
func (c *Check) noShare() {
	r := c.r
	for _, n := range []string{"Use", "UseCoder", "Handle", "HandleNotFound", "HandleStream"} {
		fn := c.w.HFn(n)
		if !c.need(fn, "Handler."+n) {
			continue
		}
		ex := c.explore("Handler."+n, fn, c.std())
		h := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			for _, e := range p.stored(nil) {
				if e.Kind == "mapset" || e.Kind == "mapdel" {
					if e.Args[0].op == "makemap" || loadBase(e.Args[0]) == h {
						continue
					}
				}
				if e.Kind == "store" {
					a := e.Args[0]
					if a.root() == h || a.root().op == "makeslice" || a.root().op == "alloc" {
						continue
					}
				}
				if e.Kind == "copy" && sliceBase(e.Args[0]).op == "makeslice" {
					continue
				}
				c.ob("foreign writes")
				c.bad("no-share", n, e.Pos, p, "Handler.%s changes %s, which a clone of this handler may share", n, e.Args[0])
			}
		}
	}
	_ = r
}

// ---- C17 -------------------------------------------------------------------------

func ruleC17(c *Check) {
	r := c.r
	c.rule("reply-flag", "a reply carries the error mark exactly if it was made with Error and a non-nil value or with an error value, queued or direct; the mark is then visible through ResponseError")
	c.rule("error-read", "Message.Error is nil exactly if the error mark is clear, and otherwise an error made of exactly the body bytes")
	c.rule("call-result", "a call that got a response returns an error made from it if it is marked, reports a response of another kind and a lost response as errors, and otherwise returns nil or the codec's error; nothing is stored into the caller's result unless the response is unmarked")
	c.rule("callback-result", "an asynchronous callback is given a nil error exactly if the response is unmarked")
	c.rule("request-plain", "no request or notification leaves with the error mark set: neither one a client sends nor one made with NewMessage")
	k := c.chain()
	if !k.ok {
		return
	}
	c.plainRequests()
	for _, op := range c.ops("Context.Write", "Context.WriteWithTimeout", "Context.Error") {
		ex := c.exploreOp(op)
		ctx, v := ex.ParamTerms(op.fn)[0], ex.ParamTerms(op.fn)[1]
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			for _, e := range p.events {
				var m *Term
				if m = r.queued(e); m == nil {
					if _, b := r.written(e); b != nil {
						m = origin(msgOfBuf(p, r, b))
					}
				}
				if m == nil {
					continue
				}
				c.ob("replies")
				mark, known := p.bitVal(p.hbits(p.buf(r, m), 48, 1)[0])
				if !known {
					c.bad("reply-flag", op.name+" unknown", e.Pos, p, "%s sends a reply whose error mark does not follow from the value", op.name)
					continue
				}
				isErr := c.errorValue(p, v)
				want := isErr == "yes"
				if op.name == "Context.Error" {
					if isErr == "yes" {
						want = true
					} else if n, kn := p.isNil(v); kn {
						want = !n
					} else {
						c.bad("reply-flag", op.name+" nil", e.Pos, p, "%s does not distinguish a nil value", op.name)
						continue
					}
				} else if isErr == "?" {
					c.bad("reply-flag", op.name+" type", e.Pos, p, "%s does not look at whether its value is an error", op.name)
					continue
				}
				if mark != want {
					c.bad("reply-flag", op.name, e.Pos, p, "%s sends a reply with error mark %v for a value that is %s an error", op.name, mark, map[bool]string{true: "", false: "not"}[want])
				}
				if mark && p.loadF(ctx, k.ctxErr) != v {
					c.bad("reply-flag", op.name+" visible", e.Pos, p, "%s sends an error reply that ResponseError does not show", op.name)
				}
				if !mark && p.loadF(ctx, k.ctxErr) == v && !v.IsNil() {
					c.bad("reply-flag", op.name+" phantom", e.Pos, p, "%s records an error although the reply is not one", op.name)
				}
				// the body is the value
				val := false
				for _, x := range p.events {
					if isCall(x, "util.ValueToBytes") && len(x.Args) == 2 && x.Args[1] == v {
						val = true
					}
				}
				if !val {
					c.bad("reply-flag", op.name+" body", e.Pos, p, "%s sends something other than the given value", op.name)
				}
			}
		}
	}
	if fn := c.w.Fn("", "Message.Error"); c.need(fn, "Message.Error") {
		ex := c.explore("Message.Error", fn, c.std())
		m := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("error reads")
			mark, known := p.bitVal(p.hbits(p.buf(r, m), 48, 1)[0])
			if !known || mark == p.results[0].IsNil() || mark && !c.errorOf(p, p.results[0], m) {
				c.bad("error-read", "Message.Error", fn.Pos(), p, "Message.Error returns %s for error mark %v", p.results[0], mark)
			}
		}
	}
	if fn := c.w.Fn("", "Context.Bind"); c.need(fn, "Context.Bind") {
		ex := c.explore("Context.Bind", fn, c.std())
		args := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			m := p.loadF(args[0], k.ctxMsg)
			c.responsePath("Context.Bind", fn, p, m, args[1], p.results[0], false)
		}
	}
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext") {
		ex := c.exploreOp(op)
		args := ex.ParamTerms(op.fn)
		var rsp *Term
		n := 0
		for i, pr := range op.fn.Params {
			if types.IsInterface(pr.Type()) && typeKey(pr.Type()) == "interface{}" {
				n++
				if n == 2 {
					rsp = args[i]
				}
			}
		}
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			var got *Event
			for _, e := range p.events {
				if e.G == 0 && (e.Kind == "recv" || e.Kind == "select" && e.Chosen >= 0 && !e.Cases[e.Chosen].Send) && c.ownDone(p, e.waitedCh()) {
					got = e
				}
			}
			if got == nil {
				for _, e := range p.events {
					if c.storesInto(e, rsp) {
						c.bad("call-result", op.name+" early", e.Pos, p, "%s stores into the caller's result without having received a response", op.name)
					}
				}
				continue
			}
			if got.Res == nil || got.Name == "closed" {
				c.ob("lost responses")
				if p.errIs(p.results[0]) != "err" {
					c.bad("call-result", op.name+" lost", got.Pos, p, "%s does not report a lost response as an error", op.name)
				}
				for _, e := range p.events {
					if c.storesInto(e, rsp) {
						c.bad("call-result", op.name+" lost store", e.Pos, p, "%s stores into the caller's result although the response was lost", op.name)
					}
				}
				continue
			}
			c.responsePath(op.name, op.fn, p, got.Res, rsp, p.results[0], true)
		}
	}
	// callbacks
	ex := c.onMessageN(0)
	if ex != nil {
		msg := ex.ParamTerms(c.w.HFn("OnMessage"))[2]
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind != "dyn" || loadField(e.Args[0]) != r.asyncFn {
					continue
				}
				c.ob("callbacks")
				mark, known := p.bitVal(p.hbits(p.buf(r, msg), 48, 1)[0])
				er := e.Args[2]
				if !known || mark == er.IsNil() || mark && !c.errorOf(p, er, msg) {
					c.bad("callback-result", "error", e.Pos, p, "the callback is given error %s for a response with error mark %v", er, mark)
				}
			}
		}
	}
	c.floor("replies", 6)
	c.floor("error reads", 2)
	c.floor("responses", 6)
	c.floor("lost responses", 2)
	c.floor("callbacks", 2)
}

// errorValue: whether the path knows the value to implement error.
// plainRequests: what asks for something is never marked as an error.
func (c *Check) plainRequests() {
	r := c.r
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext", "Client.CallAsync", "Client.Notify", "Client.NotifyWith", "Client.NotifyContext") {
		for _, p := range c.exploreOp(op).paths {
			for _, e := range p.events {
				m := r.queued(e)
				if m == nil {
					if _, b := r.written(e); b != nil {
						m = msgOfBuf(p, r, b)
					}
				}
				if m == nil || p.done == "cut" {
					continue
				}
				c.ob("requests sent")
				if v, k := p.bitVal(p.hbits(p.buf(r, origin(m)), 48, 1)[0]); !k || v {
					c.bad("request-plain", op.name, e.Pos, p, "%s sends a message that can carry the error mark", op.name)
				}
			}
		}
	}
	for _, n := range []string{"Client.NewMessage", "Server.NewMessage"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		ex := c.explore(n, fn, c.std())
		for _, p := range ex.paths {
			if p.done != "return" || len(p.results) != 1 || p.results[0].IsNil() {
				continue
			}
			c.ob("requests made")
			if v, k := p.bitVal(p.hbits(p.buf(r, p.results[0]), 48, 1)[0]); !k || v {
				c.bad("request-plain", n, fn.Pos(), p, "%s makes a message that can carry the error mark", n)
			}
			if v, k := p.bitVal(p.hbits(p.buf(r, p.results[0]), 49, 1)[0]); !k || v {
				c.bad("request-plain", n+" async", fn.Pos(), p, "%s makes a message that can carry the mark of an asynchronous call", n)
			}
		}
	}
	c.floor("requests sent", 14)
	c.floor("requests made", 2)
}

func (c *Check) errorValue(p *Path, v *Term) string {
	t := p.ex.tt.mk("istype", "error", types.Typ[types.Bool], types.Universe.Lookup("error").Type(), v)
	if b, ok := p.truth(t); ok {
		if b {
			return "yes"
		}
		return "no"
	}
	if n, ok := p.isNil(v); ok && n {
		return "no"
	}
	return "?"
}

// errorOf: errors.New of exactly the message's body.
func (c *Check) errorOf(p *Path, er, m *Term) bool {
	if er.op == "iface" {
		er = er.args[0]
	}
	if er.op != "call" || len(er.args) < 1 || !strings.HasPrefix(er.s, "errors.New") {
		return false
	}
	t := er.args[0]
	for t.op == "conv" {
		t = t.args[0]
	}
	buf := p.buf(c.r, m)
	if t.op != "slice" || t.args[0] != buf {
		return false
	}
	d, ok := p.linDiff(t.args[1], p.cell(buf, 7))
	return ok && d == 16 && t.args[2] == p.ex.lenOf(p.State, buf)
}

// storesInto: the event writes through the value v.
func (c *Check) storesInto(e *Event, v *Term) bool {
	if v == nil {
		return false
	}
	switch e.Kind {
	case "store":
		rt := e.Args[0].root()
		if rt.op == "unwrap" {
			rt = rt.args[0]
		}
		return rt == v
	case "call":
		if !strings.HasSuffix(e.Name, "Unmarshal") && !strings.HasSuffix(e.Name, "BytesToValue") {
			return false
		}
		for _, a := range e.Args {
			if a == v {
				return true
			}
		}
	}
	return false
}

func (c *Check) responsePath(name string, fn *ssa.Function, p *Path, m, rsp, res *Term, kindMatters bool) {
	r := c.r
	c.ob("responses")
	cmd, known := p.cmdOf(r, m)
	stores := 0
	var at *Event
	for _, e := range p.events {
		if c.storesInto(e, rsp) {
			stores++
			at = e
		}
	}
	if kindMatters && (!known || cmd != 2) {
		if p.errIs(res) != "err" {
			c.bad("call-result", name+" kind", fn.Pos(), p, "%s does not report a response of another kind as an error", name)
		}
		if stores > 0 {
			c.bad("call-result", name+" kind store", at.Pos, p, "%s stores into the caller's result although the response is of another kind", name)
		}
		return
	}
	mark, mk := p.bitVal(p.hbits(p.buf(r, m), 48, 1)[0])
	if !mk {
		c.bad("call-result", name+" unmarked", fn.Pos(), p, "%s does not look at the error mark of the response", name)
		return
	}
	if mark {
		if !c.errorOf(p, res, m) {
			c.bad("call-result", name+" error", fn.Pos(), p, "%s returns %s for an error response instead of its text", name, res)
		}
		if stores > 0 {
			c.bad("call-result", name+" error store", at.Pos, p, "%s stores into the caller's result although the response is an error", name)
		}
		return
	}
	if !res.IsNil() && !(res.op == "call" && (strings.Contains(res.s, "Unmarshal") || strings.Contains(res.s, "BytesToValue"))) {
		c.bad("call-result", name+" success", fn.Pos(), p, "%s returns %s for a successful response", name, res)
	}
	if n, kn := p.isNil(rsp); !(kn && n) && stores == 0 && p.errIs(res) != "err" {
		c.bad("call-result", name+" ignored", fn.Pos(), p, "%s does not store a successful response into the caller's result", name)
	}
}
