package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = ruleC04
	checks["C05"] = ruleC05
	checks["C15"] = ruleC15
}

// goTargets: functions the library starts as goroutines (directly, or through a helper that calls the function it is given).
func (w *World) goTargets() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				if t := g.Call.StaticCallee(); t != nil {
					out = append(out, unbound(t))
				}
				for _, a := range append([]ssa.Value{g.Call.Value}, g.Call.Args...) {
					if f := funcOf(a); f != nil {
						out = append(out, unbound(f))
					}
				}
			}
		}
	}
	return dedupFns(out)
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

// unbound: the method behind a bound-method wrapper.
func unbound(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "bound") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if t := c.Call.StaticCallee(); t != nil {
						return t
					}
				}
			}
		}
	}
	return f
}

// loopSpawn: spawned functions that are entries of their own.
func (w *World) loopSpawn() func(*ssa.Function, []*Term) bool {
	rec, snd := w.roles().loops()
	m := map[*ssa.Function]bool{}
	for _, f := range append(append([]*ssa.Function{}, rec...), snd...) {
		m[f] = true
	}
	return func(fn *ssa.Function, args []*Term) bool {
		if m[fn] {
			return true
		}
		for _, a := range args {
			if a.op == "closure" || a.op == "fn" {
				if f, ok := a.aux.(*ssa.Function); ok && m[unbound(f)] {
					return true
				}
			}
		}
		return false
	}
}

// loops: the goroutines that read a connection and that drain the send queue.
func (r *Roles) loops() (recv, send []*ssa.Function) {
	w := r.w
	for _, t := range w.goTargets() {
		isR, isS := false, false
		if t.Pkg == nil && t.Parent() == nil || len(t.Blocks) == 0 || !w.inModule(t) {
			continue
		}
		p := t
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil || p.Pkg.Pkg.Path() != modPath {
			continue
		}
		visitFns(w, t, 3, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Call:
						if x.Call.IsInvoke() && x.Call.Method.Name() == "Recv" && types.Identical(x.Call.Value.Type(), w.handlerIface) {
							isR = true
						}
					case *ssa.Select:
						for _, s := range x.States {
							if s.Dir == types.RecvOnly && isFieldLoad(s.Chan, r.sendQ) {
								isS = true
							}
						}
					case *ssa.UnOp:
						if isFieldLoad(x.X, r.sendQ) {
							isS = true
						}
					}
				}
			}
		})
		if isR {
			recv = append(recv, t)
		}
		if isS && !isR {
			send = append(send, t)
		}
	}
	return
}

func isFieldLoad(v ssa.Value, f *types.Var) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && structOf(fa.X.Type()).Field(fa.Field) == f
}

// withCoders: exactly n message coders are installed on the client's handler.
func (c *Check) withCoders(o Opts, fn *ssa.Function, n int) Opts {
	r := c.r
	prev := o.Init
	o.Init = func(ex *Ex, st *State) {
		if prev != nil {
			prev(ex, st)
		}
		for _, h := range c.handlerTerms(ex, st, fn) {
			addr := ex.field(h, r.coders)
			base := ex.tt.mk("param", "coders", r.coders.Type(), nil)
			if n == 0 {
				st.mem[addr] = ex.tt.Nil()
			} else {
				st.mem[addr] = ex.tt.mk("slice", "", r.coders.Type(), nil, base, ex.tt.Int(0), ex.tt.Int(int64(n)))
			}
		}
	}
	return o
}

// handlerTerms: the handler objects reachable from fn's parameters (client, context, stream, handler itself).
func (c *Check) handlerTerms(ex *Ex, st *State, fn *ssa.Function) []*Term {
	r := c.r
	var out []*Term
	hOf := func(cl *Term) *Term {
		return ex.tt.mk("unwrap", typeKey(c.w.handlerImpl), c.w.handlerImpl, nil, ex.load(st, ex.field(cl, r.hdl), r.hdl.Type()))
	}
	for i, p := range fn.Params {
		t := ex.ParamTerms(fn)[i]
		switch {
		case types.Identical(deref(p.Type()), r.client):
			out = append(out, hOf(t))
		case types.Identical(deref(p.Type()), r.handler):
			out = append(out, t)
		default:
			for _, f := range fieldsWhere(p.Type(), func(v *types.Var) bool { return types.Identical(v.Type(), types.NewPointer(r.client)) }) {
				out = append(out, hOf(ex.load(st, ex.field(t, f), f.Type())))
			}
		}
	}
	return out
}

// flatten an append chain into the pieces written.
func flatten(t *Term) []*Term {
	switch t.op {
	case "append":
		return append(flatten(t.args[0]), flatten(t.args[1])...)
	case "slice":
		if t.args[1] == t.args[2] {
			return nil
		}
	case "nil":
		return nil
	}
	return []*Term{t}
}

func (c *Check) connClosedAfter(p *Path, i int, conn *Term, until func(*Event) bool) bool {
	for _, e := range p.events[i+1:] {
		if until != nil && until(e) {
			return false
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, "net.Conn).Close") && loadField(e.Args[0]) == c.r.conn && loadBase(e.Args[0]) == loadBase(conn) {
			return true
		}
	}
	return false
}

func ruleC05(c *Check) {
	r := c.r
	c.rule("fifo", "in the goroutine that drains the send queue, the concatenation of everything written is, message by message, the sequence of messages received from the queue: whole buffers, each once, in order; a message that is not written is dropped only where the client was seen reconnecting or stopped; nothing is held back when the loop waits for the next message; what is written goes to the connection the client has after the message was taken, and the buffer collecting messages is not used after it was given back")
	c.rule("fail-closed", "after a failed connection write of a message the connection is closed before anything else is written or awaited (queue goroutine and direct writes)")
	c.rule("drains", "in every configuration the goroutine keeps taking messages until the client is closed: every wait for a message ends on the close signal as well - except a plain receive of a message the queue was seen to hold -, nothing but the close signal ends the goroutine, and after it the goroutine never waits again and ends as soon as, and only when, it saw the queue empty")
	c.rule("reported", "every message the queue goroutine has taken is reported to the done hook - which is told of dropped ones as well - once, before the goroutine waits for another message or ends")
	_, loops := r.loops()
	if len(loops) == 0 {
		c.need(nil, "goroutine draining the send queue")
	}
	for _, fn := range loops {
		o := c.std()
		o = c.withCoders(o, fn, 0)
		o.KeepLoads = true
		o.Keep = func(e *Event) bool { return e.Kind != "load" || e.Args[0].fieldVar() == r.conn }
		ex := c.explore(fnName(fn)+" queue", fn, o)
		for _, p := range ex.paths {
			c.sendLoopPath(p)
			c.drainPath(fn, p)
		}
		c.sample("%s: %d path classes", fnName(fn), len(ex.paths))
	}
	for _, op := range c.ops(sendOps...) {
		ex := c.exploreOp(op)
		for _, p := range ex.paths {
			for i, e := range p.events {
				conn, b := r.written(e)
				if conn == nil {
					continue
				}
				if m := msgOfBuf(p, r, b); m == nil {
					c.bad("fifo", op.name+" part", e.Pos, p, "%s writes something other than one whole message", op.name)
				}
				c.ob("direct writes")
				if p.errIs(p.ex.extract(e.Res, 1, nil)) != "nil" && p.done == "return" && !c.connClosedAfter(p, i, conn, nil) {
					if p.errIs(p.ex.extract(e.Res, 1, nil)) == "err" {
						c.bad("fail-closed", op.name, e.Pos, p, "%s leaves the connection open after a failed write", op.name)
					} else {
						c.bad("fail-closed", op.name+" unchecked", e.Pos, p, "%s does not look at the error of its write", op.name)
					}
				}
			}
		}
	}
	c.floor("direct writes", 5)
	c.floor("queued messages followed", 5)
	c.floor("writes", 3)
	c.floor("messages reported done", 5)
}

func (c *Check) sendLoopPath(p *Path) {
	r := c.r
	type item struct {
		m       *Term
		at      int
		written bool
		dropped bool
		told    int
		checked bool
	}
	var q []*item
	find := func(m *Term) *item {
		for _, it := range q {
			if it.m == m {
				return it
			}
		}
		return nil
	}
	closed := false
	last := -1 // index of the last written message
	settle := func(i int, where string) {
		for _, it := range q {
			if !it.written && !it.dropped {
				c.bad("fifo", "lost", p.events[it.at].Pos, p, "a message taken from the send queue is neither written nor dropped when the loop %s", where)
				it.dropped = true
			}
			if !it.checked {
				it.checked = true
				c.ob("messages reported done")
				if it.told != 1 {
					c.bad("reported", "queue goroutine", p.events[it.at].Pos, p, "a message taken from the send queue is reported as done %d times when the loop %s", it.told, where)
				}
			}
		}
	}
	waitAt, connAt := -1, -1
	var freed []*Term
	uses := func(t *Term) bool {
		for _, f := range freed {
			if t.contains(f) {
				return true
			}
		}
		return false
	}
	for i, e := range p.events {
		if e.Kind == "load" {
			connAt = i
			continue
		}
		if e.Kind == "select" && e.Block {
			waitAt = i
		}
		if e.Kind == "call" {
			for k, t := range e.Args {
				if k > 0 && uses(t) {
					c.bad("fifo", "freed", e.Pos, p, "the queue goroutine uses the buffer it collects messages in after having given it back")
				}
			}
			if strings.HasSuffix(e.Name, ").Free") && len(e.Args) == 2 {
				b := e.Args[1]
				for b.op == "slice" {
					b = b.args[0]
				}
				if !b.IsNil() {
					freed = append(freed, b)
				}
			}
		}
		if e.Kind == "select" && e.Block || e.Kind == "recv" {
			waits := e.Kind == "recv" && r.onSendQ(e.Args[0])
			for _, cs := range e.Cases {
				if !cs.Send && r.onSendQ(cs.Ch) {
					waits = true
				}
				if e.Chosen >= 0 && !e.Cases[e.Chosen].Send && r.onClose(e.Cases[e.Chosen].Ch) {
					closed = true
				}
			}
			if waits && e.Kind == "select" {
				settle(i, "waits for the next one")
			}
		}
		var got *Term
		if e.Kind == "select" && e.Chosen >= 0 && !e.Cases[e.Chosen].Send && r.onSendQ(e.Cases[e.Chosen].Ch) {
			got = e.Res
		}
		if e.Kind == "recv" && r.onSendQ(e.Args[0]) {
			got = e.Res
		}
		if got != nil {
			q = append(q, &item{m: got, at: i})
			c.ob("queued messages followed")
		}
		if conn, b := r.written(e); conn != nil {
			c.ob("writes")
			if connAt < waitAt {
				c.bad("fifo", "old conn", e.Pos, p, "the queue goroutine writes to a connection it looked up before it waited for the message: it may have been replaced since")
			}
			if loadField(conn) != r.conn {
				c.bad("fifo", "conn", e.Pos, p, "the queue goroutine writes to something other than the client's connection")
			}
			ps := flatten(b)
			if len(ps) == 0 {
				c.bad("fifo", "empty", e.Pos, p, "the queue goroutine writes an empty buffer")
			}
			for _, piece := range ps {
				m := msgOfBuf(p, r, piece)
				var it *item
				if m != nil {
					it = find(m)
				}
				if it == nil {
					c.bad("fifo", "piece", e.Pos, p, "the queue goroutine writes %s, which is not the whole buffer of a message taken from the queue", piece)
					continue
				}
				if it.written {
					c.bad("fifo", "twice", e.Pos, p, "a queued message is written twice")
				}
				if it.dropped {
					c.bad("fifo", "after-drop", e.Pos, p, "a queued message is written although it was dropped")
				}
				k := -1
				for j, x := range q {
					if x == it {
						k = j
					}
				}
				if k < last {
					c.bad("fifo", "order", e.Pos, p, "queued messages are written in another order than they were queued")
				}
				for j := last + 1; j < k; j++ {
					if !q[j].dropped && !q[j].written {
						c.bad("fifo", "skip", e.Pos, p, "a later message is written before an earlier one")
					}
				}
				if k > last {
					last = k
				}
				it.written = true
			}
			err := p.ex.extract(e.Res, 1, nil)
			if st := p.errIs(err); st != "nil" {
				stop := func(x *Event) bool {
					if cn, _ := r.written(x); cn != nil {
						return true
					}
					if x.Kind == "select" && x.Block || x.Kind == "recv" {
						return true
					}
					return false
				}
				if !c.connClosedAfter(p, i, conn, stop) && (p.done != "cut" || c.anyAfter(p, i, stop)) {
					c.bad("fail-closed", "queue goroutine", e.Pos, p, "after a failed write the connection stays open and the loop goes on")
				}
				c.ob("failed writes")
			}
		}
		if r.isHook(e, "BeforeSend") && e.Res != nil && p.errIs(e.Res) == "err" {
			// a refused write counts as a failed one: what was to be written is lost with the connection
			if !c.connClosedAfter(p, i, e.Args[1], nil) && p.done != "cut" {
				c.bad("fail-closed", "before-send", e.Pos, p, "the before-send hook refused a write and the connection stays open")
			}
			for _, it := range q {
				it.dropped = it.dropped || !it.written
			}
		}
		if r.isHook(e, "HandleMessageDropped") || r.isHook(e, "HandleMessageDone") {
			m := origin(e.Args[2])
			if it := find(m); it != nil && r.isHook(e, "HandleMessageDone") {
				it.told++
			}
			if it := find(m); it != nil && !it.written {
				// batch mode releases a message once its bytes were copied
				if c.inPending(p, i, m) {
					continue
				}
				rec := closed
				for f, v := range p.facts {
					if v && loadField(f) == r.reconnecting {
						rec = true
					}
				}
				if !rec && p.failedBeforeSend(c) {
					rec = true
				}
				if !rec {
					c.bad("fifo", "drop", e.Pos, p, "a queued message is dropped although the client is neither reconnecting nor stopped")
				}
				it.dropped = true
			}
		}
		if e.Kind == "return" && e.G == 0 {
			settle(i, "ends")
		}
	}
}

// drainPath: the goroutine of the send queue neither gets stuck nor ends early.
func (c *Check) drainPath(fn *ssa.Function, p *Path) {
	r := c.r
	if p.done == "panic" {
		return
	}
	closed, empty := false, false
	plain := int64(0)
	for _, e := range p.events {
		if e.G != 0 || e.Kind != "select" && e.Kind != "recv" {
			continue
		}
		if e.Kind == "recv" {
			if r.onSendQ(e.Args[0]) {
				plain++
			} else if r.onClose(e.Args[0]) {
				closed = true
			}
			continue
		}
		q, cl := false, false
		for _, cs := range e.Cases {
			q = q || !cs.Send && r.onSendQ(cs.Ch)
			cl = cl || !cs.Send && r.onClose(cs.Ch)
		}
		if !q {
			continue
		}
		c.ob("waits of the queue goroutine")
		if e.Block && closed {
			c.bad("drains", "waits on", e.Pos, p, "the queue goroutine waits for another message after the client was closed")
		}
		if e.Block && !cl {
			c.bad("drains", "unreleased", e.Pos, p, "the queue goroutine waits for a message without waiting for the close signal: it never ends when the client is closed")
		}
		if closed && empty {
			c.bad("drains", "spins", e.Pos, p, "the queue goroutine goes on looking for messages after the client was closed and the queue was empty")
		}
		switch {
		case e.Chosen < 0:
			empty = true
		case !e.Cases[e.Chosen].Send && r.onClose(e.Cases[e.Chosen].Ch):
			closed = true
		}
	}
	if p.done == "return" && !closed {
		c.bad("drains", "ends", fn.Pos(), p, "the queue goroutine ends although the client was not closed")
	}
	if p.done == "return" && closed && !empty {
		for k := range p.ivs {
			for x := range p.ex.w.forms[k].coeff {
				if x.op == "len" && strings.HasPrefix(x.s, "chan") && r.onSendQ(x.args[0]) {
					if _, hi := p.rng(x); hi <= 0 {
						empty = true
					}
				}
			}
		}
		if !empty {
			c.bad("drains", "leaves", fn.Pos(), p, "the queue goroutine ends although the queue may still hold messages nobody was told of")
		}
	}
	if plain == 0 {
		return
	}
	seen := map[*Term]bool{}
	held := int64(0)
	for k := range p.ivs {
		for x := range p.ex.w.forms[k].coeff {
			if x.op == "len" && strings.HasPrefix(x.s, "chan") && r.onSendQ(x.args[0]) && !seen[x] {
				seen[x] = true
				if lo, _ := p.rng(x); lo > 0 {
					held += lo
				}
			}
		}
	}
	c.ob("plain receives")
	if plain > held {
		c.bad("drains", "plain", fn.Pos(), p, "the queue goroutine takes %d messages without waiting for the close signal, but the queue was only seen to hold %d: the messages taken before are held back until more arrive", plain, held)
	}
}

// failedBeforeSend: the user's before-send hook refused the write on this path.
func (p *Path) failedBeforeSend(c *Check) bool {
	for _, e := range p.events {
		if c.r.isHook(e, "BeforeSend") && e.Res != nil && p.errIs(e.Res) == "err" {
			return true
		}
	}
	return false
}

func (c *Check) anyAfter(p *Path, i int, f func(*Event) bool) bool {
	for _, e := range p.events[i+1:] {
		if f(e) {
			return true
		}
	}
	return false
}

// inPending: the message's bytes were appended to the batch before this event.
func (c *Check) inPending(p *Path, i int, m *Term) bool {
	for _, e := range p.events[:i] {
		if e.Kind == "append" && len(e.Args) == 2 && msgOfBuf(p, c.r, e.Args[1]) == m {
			return true
		}
	}
	return false
}

// C04 -------------------------------------------------------------------------

func (c *Check) asyncRoots() []*ssa.Function {
	r := c.r
	touch := map[*ssa.Function]bool{}
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if v := structOf(fa.X.Type()).Field(fa.Field); v == r.asyncs || v == r.asyncFn {
						touch[fn] = true
					}
				}
			}
		}
	}
	gt := map[*ssa.Function]bool{}
	for _, t := range c.w.goTargets() {
		gt[t] = true
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(fn *ssa.Function, d int)
	up = func(fn *ssa.Function, d int) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if seen[fn] {
			return
		}
		seen[fn] = true
		cs := c.w.callers(fn)
		exported := fn.Object() != nil && fn.Object().Exported()
		if exported || gt[fn] || len(cs) == 0 || d > 8 {
			out = append(out, fn)
			return
		}
		for _, cl := range cs {
			up(cl, d+1)
		}
	}
	for _, fn := range c.w.allFns {
		if touch[fn] && !(fn.Synthetic != "" && fn.Parent() == nil) {
			up(fn, 0)
		}
	}
	return dedupFns(out)
}

func (c *Check) asyncRec(t *Term) bool {
	return t != nil && t.typ != nil && types.Identical(t.typ, types.NewPointer(c.r.asyncT))
}

func ruleC04(c *Check) {
	r := c.r
	c.rule("take-once", "a callback record is invoked only after it was taken out of the callback table in the critical section that found it (or belongs to a table detached under the lock), and whoever takes one invokes its callback exactly once - or, in CallAsync itself, reports the error to the caller instead")
	c.rule("registered", "CallAsync returns nil only if its record was put into the table before the timer was armed and before the message was handed over, and was not taken back, and only with a callback; it returns an error only if it never registered or took the record back itself")
	c.rule("timer", "the timer armed with the call's time limit takes the record of this call and invokes it with an error")
	c.rule("detached", "a callback table that is replaced is iterated completely, each record once")
	c.rule("reuse", "a record goes back to the pool at most once, after its callback ran or it was taken back")
	onMsg := c.w.HFn("OnMessage")
	entries := 0
	for _, fn := range c.asyncRoots() {
		o := c.std()
		o.RunSpawned = true
		o.NoSpawn = c.w.loopSpawn()
		if fn != onMsg {
			op0 := o.Opaque
			isCA := fn == c.w.Fn("", "Client.CallAsync")
			memo := map[*ssa.Function]bool{}
			o.Opaque = func(f *ssa.Function) bool {
				if f == onMsg || f.Name() == "Recv" && c.w.isHandlerMethod(f) || op0(f) {
					return true
				}
				if isCA {
					return false
				}
				v, ok := memo[f]
				if !ok {
					v = f.Parent() == nil && !c.w.touches(f, r.asyncs, r.asyncFn) && !callsParam(f)
					memo[f] = v
				}
				return v
			}
		} else {
			o.MaxLoop = 1
		}
		o = c.withCoders(o, fn, 0)
		_, sl := r.loops()
		for _, s := range sl {
			if s == fn {
				o.MaxLoop = 1
			}
		}
		ex := c.explore("async@"+fnName(fn), fn, o)
		entries++
		for _, p := range ex.paths {
			c.asyncPath(fn, p)
		}
		c.sample("%s: %d path classes", fnName(fn), len(ex.paths))
	}
	c.floor("invocations", 4)
	c.floor("taken records", 6)
	c.floor("accepted async calls", 4)
	c.floor("refused async calls", 4)
	c.floor("detached tables", 1)
	c.floor("timer invocations", 1)
}

func (c *Check) asyncPath(fn *ssa.Function, p *Path) {
	r := c.r
	name := fnName(fn)
	isCA := fn == c.w.Fn("", "Client.CallAsync")
	inv := map[*Term][]int{}
	puts := map[*Term][]int{}
	takes := map[*Term]int{}
	regAt, regG := -1, map[int]bool{}
	_ = regG
	for i, e := range p.events {
		switch e.Kind {
		case "dyn":
			if loadField(e.Args[0]) == r.asyncFn {
				inv[loadBase(e.Args[0])] = append(inv[loadBase(e.Args[0])], i)
			}
		case "call":
			if strings.HasSuffix(e.Name, "sync.Pool).Put") && len(e.Args) == 2 {
				x := e.Args[1]
				if x.op == "iface" {
					x = x.args[0]
				}
				if c.asyncRec(x) {
					puts[x] = append(puts[x], i)
				}
			}
		case "mapget":
			if loadField(e.Args[0]) == r.asyncs && e.Chosen == 0 {
				if c.taken(p, i) {
					takes[e.Res] = i
				}
			}
		case "mapset":
			if loadField(e.Args[0]) == r.asyncs && e.G == 0 {
				regAt = i
			}
		}
	}
	for rec, is := range inv {
		c.ob("invocations")
		first := is[0]
		if len(is) > 1 {
			c.bad("take-once", name+" twice", p.events[is[1]].Pos, p, "one callback record is invoked twice")
		}
		if _, ok := takes[rec]; !ok {
			ok := false
			if rec.op == "rval" {
				m := rec.args[0]
				if m.op == "range" {
					m = m.args[0]
				}
				ok = c.replaced(p, m, c.rangeAt(p, rec))
			}
			if !ok {
				c.bad("take-once", name+" not-taken", p.events[first].Pos, p, "a callback is invoked although its record was not taken out of the table in the critical section that found it: another goroutine can invoke it too")
			}
		}
		for _, k := range puts[rec] {
			if k < first {
				c.bad("reuse", name, p.events[k].Pos, p, "a callback record goes back to the pool before its callback runs")
			}
		}
	}
	for _, is := range puts {
		if len(is) > 1 {
			c.bad("reuse", name+" twice", p.events[is[1]].Pos, p, "a callback record goes back to the pool twice")
		}
	}
	if p.done == "cut" {
		return
	}
	for rec, i := range takes {
		c.ob("taken records")
		if len(inv[rec]) == 1 {
			if isCA && p.events[i].G == 0 && p.errIs(p.results[0]) != "nil" {
				c.bad("registered", "invoke and error", p.events[i].Pos, p, "CallAsync invokes the callback and reports an error as well")
			}
			if p.events[i].GKind == "timer" {
				c.ob("timer invocations")
			}
			continue
		}
		if isCA && p.events[i].G == 0 && p.errIs(p.results[0]) == "err" {
			continue
		}
		c.bad("take-once", name+" never", p.events[i].Pos, p, "a callback record is taken out of the table but its callback is never invoked")
	}
	// replaced tables
	for i, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == r.asyncs && e.Args[0].args[0].op != "alloc" {
			c.ob("detached tables")
			old := -1
			for j, x := range p.events {
				if (x.Kind == "rangeend") && loadField(x.Args[0]) == r.asyncs && j > 0 {
					old = j
				}
			}
			if old < 0 {
				c.bad("detached", name, e.Pos, p, "the callback table is replaced but the records of the old one are never invoked")
			}
			_ = i
		}
	}
	for _, e := range p.events {
		if e.Kind == "range" && loadField(e.Args[0]) == r.asyncs {
			rec := e.Args[2]
			if len(inv[rec]) != 1 {
				c.bad("detached", name+" record", e.Pos, p, "iterating over the detached callback table invokes a record %d times", len(inv[rec]))
			}
		}
	}
	if !isCA || p.done != "return" || len(p.results) == 0 {
		return
	}
	res := p.results[0]
	armed := -1
	args := p.ex.ParamTerms(fn)
	var tmo *Term
	for k, pr := range fn.Params {
		if typeKey(pr.Type()) == "time.Duration" {
			tmo = args[k]
		}
	}
	handed := -1
	for i, e := range p.events {
		if e.G != 0 {
			continue
		}
		if isCall(e, "time.AfterFunc") && e.Args[0] == tmo || isCall(e, "time.Timer).Reset") && e.Args[1] == tmo {
			armed = i
		}
		if r.queued(e) != nil {
			handed = i
		}
		if cn, _ := r.written(e); cn != nil {
			handed = i
		}
	}
	tookBack, missed := false, false
	for i, e := range p.events {
		if e.G == 0 && e.Kind == "mapget" && loadField(e.Args[0]) == r.asyncs {
			if e.Chosen == 0 && c.taken(p, i) {
				tookBack = true
			}
			if e.Chosen == 1 {
				missed = true
			}
		}
	}
	switch p.errIs(res) {
	case "err":
		c.ob("refused async calls")
		if regAt >= 0 && !tookBack {
			c.bad("registered", "error but registered", fn.Pos(), p, "CallAsync reports an error but its callback can still be invoked: the record was not taken back")
		}
	default:
		c.ob("accepted async calls")
		if regAt < 0 {
			c.bad("registered", "accepted unregistered", fn.Pos(), p, "CallAsync reports success although no callback record was registered")
			return
		}
		for k, pr := range fn.Params {
			if _, ok := pr.Type().Underlying().(*types.Signature); ok {
				if none, known := p.isNil(args[k]); !known || none {
					c.bad("registered", "no callback", fn.Pos(), p, "CallAsync reports success although there may be no callback to run")
				}
			}
		}
		if tookBack {
			c.bad("registered", "accepted taken", fn.Pos(), p, "CallAsync reports success although it took the callback record back without invoking it")
		}
		if armed < 0 {
			c.bad("timer", "not armed", fn.Pos(), p, "CallAsync reports success without arming a timer with the call's time limit")
		} else if armed < regAt {
			c.bad("registered", "armed first", p.events[armed].Pos, p, "the timer is armed before the callback is registered; it can expire first and the callback is then never told")
		}
		if handed >= 0 && handed < regAt {
			c.bad("registered", "sent first", p.events[handed].Pos, p, "the message is handed over before the callback is registered; the response can be missed")
		}
		_ = missed
		// the timer's function takes this call's record
		key := p.events[regAt].Args[1]
		ok := false
		for i, e := range p.events {
			if e.GKind == "timer" && e.Kind == "mapget" && loadField(e.Args[0]) == r.asyncs && e.Args[1] == key {
				ok = true
				_ = i
			}
		}
		if !ok {
			c.bad("timer", "other record", fn.Pos(), p, "the timer does not look up the record of its own call")
		}
	}
}

func (c *Check) rangeAt(p *Path, rec *Term) int {
	for i, e := range p.events {
		if e.Kind == "range" && e.Args[2] == rec {
			return i
		}
	}
	return 0
}

// C15 -------------------------------------------------------------------------

func isCoder(e *Event, m string) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "arpc.MessageCoder)."+m)
}

func coderIndex(t *Term) (int64, bool) {
	// load of coders[i]
	if t != nil && t.op == "init" && t.args[0].op == "idx" {
		b := t.args[0].args[0]
		if b.op == "param" && b.s == "coders" {
			return t.args[0].args[1].IntVal()
		}
	}
	return 0, false
}

// coderChain walks a coder result back; returns the source message and the coder indices, first applied first.
func coderChain(t *Term, m string) (*Term, []int64) {
	var idx []int64
	for t != nil && t.op == "call" && strings.HasPrefix(t.s, "("+modPath+".MessageCoder)."+m) {
		i, ok := coderIndex(t.args[0])
		if !ok {
			i = -1
		}
		idx = append([]int64{i}, idx...)
		t = t.args[len(t.args)-1]
	}
	return t, idx
}

// installed: UseCoder appends the coder it is given.
func (c *Check) installed() {
	r := c.r
	fn := c.w.HFn("UseCoder")
	if !c.need(fn, "Handler.UseCoder") {
		return
	}
	ex := c.explore("Handler.UseCoder", fn, c.std())
	h, coder := ex.ParamTerms(fn)[0], ex.ParamTerms(fn)[1]
	was := ex.tt.mk("init", "", r.coders.Type(), nil, ex.field(h, r.coders))
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("coders registered")
		want := p.norm([]piece{{whole: was}})
		isN, kn := p.isNil(coder)
		if !kn {
			c.bad("installed", "any", fn.Pos(), p, "UseCoder does the same with a nil coder as with any other")
			continue
		}
		if !isN {
			want = append(want, piece{elem: coder})
		}
		if got := p.seqOf(p.loadF(h, r.coders)); !samePieces(got, want) {
			c.bad("installed", "list", fn.Pos(), p, "UseCoder leaves the coders %v instead of the old ones followed by the given one", got)
		}
	}
	c.floor("coders registered", 2)
}

func ruleC15(c *Check) {
	r := c.r
	c.rule("encode-order", "with exactly n coders installed (n = 0..3) every message written - by the queue goroutine or directly - is the result of applying coder 0, then 1, ... then n-1 to the message, each once, and it is the buffer of that result that is written")
	c.rule("no-early-encode", "a message put on the send queue has not been encoded yet")
	c.rule("decode-order", "every incoming message except ping and pong is decoded by coder n-1, ..., 0, each once, before anything but its command byte is looked at, and what is dispatched is the result")
	ns := []int{0, 1, 2}
	if c.thorough() {
		ns = append(ns, 3)
	}
	_, loops := r.loops()
	c.rule("installed", "UseCoder leaves the list of coders as it was, followed by the given coder; a nil coder changes nothing")
	c.installed()
	c.rule("current-coders", "the queue goroutine encodes a message with the coders registered when it takes it, not with those of an earlier wait")
	for _, fn := range loops {
		o := c.withCoders(c.std(), fn, 1)
		o.MaxLoop = 1
		o.KeepLoads = true
		o.Keep = func(e *Event) bool { return e.Kind != "load" || e.Args[0].fieldVar() == r.coders }
		for _, p := range c.explore(fnName(fn)+"/coders read", fn, o).paths {
			read := false
			for _, e := range p.events {
				switch {
				case e.Kind == "select" && e.Block:
					read = false
				case e.Kind == "load" && e.Args[0].fieldVar() == r.coders:
					read = true
				case e.Kind == "call" && strings.Contains(e.Name, "MessageCoder).Encode"):
					c.ob("coders of a wait")
					if !read {
						c.bad("current-coders", "the queue goroutine", e.Pos, p, "the queue goroutine encodes with coders it read before it waited for the message")
					}
				}
			}
		}
	}
	c.floor("coders of a wait", 1)
	for _, n := range ns {
		suffix := "/" + string(rune('0'+n)) + " coders"
		check := func(name string, p *Path) {
			var bufs []*Term
			for _, e := range p.events {
				if m := r.queued(e); m != nil {
					if m.op == "call" && strings.Contains(m.s, "MessageCoder).Encode") {
						c.bad("no-early-encode", name, e.Pos, p, "%s queues an already encoded message; the queue goroutine encodes it again", name)
					}
					c.ob("queued messages")
				}
				if _, b := r.written(e); b != nil {
					bufs = flatten(b)
					for _, piece := range bufs {
						if loadField(piece) != r.buffer && msgOfBuf(p, r, piece) == nil {
							continue // judged by the write rules
						}
						var m *Term
						if loadField(piece) == r.buffer {
							m = loadBase(piece)
						} else {
							m = msgOfBuf(p, r, piece)
						}
						_, idx := coderChain(m, "Encode")
						c.ob("written messages")
						if !isRange(idx, n, false) {
							c.bad("encode-order", name, e.Pos, p, "%s writes a message that passed coders %v of %d installed", name, idx, n)
						}
					}
				}
			}
		}
		for _, op := range c.ops(sendOps...) {
			o := c.withCoders(c.std(), op.fn, n)
			ex := c.explore(op.name+suffix, op.fn, o)
			for _, p := range ex.paths {
				check(op.name, p)
			}
		}
		for _, fn := range loops {
			o := c.withCoders(c.std(), fn, n)
			if n > 0 {
				o.MaxLoop = 1
			}
			ex := c.explore(fnName(fn)+suffix, fn, o)
			for _, p := range ex.paths {
				check("the queue goroutine", p)
			}
		}
		fn := c.w.HFn("OnMessage")
		if !c.need(fn, "Handler.OnMessage") {
			continue
		}
		o := c.withCoders(c.std(), fn, n)
		o.RunSpawned, o.MaxLoop = true, 1
		ex := c.explore("Handler.OnMessage"+suffix, fn, o)
		msg := ex.ParamTerms(fn)[2]
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			cmd, known := p.cmdOf(r, msg)
			if known && (cmd == 4 || cmd == 5) {
				for _, e := range p.events {
					if isCoder(e, "Decode") {
						c.bad("decode-order", "ping", e.Pos, p, "ping and pong are passed through coders")
					}
				}
				c.ob("ping/pong")
				continue
			}
			var last *Term = msg
			lastAt := -1
			for i, e := range p.events {
				if isCoder(e, "Decode") {
					last, lastAt = e.Res, i
				}
			}
			src, idx := coderChain(last, "Decode")
			c.ob("decoded messages")
			if src != msg || !isRange(idx, n, true) {
				c.bad("decode-order", "order", fn.Pos(), p, "an incoming message passes coders %v of %d installed", idx, n)
				continue
			}
			for i, e := range p.events {
				if i < lastAt {
					switch e.Kind {
					case "mapget", "mapset", "mapdel", "dyn", "send", "select", "lock", "go", "exec":
						c.bad("decode-order", "early", e.Pos, p, "an incoming message is acted on before all coders have decoded it")
					}
				}
				if n > 0 && i > lastAt {
					for _, a := range e.Args {
						if a == msg {
							c.bad("decode-order", "raw", e.Pos, p, "the undecoded message is used after decoding")
						}
					}
				}
			}
		}
	}
	c.floor("written messages", 8)
	c.floor("queued messages", 8)
	c.floor("decoded messages", 6)
	c.floor("ping/pong", 4)
}

func isRange(idx []int64, n int, desc bool) bool {
	if len(idx) != n {
		return false
	}
	for i, x := range idx {
		want := int64(i)
		if desc {
			want = int64(n - 1 - i)
		}
		if x != want {
			return false
		}
	}
	return true
}

// callsParam: the function invokes a function it is given (or starts it).
func callsParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}
