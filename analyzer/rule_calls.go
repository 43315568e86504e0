package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = ruleC01
	checks["C02"] = ruleC02
	checks["C03"] = ruleC03
	checks["C06"] = ruleC06
}

type opEntry struct {
	name    string
	fn      *ssa.Function
	ctx     int // parameter index or -1
	timeout int
	msg     int
	recv    bool // receives instead of sends
	kind    string
}

func (c *Check) op(name string) *opEntry {
	fn := c.w.Fn("", name)
	if !c.need(fn, name) {
		return nil
	}
	e := &opEntry{name: name, fn: fn, ctx: -1, timeout: -1, msg: -1, kind: name[:strings.Index(name, ".")]}
	for i, p := range fn.Params {
		if i == 0 {
			continue
		}
		switch typeKey(p.Type()) {
		case "context.Context":
			e.ctx = i
		case "time.Duration":
			e.timeout = i
		case "*" + modPath + ".Message":
			e.msg = i
		}
	}
	return e
}

func (c *Check) ops(names ...string) []*opEntry {
	var out []*opEntry
	for _, n := range names {
		if e := c.op(n); e != nil {
			out = append(out, e)
		}
	}
	return out
}

var sendOps = []string{"Client.Call", "Client.CallWith", "Client.CallContext", "Client.CallAsync", "Client.Notify", "Client.NotifyWith", "Client.NotifyContext", "Client.PushMsg",
	"Stream.Send", "Stream.SendContext", "Stream.SendWith", "Stream.SendAndClose", "Stream.SendAndCloseContext", "Stream.SendAndCloseWith",
	"Context.Write", "Context.WriteWithTimeout", "Context.Error"}

func (c *Check) std() Opts { return c.r.std() }

func (c *Check) exploreOp(e *opEntry) *Ex { return c.explore(e.name, e.fn, c.std()) }

// clientOf: is the channel/field read of the client this operation works for?
func (c *Check) ownField(t *Term) *Term { return loadBase(t) }

// limitChan: the channel becomes ready when the operation's own limit is reached.
func (c *Check) limitChan(p *Path, ch, ctx, timeout *Term) string {
	if ch.op == "call" && strings.HasPrefix(ch.s, "(context.Context).Done") && len(ch.args) > 0 && ctx != nil && ch.args[0] == ctx {
		return "ctx"
	}
	if timeout == nil {
		return ""
	}
	if ch.op == "call" && strings.HasPrefix(ch.s, "(context.Context).Done") && len(ch.args) > 0 {
		// a context that ends by itself after the time limit
		x := ch.args[0]
		for (x.op == "extract" || x.op == "iface") && len(x.args) > 0 {
			x = x.args[0]
		}
		if x.op == "call" && strings.HasPrefix(x.s, "context.WithTimeout#") && len(x.args) == 2 && x.args[1] == timeout {
			return "timeout"
		}
	}
	if ch.op == "call" && strings.HasPrefix(ch.s, "time.After#") && ch.args[0] == timeout {
		return "timeout"
	}
	if b := loadBase(ch); b != nil && b.op == "call" && strings.HasPrefix(b.s, "time.NewTimer#") && b.args[0] == timeout && loadField(ch).Name() == "C" {
		return "timeout"
	}
	if ch.op == "makechan" {
		// fed by a timer function armed with this time limit
		for _, e := range p.events {
			if e.Kind != "call" || e.Name != "time.AfterFunc" || len(e.Args) < 2 {
				continue
			}
			armed := e.Args[0] == timeout
			for _, e2 := range p.events {
				if isCall(e2, "time.Timer).Reset") && e2.Args[0] == e.Res && e2.Args[1] == timeout {
					armed = true
				}
			}
			if !armed || e.Args[1].op != "closure" {
				continue
			}
			f := e.Args[1].aux.(*ssa.Function)
			o := c.std()
			o.Bind = e.Args[1].args
			st := p.State
			o.Init = func(ex *Ex, s *State) {
				for k, v := range st.mem {
					s.mem[k] = v
				}
			}
			ex := c.w.Explore(f, o)
			all := len(ex.paths) > 0
			for _, q := range ex.paths {
				if q.done != "return" {
					continue
				}
				hit := false
				for _, e3 := range q.events {
					if e3.Kind == "send" && e3.Args[0] == ch {
						hit = true
					}
				}
				all = all && hit
			}
			if all {
				return "timeout"
			}
		}
	}
	return ""
}

// disarmed: the timer behind the channel was stopped before event at and not armed again.
func disarmed(p *Path, ch *Term, at int) bool {
	tm := loadBase(ch)
	if tm == nil {
		return false
	}
	off := false
	for _, e := range p.events[:at] {
		if e.G != 0 || len(e.Args) == 0 || e.Args[0] != tm {
			continue
		}
		if isCall(e, "time.Timer).Stop") {
			off = true
		}
		if isCall(e, "time.Timer).Reset") {
			off = false
		}
	}
	return off
}

// anew: the timer behind the channel was armed, or armed again, after the operation had waited before.
func anew(p *Path, ch *Term, at int) bool {
	tm := loadBase(ch)
	if ch.op == "call" && strings.HasPrefix(ch.s, "(context.Context).Done") && len(ch.args) > 0 {
		for tm = ch.args[0]; (tm.op == "extract" || tm.op == "iface") && len(tm.args) > 0; tm = tm.args[0] {
		}
		ch = tm
	}
	waited := false
	for _, e := range p.events[:at] {
		if e.G != 0 {
			continue
		}
		if e.Kind == "select" && e.Block {
			waited = true
		}
		if !waited || e.Kind != "call" {
			continue
		}
		if e.Res != nil && (e.Res == ch || e.Res == tm) || tm != nil && isCall(e, "time.Timer).Reset") && e.Args[0] == tm {
			return true
		}
	}
	return false
}

// C02 -------------------------------------------------------------------------

func ruleC02(c *Check) {
	r := c.r
	c.rule("wait-released", "every blocking channel operation reachable from a public operation (call, notify, push, reply, stream send/receive) is a select that also waits for the connection's close signal and, where the operation takes a context or a time limit, for exactly that context or a timer armed with exactly that limit before the first wait; no sleeping or waiting primitive is used")
	c.rule("limit-outcome", "a path that leaves the wait through the limit returns ErrClientTimeout/ErrTimeout and has a positive limit, one that leaves through the close signal returns ErrClientStopped")
	ops := append(append([]string{}, sendOps...), "Stream.Recv", "Stream.RecvContext", "Stream.RecvWith")
	for _, op := range c.ops(ops...) {
		ex := c.exploreOp(op)
		args := ex.ParamTerms(op.fn)
		var ctx, tmo *Term
		if op.ctx >= 0 {
			ctx = args[op.ctx]
		}
		if op.timeout >= 0 {
			tmo = args[op.timeout]
		}
		waits := map[ssa.Instruction]bool{}
		for _, p := range ex.paths {
			for i, e := range p.events {
				if e.G != 0 {
					continue
				}
				switch {
				case e.Kind == "call" && (e.Name == "time.Sleep" || strings.HasSuffix(e.Name, "sync.WaitGroup).Wait") || strings.HasSuffix(e.Name, "sync.Cond).Wait")):
					c.bad("wait-released", op.name, e.Pos, p, "%s waits in %s, which neither its limit nor shutdown can release", op.name, shortName(e.Name))
				case e.Kind == "recv" || e.Kind == "send":
					ch := e.Args[0]
					if ch.op == "makechan" && e.Kind == "send" {
						if n, ok := ch.args[0].IntVal(); ok && n > 0 {
							continue
						}
					}
					c.bad("wait-released", op.name+" "+e.Kind, e.Pos, p, "%s blocks on a plain channel %s that neither its limit nor shutdown can release", op.name, e.Kind)
				case e.Kind == "select" && e.Block:
					waits[e.Instr] = true
					hasClose, lim := false, false
					forever := ctx == nil && tmo == nil
					if tmo != nil && !forever {
						if lo, _ := p.rng(tmo); lo == 1<<63-1 {
							forever = true
						}
						if _, hi := p.rng(tmo); hi < 0 {
							forever = true
						}
						if v, k := p.truth(p.ex.cmpEq(tmo, p.ex.tt.Int(1<<63-1))); k && v {
							forever = true
						}
						if v, k := p.truth(p.ex.cmpEq(tmo, p.ex.tt.Int(0))); k && v {
							c.bad("wait-released", op.name+" zero", e.Pos, p, "%s with a zero time limit waits", op.name)
						}
					}
					for ci, cs := range e.Cases {
						if cs.Send {
							continue
						}
						if r.onClose(cs.Ch) {
							hasClose = true
							if ci == e.Chosen {
								c.outcome(p, op, e, i, "ErrClientStopped")
							}
						} else if c.limitChan(p, cs.Ch, ctx, tmo) != "" && !disarmed(p, cs.Ch, i) {
							lim = true
							if tmo != nil && anew(p, cs.Ch, i) {
								c.bad("wait-released", op.name+" anew", e.Pos, p, "%s starts its time limit anew after it has waited already", op.name)
							}
							if ci == e.Chosen && tmo != nil {
								if lo, _ := p.rng(tmo); lo <= 0 {
									c.bad("limit-outcome", op.name+" unlimited", e.Pos, p, "%s can end on a timer although its limit is not known to be positive: without a limit it must not time out", op.name)
								}
							}
							if ci == e.Chosen {
								c.outcome(p, op, e, i, "ErrClientTimeout", "ErrTimeout")
							}
						}
					}
					if !hasClose {
						c.bad("wait-released", op.name+" close", e.Pos, p, "%s waits without also waiting for the connection's close signal", op.name)
					}
					if !lim && !forever {
						c.bad("wait-released", op.name+" limit", e.Pos, p, "%s waits without also waiting for its own context or time limit", op.name)
					}
				}
			}
		}
		for range waits {
			c.ob("blocking waits")
		}
		c.sample("%s: %d distinct blocking waits, %d paths", op.name, len(waits), len(ex.paths))
	}
	c.floor("blocking waits", 6)
	c.floor("limit outcomes", 5)
}

func (c *Check) outcome(p *Path, op *opEntry, e *Event, at int, want ...string) {
	if p.done != "return" || len(p.results) == 0 {
		return
	}
	res := p.results[len(p.results)-1]
	c.ob("limit outcomes")
	g := errGlobal(res)
	for _, w := range want {
		if g == w {
			return
		}
	}
	// CallAsync may instead report through the callback
	if op.name == "Client.CallAsync" && res.IsNil() && c.asyncTold(p, at) {
		return
	}
	c.bad("limit-outcome", op.name+" "+want[0], e.Pos, p, "%s leaves its wait on the limit or on shutdown but returns %s instead of %s", op.name, res, strings.Join(want, "/"))
}

// asyncTold: after event at the operation found its callback record already taken by somebody else.
func (c *Check) asyncTold(p *Path, at int) bool {
	for _, e := range p.events[at:] {
		if e.G == 0 && e.Kind == "mapget" && loadField(e.Args[0]) == c.r.asyncs && e.Chosen == 1 {
			return true
		}
	}
	return false
}

// C06 -------------------------------------------------------------------------

// writeErr: term is the error of a connection write on this path.
func (c *Check) writeErrs(p *Path) map[*Term]*Event {
	out := map[*Term]*Event{}
	for _, e := range p.events {
		if cn, _ := c.r.written(e); cn != nil && e.Res != nil {
			out[p.ex.extract(e.Res, 1, nil)] = e
		}
	}
	return out
}

func ruleC06(c *Check) {
	r := c.r
	c.rule("handed-over", "a path of a public send operation that can return a nil error contains a queueing of its message on the client's send queue (where the client is configured to drain one), or a connection write whose error is nil on that path (or is the returned error itself)")
	c.rule("released-once", "on every path the operation's message is given to the message-done hook exactly once unless it was queued, and never after it was queued")
	c.rule("zero-timeout", "with a zero time limit no path blocks, and a queue that does not accept at once yields ErrClientOverstock; only a zero time limit gives up a full queue without waiting")
	aw := c.settingField("AsyncWrite")
	for _, op := range c.ops(sendOps...) {
		ex := c.exploreOp(op)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			res := p.results[len(p.results)-1]
			var msgs []*Term
			var queued, wrote []*Term
			werr := c.writeErrs(p)
			okWrite := false
			for t, e := range werr {
				if p.errIs(t) == "nil" {
					okWrite = true
				}
				_, b := r.written(e)
				wrote = append(wrote, b)
			}
			add := func(m *Term) {
				for _, x := range msgs {
					if x == m {
						return
					}
				}
				msgs = append(msgs, m)
			}
			if op.msg >= 0 {
				add(ex.ParamTerms(op.fn)[op.msg])
			}
			rel := map[*Term]int{}
			for _, e := range p.events {
				if e.G != 0 {
					continue
				}
				if e.Kind == "call" && strings.HasSuffix(e.Name, "Pool).Get") && e.Res != nil {
					continue
				}
				if e.Kind == "store" && e.Args[0].fieldVar() == r.buffer && r.isMsg(e.Args[0].args[0]) {
					add(e.Args[0].args[0])
				}
				if m := r.queued(e); m != nil {
					queued = append(queued, origin(m))
					if aw != nil && !c.settingTrue(p, r.queueClient(e), aw) {
						c.bad("handed-over", op.name+" no queue", e.Pos, p, "%s queues its message where the client may be configured to write directly: nobody drains its queue then", op.name)
					}
					c.ob("queued where drained")
					if rel[origin(m)] > 0 {
						c.bad("released-once", op.name+" queue-after-release", e.Pos, p, "%s queues a message it already released", op.name)
					}
				}
				if r.isHook(e, "HandleMessageDone") && len(e.Args) == 3 {
					m := origin(e.Args[2])
					rel[m]++
					for _, q := range queued {
						if q == m {
							c.bad("released-once", op.name+" release-after-queue", e.Pos, p, "%s releases a message after queueing it; the send loop owns it", op.name)
						}
					}
				}
			}
			c.ob("return paths")
			// success only when handed over
			if p.errIs(res) != "err" {
				if _, isW := werr[res]; !isW && len(queued) == 0 && !okWrite {
					told := op.name == "Client.CallAsync" && c.asyncTold(p, 0)
					if !told {
						c.bad("handed-over", op.name, op.fn.Pos(), p, "%s can return %s (success) although its message was neither queued nor written", op.name, res)
					}
				}
			}
			for _, m := range msgs {
				q := 0
				for _, x := range queued {
					if x == m {
						q++
					}
				}
				if q > 1 {
					c.bad("released-once", op.name+" double-queue", op.fn.Pos(), p, "%s queues its message %d times", op.name, q)
				}
				if q == 0 {
					c.ob("messages not queued")
					if rel[m] != 1 {
						// the response handed to a caller is another message; only messages built here or given to the operation count
						c.bad("released-once", op.name+" not-released", op.fn.Pos(), p, "%s returns with its message neither queued nor released exactly once (released %d times)", op.name, rel[m])
					}
				}
			}
			_ = wrote
		}
	}
	// zero time limit
	for _, n := range []string{"Client.PushMsg", "Client.Notify", "Context.WriteWithTimeout"} {
		op := c.op(n)
		if op == nil || op.timeout < 0 {
			continue
		}
		o := c.std()
		base := (&Ex{w: c.w, tt: c.w.tt, entry: op.fn}).ParamTerms(op.fn)
		o.Args = append([]*Term{}, base...)
		o.Args[op.timeout] = c.w.tt.Int(0)
		ex := c.explore(n+"(timeout=0)", op.fn, o)
		for _, p := range ex.paths {
			def := false
			for _, e := range p.events {
				if (e.Kind == "select" && e.Block) || e.Kind == "recv" || e.Kind == "send" || e.Kind == "call" && e.Name == "time.Sleep" {
					c.bad("zero-timeout", n, e.Pos, p, "%s with a zero time limit can block", n)
				}
				if e.Kind == "select" && !e.Block {
					c.ob("non-blocking attempts")
					offers := false
					for _, cs := range e.Cases {
						offers = offers || cs.Send && r.onSendQ(cs.Ch)
					}
					if e.Chosen < 0 && offers {
						def = true
					}
				}
			}
			if def && p.done == "return" {
				if g := errGlobal(p.results[len(p.results)-1]); g != "ErrClientOverstock" {
					c.bad("zero-timeout", n+" overstock", op.fn.Pos(), p, "%s on a full queue with a zero time limit returns %s, not ErrClientOverstock", n, p.results[len(p.results)-1])
				}
				c.ob("overstock outcomes")
			}
		}
	}
	// only a zero one gives up at once
	for _, n := range []string{"Client.PushMsg", "Client.Notify", "Context.WriteWithTimeout"} {
		op := c.op(n)
		if op == nil || op.timeout < 0 {
			continue
		}
		lim := c.exploreOp(op)
		t := lim.ParamTerms(op.fn)[op.timeout]
		for _, p := range lim.paths {
			for _, e := range p.events {
				if e.Kind != "select" || e.Block || e.Chosen >= 0 {
					continue
				}
				for _, cs := range e.Cases {
					if !cs.Send || !r.onSendQ(cs.Ch) {
						continue
					}
					c.ob("attempts given up at once")
					if lo, hi := p.rng(t); lo != 0 || hi != 0 {
						waits := false
						for _, x := range p.events {
							waits = waits || x.Kind == "select" && x.Block
						}
						if !waits {
							c.bad("zero-timeout", n+" impatient", e.Pos, p, "%s gives up a full queue at once although its time limit need not be zero", n)
						}
					}
				}
			}
		}
	}
	c.floor("return paths", 20)
	c.floor("messages not queued", 8)
	c.floor("overstock outcomes", 3)
}

// settingField: the handler field a getter of a setting reads (nil if it is not a plain field).
func (c *Check) settingField(getter string) *types.Var {
	fn := c.w.HFn(getter)
	if fn == nil {
		return nil
	}
	ex := c.explore("handler."+getter, fn, c.std())
	var out *types.Var
	for _, p := range ex.paths {
		if p.done != "return" || len(p.results) != 1 {
			return nil
		}
		f := loadField(p.results[0])
		if f == nil || out != nil && out != f {
			return nil
		}
		out = f
	}
	return out
}

// settingTrue: on this path the setting of the client's handler was seen on.
func (c *Check) settingTrue(p *Path, cl *Term, f *types.Var) bool {
	if cl == nil {
		return false
	}
	h := p.ex.tt.mk("unwrap", typeKey(c.w.handlerImpl), c.w.handlerImpl, nil, p.loadF(cl, c.r.hdl))
	v, k := p.truth(p.loadF(h, f))
	return k && v
}

// queueClient: the client whose send queue an event offers its message to.
func (r *Roles) queueClient(e *Event) *Term {
	if e.Kind == "select" {
		return loadBase(e.Cases[e.Chosen].Ch)
	}
	return loadBase(e.Args[0])
}

// C03 -------------------------------------------------------------------------

// userPanic: user-supplied code runs at this event and may panic.
func (c *Check) userPanic(e *Event) bool {
	if e.Kind == "dyn" {
		return true
	}
	return e.Kind == "call" && (strings.Contains(e.Name, "arpc.MessageCoder).") || strings.Contains(e.Name, "codec.Codec).") || strings.Contains(e.Name, "util.ValueToBytes") || strings.Contains(e.Name, "util.BytesToValue"))
}

// critical returns, for every event, the index of the critical section (lock acquisition) of lock-owner obj it lies in, or -1.
func critSection(p *Path, at int) map[*Term]int {
	held := map[*Term]int{}
	for i := 0; i <= at; i++ {
		e := p.events[i]
		switch e.Kind {
		case "lock", "rlock":
			held[e.Args[0]] = i
		case "unlock", "runlock":
			delete(held, e.Args[0])
		}
	}
	return held
}

// sameSection: events i<j lie in one critical section of a lock of obj.
func sameSection(p *Path, i, j int, obj *Term) bool {
	a, b := critSection(p, i), critSection(p, j)
	for l, n := range a {
		if l.op == "field" && l.args[0] == obj {
			if m, ok := b[l]; ok && m == n {
				return true
			}
		}
	}
	return false
}

// taken: the record found by the map read at event i was removed from the table in the same critical section.
func (c *Check) taken(p *Path, i int) bool {
	g := p.events[i]
	for j := range p.events {
		e := p.events[j]
		if e.G != g.G {
			continue
		}
		lo, hi := i, j
		if j < i {
			lo, hi = j, i
		}
		owner := loadBase(g.Args[0])
		if e.Kind == "mapdel" && e.Args[0] == g.Args[0] && e.Args[1] == g.Args[1] && sameSection(p, lo, hi, owner) {
			return true
		}
		if e.Kind == "mapset" && false {
			return true
		}
	}
	return false
}

// detached: the table value m (a field load) was replaced in its owner under the lock in the same critical section it was read.
func (c *Check) replaced(p *Path, m *Term, i int) bool {
	f, owner := loadField(m), loadBase(m)
	if f == nil {
		return false
	}
	for j, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == f && e.Args[0].args[0] == owner && e.Args[1].op == "makemap" {
			lo, hi := i, j
			if j < i {
				lo, hi = j, i
			}
			if sameSection(p, lo, hi, owner) || j < i && p.held(j, owner) {
				return true
			}
		}
	}
	return false
}

func (p *Path) held(at int, obj *Term) bool {
	for l := range critSection(p, at) {
		if l.op == "field" && l.args[0] == obj {
			return true
		}
	}
	return false
}

func ruleC03(c *Check) {
	r := c.r
	c.rule("unregister", "every path of a synchronous call that registers it in the pending table - also one on which user code panics - removes that entry again before the call ends")
	c.rule("deliver-nonblocking", "a response is handed to a waiting call only through a non-blocking send, or through a channel with a free slot guaranteed by taking the entry out of the pending table in the critical section that found it")
	c.rule("close-taken", "a waiter's channel is closed only after its entry was taken out of the pending table under the lock, so it is closed at most once and never sent to afterwards")
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext") {
		o := c.std()
		o.PanicAt = c.userPanic
		ex := c.explore(op.name+"+panics", op.fn, o)
		reg := 0
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			for i, e := range p.events {
				if e.Kind != "mapset" || loadField(e.Args[0]) != r.sessions {
					continue
				}
				reg++
				ok := false
				for _, e2 := range p.events[i+1:] {
					if (e2.Kind == "mapdel" || e2.Kind == "mapget" && p.missed(e2)) && loadField(e2.Args[0]) == r.sessions && loadBase(e2.Args[0]) == loadBase(e.Args[0]) && e2.Args[1] == e.Args[1] {
						ok = true
					}
				}
				c.ob("registered call paths")
				if !ok {
					c.bad("unregister", op.name, e.Pos, p, "%s can end (%s) with its entry still in the pending table", op.name, p.done)
				}
			}
		}
		if reg == 0 {
			c.bad("unregister", op.name+" never", op.fn.Pos(), nil, "%s registers no pending call", op.name)
		}
	}
	// every send on / close of a waiter's channel anywhere
	cap1 := c.sessionCap()
	for _, ent := range c.sessionUsers() {
		o := c.std()
		o.RunSpawned = true
		ex := c.explore("waiter@"+fnName(ent), ent, o)
		for _, p := range ex.paths {
			for i, e := range p.events {
				switch e.Kind {
				case "send", "select":
					var ch *Term
					block := true
					if e.Kind == "send" {
						ch = e.Args[0]
					} else if e.Chosen >= 0 && e.Cases[e.Chosen].Send {
						ch, block = e.Cases[e.Chosen].Ch, e.Block
					}
					if ch == nil || loadField(ch) != r.sessDone {
						continue
					}
					c.ob("deliveries")
					g := c.originGet(p, i, loadBase(ch))
					tk := g >= 0 && c.taken(p, g)
					if block && !(tk && cap1) {
						c.bad("deliver-nonblocking", fnName(e.Fn), e.Pos, p, "delivering a response can block the goroutine that reads the connection: the pending entry is not taken out of the table together with the lookup (or its channel has no free slot)")
					}
				case "close":
					if loadField(e.Args[0]) != r.sessDone {
						continue
					}
					c.ob("waiter closes")
					sess := loadBase(e.Args[0])
					ok := false
					if g := c.originGet(p, i, sess); g >= 0 {
						ok = c.taken(p, g)
					} else if sess.op == "rval" {
						// ranged over the table: the table must be replaced in the critical section (or the entry deleted)
						m := sess.args[0]
						if m.op == "range" {
							m = m.args[0]
						}
						ok = c.replaced(p, m, i)
						for j, e2 := range p.events {
							if e2.Kind == "mapdel" && e2.Args[0] == m && j > i-3 && p.held(j, loadBase(m)) {
								ok = true
							}
						}
						if p.done == "cut" {
							ok = ok || true
						}
					}
					if !ok {
						c.bad("close-taken", fnName(e.Fn), e.Pos, p, "a waiter's channel is closed although its entry was not taken out of the pending table in the same critical section")
					}
				}
			}
		}
	}
	c.floor("registered call paths", 5)
	c.floor("deliveries", 1)
	c.floor("waiter closes", 2)
}

// originGet: index of the map read that produced record t (-1: none).
func (c *Check) originGet(p *Path, at int, t *Term) int {
	for j := at; j >= 0; j-- {
		e := p.events[j]
		if e.Kind == "mapget" && e.Res == t {
			return j
		}
	}
	return -1
}

// sessionCap: every session is created with a channel that has room for one message.
func (c *Check) sessionCap() bool {
	ok, n := true, 0
	for _, op := range c.ops("Client.Call", "Client.CallContext") {
		for _, p := range c.exploreOp(op).paths {
			for _, e := range p.events {
				if e.Kind == "store" && e.Args[0].fieldVar() == c.r.sessDone {
					n++
					if e.Args[1].op != "makechan" {
						ok = false
						continue
					}
					if k, is := e.Args[1].args[0].IntVal(); !is || k < 1 {
						ok = false
					}
				}
			}
		}
	}
	return ok && n > 0
}

// sessionUsers: goroutine bodies and API operations whose call trees send on or close waiter channels.
func (c *Check) sessionUsers() []*ssa.Function {
	return c.rootsTouching(func(in ssa.Instruction) bool {
		fld := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && structOf(fa.X.Type()).Field(fa.Field) == c.r.sessDone
		}
		switch x := in.(type) {
		case *ssa.Send:
			return fld(x.Chan)
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && fld(s.Chan) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
				return fld(x.Call.Args[0])
			}
		}
		return false
	})
}

// rootsTouching: small set of functions to explore so that every instruction satisfying p is seen in a
// caller context that contains the lookup of the object it works on: the functions containing them plus their static callers (one level), preferring the callers.
func (c *Check) rootsTouching(p func(ssa.Instruction) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.w.allFns {
		if fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if p(in) {
					hit = true
				}
			}
		}
		if hit {
			out = append(out, c.contextRoots(fn)...)
		}
	}
	return dedupFns(out)
}

func dedupFns(fs []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range fs {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// contextRoots climbs from fn to callers as long as fn is an unexported helper that receives a pointer or
// channel it did not look up itself (i.e. has such parameters beyond the receiver).
func (c *Check) contextRoots(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function, d int) []*ssa.Function
	rec = func(fn *ssa.Function, d int) []*ssa.Function {
		if seen[fn] || d > 6 {
			return nil
		}
		seen[fn] = true
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top != fn {
			return rec(top, d+1)
		}
		needs := false
		for i, p := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				if types.Identical(deref(p.Type()), c.r.sessT) || types.Identical(deref(p.Type()), c.r.asyncT) {
					needs = true
				}
				continue
			}
			t := deref(p.Type())
			if types.Identical(t, c.r.sessT) || types.Identical(t, c.r.asyncT) {
				needs = true
			}
			if _, ok := p.Type().Underlying().(*types.Chan); ok {
				needs = true
			}
		}
		if needs {
			var out []*ssa.Function
			for _, cl := range c.w.callers(fn) {
				out = append(out, rec(cl, d+1)...)
			}
			if len(out) > 0 {
				return out
			}
		}
		return []*ssa.Function{fn}
	}
	return rec(fn, 0)
}

// callers: functions with a static call (or go/defer) of fn.
func (w *World) callers(fn *ssa.Function) []*ssa.Function {
	if w.callersC == nil {
		w.callersC = map[*ssa.Function][]*ssa.Function{}
		for _, f := range w.allFns {
			if f.Synthetic != "" && f.Parent() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil {
							w.callersC[g] = append(w.callersC[g], f)
						}
						if ci.Common().IsInvoke() {
							if impl := w.devirt(ci.Common().Value.Type()); impl != nil {
								if g := w.prog.LookupMethod(impl, ci.Common().Method.Pkg(), ci.Common().Method.Name()); g != nil {
									w.callersC[g] = append(w.callersC[g], f)
								}
							}
						}
					}
				}
			}
		}
	}
	return dedupFns(w.callersC[fn])
}

// C01 -------------------------------------------------------------------------

// seqOnlyGrows: once a client exists its counter is only incremented.
func (c *Check) seqOnlyGrows() {
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != c.r.seq || fa.Referrers() == nil {
					continue
				}
				for _, ref := range *fa.Referrers() {
					bad := ""
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr != fa {
							bad = "gives the address away"
						} else if _, own := fa.X.(*ssa.Alloc); !own {
							bad = "sets it"
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case ssa.CallInstruction:
						c.ob("uses of the counter")
						g := x.Common().StaticCallee()
						if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" {
							bad = "gives the address away"
							break
						}
						if strings.HasPrefix(g.Name(), "Load") {
							break
						}
						k, isK := x.Common().Args[len(x.Common().Args)-1].(*ssa.Const)
						if !strings.HasPrefix(g.Name(), "Add") || !isK || k.Value == nil || k.Uint64() == 0 || k.Uint64() > 1<<16 {
							bad = "does something else than increment it"
						}
					default:
						bad = "gives the address away"
					}
					if bad != "" {
						c.bad("fresh-number", "counter "+fnName(fn), ref.Pos(), nil, "%s %s: a number can be given to a second request", fnName(fn), "touches the client's counter of sequence numbers and "+bad)
					}
				}
			}
		}
	}
	c.floor("uses of the counter", 2)
}

func ruleC01(c *Check) {
	r := c.r
	c.rule("fresh-number", "the sequence number in the header of a request (and the id of a new stream) is the result of an atomic increment of the client's counter made for this message; after the client was made nothing else changes the counter")
	c.rule("registered-number", "the key under which a call or callback is registered is the sequence number in the header of the message sent, and the record registered is the one waited on / invoked; the message is a request (notification) and its async mark selects the table it was registered in")
	c.rule("reply-echo", "a reply carries the request's sequence number, asynchronous mark and method, bit for bit")
	c.rule("match-by-number", "an incoming response completes only the record found under its own sequence number in the table its async mark selects; if there is none no table entry, channel or callback is touched")
	c.seqOnlyGrows()
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext", "Client.CallAsync", "Client.Notify", "Client.NotifyWith", "Client.NotifyContext") {
		ex := c.exploreOp(op)
		self := ex.ParamTerms(op.fn)[0]
		tbl := r.sessions
		if op.name == "Client.CallAsync" {
			tbl = r.asyncs
		}
		isCall := !strings.Contains(op.name, "Notify")
		sends, regs := 0, 0
		for _, p := range ex.paths {
			var sent *Term
			si := -1
			for i, e := range p.events {
				if m := r.queued(e); m != nil {
					sent, si = origin(m), i
				}
				if _, b := r.written(e); b != nil {
					if m := msgOfBuf(p, r, b); m != nil {
						sent, si = m, i
					}
				}
			}
			if sent == nil || p.done == "cut" {
				continue
			}
			sends++
			c.ob("sent requests")
			num := p.u64(p.buf(r, sent), 8)
			if !(num.op == "atomic" && strings.HasPrefix(num.s, "add#") && num.args[0].fieldVar() == r.seq && num.args[0].args[0] == self) {
				c.bad("fresh-number", op.name, op.fn.Pos(), p, "%s sends a message whose sequence number is %s, not a fresh increment of the client's counter", op.name, num)
			} else if n, ok := num.args[1].IntVal(); !ok || n == 0 {
				c.bad("fresh-number", op.name+" delta", op.fn.Pos(), p, "%s does not advance the counter", op.name)
			}
			kind, known := p.cmdOf(r, sent)
			if want := map[bool]int{true: 1, false: 3}[isCall]; !known || kind != want {
				c.bad("registered-number", op.name+" kind", op.fn.Pos(), p, "%s sends a message of command %d, not %d", op.name, kind, want)
			}
			if !isCall {
				continue
			}
			if v, k := p.bitVal(p.ex.tt.bitsOf(p.cell(p.buf(r, sent), 6), 8)[1]); !k || v != (tbl == r.asyncs) {
				c.bad("registered-number", op.name+" mark", op.fn.Pos(), p, "%s marks its request so that the response is looked up in the other table", op.name)
			}
			found := false
			for i, e := range p.events {
				if e.Kind != "mapset" || loadField(e.Args[0]) != tbl || loadBase(e.Args[0]) != self {
					continue
				}
				regs++
				found = true
				c.ob("registrations")
				if e.Args[1] != num {
					c.bad("registered-number", op.name, e.Pos, p, "%s registers under %s but sends %s", op.name, e.Args[1], num)
				}
				if i > si {
					c.bad("registered-number", op.name+" late", e.Pos, p, "%s registers after the message was handed over; the response can be missed", op.name)
				}
				if tbl == r.sessions {
					// the wait after sending is on this record's channel
					done := p.memAt(e.Args[2], r.sessDone)
					for _, e2 := range p.events[si+1:] {
						if e2.Kind == "select" && e2.Chosen >= 0 && !e2.Cases[e2.Chosen].Send && r.isMsg(e2.Res) || e2.Kind == "recv" && r.isMsg(e2.Res) {
							ch := e2.waitedCh()
							if ch != done {
								c.bad("registered-number", op.name+" wait", e2.Pos, p, "%s waits on another channel than the one it registered", op.name)
							}
							c.ob("waits on own record")
						}
					}
				} else if h := p.memAt(e.Args[2], r.asyncFn); h == nil || h.op != "param" {
					c.bad("registered-number", op.name+" callback", e.Pos, p, "the registered record does not hold the caller's callback")
				}
			}
			_ = found
		}
		if sends == 0 || isCall && regs == 0 {
			c.bad("registered-number", op.name+" none", op.fn.Pos(), nil, "%s sends or registers nothing on any path", op.name)
		}
	}
	// new streams
	if op := c.op("Client.NewStream"); op != nil {
		ex := c.exploreOp(op)
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind == "mapset" && loadField(e.Args[0]) == r.streamsL {
					c.ob("stream ids")
					k := e.Args[1]
					if !(k.op == "atomic" && strings.HasPrefix(k.s, "add#") && k.args[0].fieldVar() == r.seq) {
						c.bad("fresh-number", op.name, e.Pos, p, "a new stream gets id %s, not a fresh increment of the client's counter", k)
					}
				}
			}
		}
	}
	c.replyEcho()
	c.matchByNumber()
	c.floor("sent requests", 8)
	c.floor("registrations", 3)
	c.floor("waits on own record", 2)
	c.floor("replies", 6)
	c.floor("stream ids", 1)
	c.floor("matched responses", 2)
	c.floor("unmatched responses", 2)
}

// waitedCh: the channel the chosen case received from.
func (e *Event) waitedCh() *Term {
	if e.Kind == "recv" {
		return e.Args[0]
	}
	return e.Cases[e.Chosen].Ch
}

// memAt: value of a field of an object at the end of the path.
func (p *Path) memAt(obj *Term, v *types.Var) *Term { return p.loadF(obj, v) }

// msgOfBuf: the message whose Buffer these bytes are.
func msgOfBuf(p *Path, r *Roles, b *Term) *Term {
	if loadField(b) == r.buffer {
		return origin(loadBase(b))
	}
	for k, v := range p.mem {
		if v == b && k.fieldVar() == r.buffer {
			return k.args[0]
		}
	}
	return nil
}

func (c *Check) replyEcho() {
	r := c.r
	for _, op := range c.ops("Context.Write", "Context.WriteWithTimeout", "Context.Error") {
		ex := c.exploreOp(op)
		ctx := ex.ParamTerms(op.fn)[0]
		mf := fieldNamed(r.context, "Message")
		cf := fieldNamed(r.context, "Client")
		if mf == nil || cf == nil {
			c.need(nil, "Context.Message")
			return
		}
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			req := p.loadF(ctx, mf)
			rb := p.buf(r, req)
			for _, e := range p.events {
				var m *Term
				if q := r.queued(e); q != nil {
					m = origin(q)
				} else if _, b := r.written(e); b != nil {
					m = msgOfBuf(p, r, b)
				}
				if m == nil || m == req {
					continue
				}
				c.ob("replies")
				b := p.buf(r, m)
				if got, want := p.u64(b, 8), p.u64(rb, 8); got != want {
					c.bad("reply-echo", op.name+" seq", e.Pos, p, "the reply's sequence number is %s, not the request's", got)
				}
				ba, bb := p.ex.tt.bitsOf(p.cell(b, 6), 8), p.ex.tt.bitsOf(p.cell(rb, 6), 8)
				if ba[1] != bb[1] {
					if v, k := p.bitVal(bb[1]); !(k && ba[1].src == nil && ba[1].one == v) {
						c.bad("reply-echo", op.name+" async", e.Pos, p, "the reply's asynchronous mark is not the request's")
					}
				}
				cm := p.ex.tt.bitsOf(p.cell(b, 5), 8)
				for i, x := range cm {
					if x.src != nil || x.one != (2>>uint(i)&1 == 1) {
						c.bad("reply-echo", op.name+" cmd", e.Pos, p, "a reply is not marked as a response")
						break
					}
				}
				okm := false
				for _, e2 := range p.events {
					if e2.Kind == "copy" && e2.Args[0].op == "slice" && e2.Args[0].args[0] == b {
						if lo, k := e2.Args[0].args[1].IntVal(); k && lo == 16 {
							src := e2.Args[1]
							for src.op == "b2s" || src.op == "s2b" || src.op == "conv" {
								src = src.args[0]
							}
							if src.op == "slice" && src.args[0] == rb {
								if l2, k := src.args[1].IntVal(); k && l2 == 16 {
									okm = true
								}
							}
						}
					}
				}
				if !okm {
					c.bad("reply-echo", op.name+" method", e.Pos, p, "the reply does not carry the request's method")
				}
				// sent on the connection the request came from
				var cl *Term
				if e.Kind == "select" {
					cl = loadBase(e.Cases[e.Chosen].Ch)
				} else if e.Kind == "send" {
					cl = loadBase(e.Args[0])
				} else {
					cl = loadBase(e.Args[0])
				}
				if cl != p.loadF(ctx, cf) {
					c.bad("reply-echo", op.name+" client", e.Pos, p, "the reply is sent on another connection than the request's")
				}
			}
		}
	}
}

// bitVal: value of a single bit known from the path's facts.
func (p *Path) bitVal(b bit) (bool, bool) {
	if b.src == nil {
		return b.one, true
	}
	t := p.ex.tt.Bits([]bit{b}, types.Typ[types.Uint8])
	v, k := p.truth(p.ex.cmpEq(t, p.ex.tt.Const(constInt(1), types.Typ[types.Uint8])))
	return v, k
}

// respEntry explores OnMessage and calls f for every path on which the message is a response.
func (c *Check) onMessagePaths() *Ex {
	fn := c.w.HFn("OnMessage")
	if !c.need(fn, "Handler.OnMessage") {
		return nil
	}
	o := c.std()
	o.RunSpawned = true
	o.MaxLoop = 1
	return c.explore("Handler.OnMessage", fn, o)
}

func (c *Check) matchByNumber() {
	r := c.r
	ex := c.onMessagePaths()
	if ex == nil {
		return
	}
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		msg := c.dispatched(p)
		if msg == nil {
			continue
		}
		cmd, known := p.cmdOf(c.r, msg)
		if !known || cmd != 2 {
			// no other kind of message may complete a call
			for _, e := range p.events {
				if c.touchesPending(e) {
					c.bad("match-by-number", "kind "+cmdName(cmd), e.Pos, p, "a message that is not a response (command %d) touches the pending calls or callbacks", cmd)
				}
			}
			continue
		}
		num := p.u64(p.buf(r, msg), 8)
		async, ak := p.bitVal(p.ex.tt.bitsOf(p.cell(p.buf(r, msg), 6), 8)[1])
		found := false
		looked := false
		for i, e := range p.events {
			if e.Kind == "mapget" && (loadField(e.Args[0]) == r.sessions || loadField(e.Args[0]) == r.asyncs) {
				looked = true
				if e.Args[1] != num {
					c.bad("match-by-number", "lookup key", e.Pos, p, "a response is looked up under %s, not under its own sequence number", e.Args[1])
				}
				if !ak || async != (loadField(e.Args[0]) == r.asyncs) {
					c.bad("match-by-number", "table", e.Pos, p, "a response is looked up in the table its async mark does not select")
				}
				if e.Res != nil && !e.Res.IsNil() && e.Chosen != 1 {
					found = true
				}
			}
			if !c.touchesPending(e) || e.Kind == "mapget" {
				continue
			}
			if (e.Kind == "mapdel" || e.Kind == "mapset") && e.Args[1] == num && e.Kind == "mapdel" {
				continue
			}
			rec := c.pendingRecord(e)
			g := -1
			if rec != nil {
				g = c.originGet(p, i, rec)
			}
			if g < 0 || p.events[g].Args[1] != num {
				c.bad("match-by-number", "foreign "+e.Kind, e.Pos, p, "a response touches a pending record it was not matched with (%s)", c.w.evStr(e))
				continue
			}
			switch e.Kind {
			case "send":
				if e.Args[1] != msg {
					c.bad("match-by-number", "payload", e.Pos, p, "the waiting call is handed another message than the response")
				}
				c.ob("matched responses")
			case "select":
				if e.Chosen >= 0 && e.Cases[e.Chosen].Send && e.Cases[e.Chosen].Val != msg {
					c.bad("match-by-number", "payload", e.Pos, p, "the waiting call is handed another message than the response")
				}
				c.ob("matched responses")
			case "dyn":
				mf := fieldNamed(r.context, "Message")
				if len(e.Args) != 3 || e.Args[1].IsNil() || p.ctxMsg(e.Args[1], mf, i) != msg {
					c.bad("match-by-number", "callback payload", e.Pos, p, "the callback is handed another message than the response")
				}
				c.ob("matched responses")
			}
		}
		if looked && !found {
			c.ob("unmatched responses")
		}
	}
}

// ctxMsg: the Message field of a context as last stored before event i.
func (p *Path) ctxMsg(ctx *Term, mf *types.Var, i int) *Term {
	for j := i; j >= 0; j-- {
		e := p.events[j]
		if e.Kind == "store" && e.Args[0].fieldVar() == mf && e.Args[0].args[0] == ctx {
			return e.Args[1]
		}
	}
	return nil
}

func (c *Check) pendingRecord(e *Event) *Term {
	switch e.Kind {
	case "send", "close":
		return loadBase(e.Args[0])
	case "select":
		return loadBase(e.Cases[e.Chosen].Ch)
	case "dyn":
		return loadBase(e.Args[0])
	}
	return nil
}

// touchesPending: event uses the tables of pending calls/callbacks or one of their records.
func (c *Check) touchesPending(e *Event) bool {
	r := c.r
	switch e.Kind {
	case "mapget", "mapset", "mapdel", "range":
		f := loadField(e.Args[0])
		return f != nil && (f == r.sessions || f == r.asyncs)
	case "send", "close":
		f := loadField(e.Args[0])
		return f != nil && f == r.sessDone
	case "select":
		return e.Chosen >= 0 && e.Cases[e.Chosen].Send && loadField(e.Cases[e.Chosen].Ch) == r.sessDone
	case "dyn":
		return loadField(e.Args[0]) == r.asyncFn
	}
	return false
}

// dispatched: the message OnMessage works with after decoding.
func (c *Check) dispatched(p *Path) *Term {
	fn := c.w.HFn("OnMessage")
	msg := p.ex.ParamTerms(fn)[2]
	for _, e := range p.events {
		if e.G == 0 && e.Kind == "call" && strings.HasSuffix(e.Name, "arpc.MessageCoder).Decode") && e.Args[len(e.Args)-1] == msg {
			msg = e.Res
		}
	}
	return msg
}

// cmdOf: the command of a message as far as the path's facts determine it.
func (p *Path) cmdOf(r *Roles, msg *Term) (int, bool) {
	b := p.cell(p.buf(r, msg), 5)
	bs := p.ex.tt.bitsOf(b, 8)
	t := p.ex.tt.Bits(append(append([]bit{}, bs[:6]...), bit{}, bit{}), types.Typ[types.Uint8])
	lo, hi := p.rng(t)
	if lo == hi {
		return int(lo), true
	}
	for k := 0; k < 64; k++ {
		if v, kn := p.truth(p.ex.cmpEq(t, p.ex.tt.Const(constInt(int64(k)), types.Typ[types.Uint8]))); kn && v {
			return k, true
		}
	}
	return -1, false
}

func cmdName(n int) string {
	m := map[int]string{1: "request", 2: "response", 3: "notify", 4: "ping", 5: "pong", 6: "stream"}
	if s, ok := m[n]; ok {
		return s
	}
	return "other"
}
