package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = ruleC19
	checks["C20"] = ruleC20
}

// stopFn: the client's unexported callback func(*Client).
func (r *Roles) stopFn() *types.Var {
	for _, v := range fieldsWhere(r.client, func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Signature)
		return ok && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), types.NewPointer(r.client)) && s.Results().Len() == 0
	}) {
		return v
	}
	return nil
}

// clearsAway: fn (or what it calls) ends, replaces or announces a connection.
func (c *Check) lifeFns() func(*ssa.Function) bool {
	r := c.r
	stop := r.stopFn()
	recv, disp := c.w.HFn("Recv"), c.w.HFn("OnMessage")
	memo := map[*ssa.Function]bool{}
	return func(fn *ssa.Function) bool {
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = false
		hit := false
		for f := range c.w.reach(fn) {
			if f != fn && (f == recv || f == disp) {
				hit = true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							switch structOf(fa.X.Type()).Field(fa.Field) {
							case r.conn, r.reader, r.running, r.reconnecting, r.closeCh:
								hit = true
							}
						}
					case *ssa.FieldAddr:
						v := structOf(x.X.Type()).Field(x.Field)
						if v == r.dialer || v == stop && stop != nil || v == r.hook["HandleDisconnected"] || v == r.hook["HandleConnected"] {
							hit = true
						}
					case ssa.CallInstruction:
						if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && isFieldLoad(x.Common().Args[0], r.closeCh) {
							hit = true
						}
					}
				}
			}
		}
		memo[fn] = hit
		return hit
	}
}

// readerLife explores the reading goroutine with everything that ends or
// replaces its connection entered and user code allowed to panic.
func (c *Check) readerLife(fn *ssa.Function) *Ex {
	o := c.std()
	op0 := o.Opaque
	life := c.lifeFns()
	k := c.conc()
	stop := c.r.stopFn()
	o.Opaque = func(f *ssa.Function) bool {
		if c.w.isHandlerMethod(f) && (f.Name() == "Recv" || f.Name() == "OnMessage") || op0(f) {
			return true
		}
		return f.Parent() == nil && !takesFunc(f) && !callsRecover(f) && !life(f)
	}
	o.PanicAt = func(e *Event) bool {
		if e.Kind == "dyn" && stop != nil && loadField(e.Args[0]) == stop {
			return false // a library function, see the server's accounting
		}
		return k.panics(e)
	}
	o.MaxLoop = 1
	o.KeepLoads = true
	o.Keep = func(e *Event) bool {
		if e.Kind == "load" {
			v := e.Args[0].fieldVar()
			return v == c.r.running || v == c.r.reconnecting
		}
		return true
	}
	return c.explore("life "+fnName(fn), fn, o)
}

func ruleC19(c *Check) {
	r := c.r
	c.rule("teardown", "every exit of the reading goroutine - normal or by a panic of user code - has set the client to stopped, closed its current connection, closed the wake-up channel exactly once, called the server's stop callback exactly once where there is one, and called the disconnect hook exactly once, after the others")
	c.rule("one-closer", "the wake-up channel of a client whose reading goroutine was started is closed by that goroutine only; a client that could not be started is torn down once instead")
	c.rule("stop-safe", "Stop never waits, so it can be called from inside a handler; it marks the client stopped under its lock before it picks the connection to close; a connection dialed meanwhile is adopted only while the client is seen running under the same lock, and is closed otherwise")
	c.rule("reader-released", "where the reading goroutine waits for a stream's queue, a channel that Stop itself closes is an alternative: the wake-up channel is not, the reading goroutine closes that itself; Stop closes the channel on every path, at most once")
	c.rule("sender-ends", "every wait of the sending goroutine includes the wake-up channel, and it returns after that")
	recv, send := r.loops()
	if len(recv) == 0 {
		c.need(nil, "goroutine reading the connection")
		return
	}
	stop := r.stopFn()
	for _, fn := range recv {
		ex := c.readerLife(fn)
		cl := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			if p.done != "return" && p.done != "panic" {
				continue
			}
			c.ob("exits of the reading goroutine")
			closes, stops, discs := 0, 0, 0
			stopped, connClosed := false, false
			var cur *Term
			var at token.Pos = fn.Pos()
			for _, e := range p.events {
				if e.G != 0 {
					continue
				}
				switch {
				case e.Kind == "close" && r.onClose(e.Args[0]) && loadBase(e.Args[0]) == cl:
					closes++
					at = e.Pos
				case e.Kind == "dyn" && stop != nil && loadField(e.Args[0]) == stop:
					stops++
					if discs > 0 {
						c.bad("teardown", "order", e.Pos, p, "the disconnect hook runs before the server's accounting is updated")
					}
				case r.isHook(e, "HandleDisconnected"):
					discs++
					if closes == 0 {
						c.bad("teardown", "order wake", e.Pos, p, "the disconnect hook runs before the waiters are woken")
					}
				case e.Kind == "store" && e.Args[0].fieldVar() == r.running && e.Args[0].args[0] == cl:
					if b, ok := e.Args[1].BoolVal(); ok {
						stopped = !b
					}
				case e.Kind == "store" && e.Args[0].fieldVar() == r.conn && e.Args[0].args[0] == cl:
					cur = e.Args[1]
					connClosed = false
				case isCall(e, "net.Conn).Close"):
					if cur != nil && e.Args[0] == cur || cur == nil && loadField(e.Args[0]) == r.conn {
						connClosed = true
					}
				}
			}
			how := "returns"
			if p.done == "panic" {
				how = "panics"
			}
			if closes != 1 {
				c.bad("teardown", "wake", at, p, "the reading goroutine %s with the wake-up channel closed %d times", how, closes)
			}
			if discs != 1 {
				c.bad("teardown", "hook", fn.Pos(), p, "the reading goroutine %s with the disconnect hook called %d times", how, discs)
			}
			if stop != nil && stops != 1 {
				isNil, known := p.isNil(p.loadF(cl, stop))
				if !(known && isNil && stops == 0) {
					c.bad("teardown", "accounting", fn.Pos(), p, "the reading goroutine %s with the stop callback called %d times", how, stops)
				}
			}
			if !stopped {
				c.bad("teardown", "state", fn.Pos(), p, "the reading goroutine %s with the client still marked running", how)
			}
			if !connClosed {
				c.bad("teardown", "connection", fn.Pos(), p, "the reading goroutine %s without closing its current connection", how)
			}
		}
		c.sample("%s: %d path classes", fnName(fn), len(ex.paths))
	}
	c.adoptRule(recv)
	c.stopRule()
	c.onlyTeardown(recv)
	c.startRule()
	for _, fn := range send {
		o := c.std()
		o.MaxLoop = 1
		ex := c.explore("sender "+fnName(fn), fn, c.withCoders(o, fn, 0))
		for _, p := range ex.paths {
			woken := false
			for _, e := range p.events {
				if e.Kind == "select" && e.Block {
					c.ob("waits of the sending goroutine")
					has := false
					for _, cs := range e.Cases {
						has = has || !cs.Send && r.onClose(cs.Ch)
					}
					if !has {
						c.bad("sender-ends", fnName(fn), e.Pos, p, "the sending goroutine waits without the wake-up channel")
					}
					if woken {
						c.bad("sender-ends", fnName(fn)+" again", e.Pos, p, "the sending goroutine waits again after it was woken for shutdown")
					}
					if e.Chosen >= 0 && !e.Cases[e.Chosen].Send && r.onClose(e.Cases[e.Chosen].Ch) {
						woken = true
					}
				}
			}
		}
	}
	c.floor("exits of the reading goroutine", 4)
	c.floor("waits of the sending goroutine", 2)
}

// onlyTeardown: nobody but the reading goroutine and the accept loop (for a
// client it could not start) runs a part of the teardown.
func (c *Check) onlyTeardown(recv []*ssa.Function) {
	r := c.r
	stop := r.stopFn()
	own := map[*ssa.Function]bool{}
	for _, f := range recv {
		own[f] = true
	}
	for _, n := range []string{"Server.Serve", "Server.Run"} {
		if f := c.w.Fn("", n); f != nil {
			own[f] = true
		}
	}
	for _, fn := range c.w.allFns {
		what := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" && isFieldLoad(cc.Args[0], r.closeCh) {
					what = "closes the wake-up channel"
					c.ob("closers of the wake-up channel")
				}
				for _, x := range append([]ssa.Value{cc.Value}, cc.Args...) { // called or given to a helper to call
					if stop != nil && isFieldLoad(x, stop) {
						what = "runs the stop callback"
					}
					if v := r.hook["HandleDisconnected"]; v != nil && isFieldLoad(x, v) {
						what = "runs the disconnect hook"
					}
				}
			}
		}
		if what == "" {
			continue
		}
		c.ob("teardown actions")
		seen := map[*ssa.Function]bool{}
		var up func(f *ssa.Function)
		up = func(f *ssa.Function) {
			if seen[f] || own[f] {
				return
			}
			seen[f] = true
			callers := c.w.callers(f)
			if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && !c.w.isHandlerMethod(f) {
				c.bad("one-closer", fnName(f)+" "+what, f.Pos(), nil, "%s (through %s) %s outside the reading goroutine", fnName(f), fnName(fn), what)
				return
			}
			for _, g := range callers {
				up(g)
			}
			if f.Parent() != nil {
				up(f.Parent())
			}
		}
		up(fn)
	}
	c.floor("teardown actions", 2)
}

// adoptRule: dialed connections in the reading goroutine.
func (c *Check) adoptRule(recv []*ssa.Function) {
	r := c.r
	for _, fn := range recv {
		ex := c.readerLife(fn)
		cl := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			for i, e := range p.events {
				if e.G != 0 || e.Kind != "dyn" || loadField(e.Args[0]) != r.dialer {
					continue
				}
				er := p.ex.extract(e.Res, 1, nil)
				if p.errIs(er) == "err" {
					continue
				}
				conn := p.ex.extract(e.Res, 0, nil)
				panicked := false
				kept, closed := -1, false
				for j := i + 1; j < len(p.events); j++ {
					x := p.events[j]
					if x.G != 0 {
						continue
					}
					if x.Kind == "panic" && j == i+1 {
						panicked = true
					}
					if x.Kind == "store" && x.Args[0].fieldVar() == r.conn && x.Args[1] == conn {
						kept = j
					}
					if isCall(x, "net.Conn).Close") && x.Args[0] == conn && kept < 0 {
						closed = true
					}
				}
				if panicked || p.errIs(er) != "nil" {
					if !panicked && p.done != "cut" && p.errIs(er) == "?" {
						c.bad("stop-safe", "unchecked dial", e.Pos, p, "the result of a dial is not examined")
					}
					continue
				}
				if p.done == "cut" && kept < 0 {
					continue
				}
				c.ob("connections dialed by the reading goroutine")
				if kept < 0 && !closed {
					c.bad("stop-safe", "lost", e.Pos, p, "a connection dialed by the reading goroutine is neither adopted nor closed")
				}
				if kept < 0 {
					continue
				}
				// running seen true in the same critical section
				okSeen := false
				sec := critSection(p, kept)
				for j := kept - 1; j > i; j-- {
					x := p.events[j]
					if x.G == 0 && x.Kind == "load" && x.Args[0].fieldVar() == r.running {
						if v, known := p.truth(x.Res); known && v {
							for obj := range sec {
								if obj.op == "field" && obj.args[0] == cl && sec[obj] <= j {
									okSeen = true
								}
							}
						}
					}
				}
				if !okSeen {
					c.bad("stop-safe", "adopt", p.events[kept].Pos, p, "a dialed connection becomes the client's connection without the client being seen running under its lock: a concurrent Stop closes the old connection only")
				}
			}
		}
	}
	c.floor("connections dialed by the reading goroutine", 1)
}

func (c *Check) stopRule() {
	r := c.r
	fn := c.w.Fn("", "Client.Stop")
	if !c.need(fn, "Client.Stop") {
		return
	}
	o := c.std()
	o.KeepLoads = true
	ex := c.explore("Client.Stop", fn, o)
	cl := ex.ParamTerms(fn)[0]
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		c.ob("stop paths")
		marked, closed := -1, false
		for i, e := range p.events {
			if e.G != 0 {
				continue
			}
			switch {
			case e.Kind == "store" && e.Args[0].fieldVar() == r.running && e.Args[0].args[0] == cl:
				if b, ok := e.Args[1].BoolVal(); ok && !b {
					locked := false
					for obj := range critSection(p, i) {
						locked = locked || obj.op == "field" && obj.args[0] == cl
					}
					if locked {
						marked = i
					} else {
						c.bad("stop-safe", "Stop lock", e.Pos, p, "Stop marks the client stopped without its lock")
						marked = i
					}
				}
			case e.Kind == "load" && e.Args[0].fieldVar() == r.conn && e.Args[0].args[0] == cl && marked < 0:
				c.bad("stop-safe", "Stop order", e.Pos, p, "Stop picks the connection to close before it marked the client stopped")
			case isCall(e, "net.Conn).Close"):
				closed = true
			case e.Kind == "recv" || e.Kind == "send" || e.Kind == "select" && e.Block || isCall(e, "time.Sleep") || isCall(e, "sync.WaitGroup).Wait"):
				c.bad("stop-safe", "Stop waits", e.Pos, p, "Stop waits: called from inside a handler it keeps the reading goroutine from ending")
			}
		}
		if marked < 0 || !closed {
			c.bad("stop-safe", "Stop", fn.Pos(), p, "Stop returns without marking the client stopped and closing its connection")
		}
	}
	c.floor("stop paths", 1)
	// what releases the reading goroutine
	used := map[*types.Var]bool{}
	if disp := c.onMessageN(0); disp != nil {
		for _, p := range disp.paths {
			for _, e := range p.events {
				if s, _ := c.enqueued(p, e); s == nil || e.G != 0 {
					continue
				}
				c.ob("waits of the reading goroutine")
				ok := e.Kind == "select" && !e.Block
				for _, cs := range e.Cases {
					if !cs.Send && r.onStop(cs.Ch) {
						ok = true
						used[loadField(cs.Ch)] = true
					}
				}
				if !ok {
					c.bad("reader-released", "stream queue", e.Pos, p, "the reading goroutine waits for room in a stream's queue and a stop does not release it: nothing is torn down as long as nobody receives from that stream")
				}
			}
		}
		c.floor("waits of the reading goroutine", 1)
	}
	makes := func(f *ssa.Function, v *types.Var) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					_, mk := st.Val.(*ssa.MakeChan)
					if ok && mk && structOf(fa.X.Type()).Field(fa.Field) == v {
						return true
					}
				}
			}
		}
		return false
	}
	for v := range used {
		for _, f := range c.w.allFns {
			if v == r.closeCh || !makes(f, r.closeCh) {
				continue
			}
			c.ob("clients made or restarted")
			ok := false
			for _, g := range append(c.w.callers(f), f) {
				for h := range c.w.reach(g) {
					ok = ok || makes(h, v)
				}
			}
			if !ok {
				c.bad("reader-released", fnName(f)+" makes", f.Pos(), nil, "%s makes a client's wake-up channel but not the channel that releases its reading goroutine", fnName(f))
			}
		}
	}
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		for v := range r.stopChs() {
			closed, seen, guard := 0, false, false
			t := p.ex.tt.mk("init", "", v.Type(), nil, p.ex.field(cl, v))
			for i, e := range p.events {
				switch {
				case e.Kind == "select" && !e.Block && len(e.Cases) == 1 && !e.Cases[0].Send && loadField(e.Cases[0].Ch) == v:
					seen = e.Chosen == 0
					guard = e.Chosen == -1 && p.held(i, cl)
				case e.Kind == "load" && e.Args[0].fieldVar() == r.running:
					if b, known := p.truth(e.Res); known && p.held(i, cl) {
						guard, seen = guard || b, seen || !b
					}
				case e.Kind == "close" && loadField(e.Args[0]) == v:
					closed++
					once := false
					for _, f := range e.Stack {
						once = once || f != nil && f.Name() == "Do"
					}
					if !guard && !once {
						c.bad("reader-released", "Stop twice", e.Pos, p, "Stop closes a channel that an earlier Stop may have closed")
					}
				}
			}
			if used[v] && closed == 0 && !seen && !p.isNull(t) {
				c.bad("reader-released", "Stop", fn.Pos(), p, "Stop returns without having released the reading goroutine")
			}
			if closed > 1 {
				c.bad("reader-released", "Stop twice", fn.Pos(), p, "Stop closes a channel twice")
			}
		}
	}
}

// serveLoop explores the accept loop for at most one connection.
func (c *Check) serveLoop() (*ssa.Function, *Ex) {
	fn := c.w.Fn("", "Server.Serve")
	if !c.need(fn, "Server.Serve") {
		return nil, nil
	}
	return fn, c.acceptLoop(fn)
}

func (c *Check) acceptLoop(fn *ssa.Function) *Ex {
	k := c.conc()
	o := c.std()
	op0 := o.Opaque
	o.Opaque = func(f *ssa.Function) bool {
		return op0(f)
	}
	o.PanicAt = func(e *Event) bool {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "(net.") {
			return false
		}
		return k.panics(e)
	}
	o.NoSpawn = c.w.loopSpawn()
	o.MaxLoop = 1
	o.KeepLoads = true
	vol := o.Volatile
	o.Volatile = func(a *Term) bool { return a.root().op != "alloc" && vol(a) }
	o.Keep = func(e *Event) bool {
		if e.Kind == "load" {
			v := e.Args[0].fieldVar()
			return v != nil && isBool(v.Type())
		}
		return true
	}
	return c.explore("accept "+fnName(fn), fn, o)
}

// startRule: per accepted client either the reading goroutine is started or the client is torn down, exactly one of both.
func (c *Check) startRule() {
	r := c.r
	fn, ex := c.serveLoop()
	if ex == nil {
		return
	}
	recv, _ := r.loops()
	isRecv := map[string]bool{}
	for _, f := range recv {
		isRecv[f.String()] = true
	}
	for _, p := range ex.paths {
		made := map[*Term]int{}
		for i, e := range p.events {
			if e.Kind == "store" && e.Args[0].fieldVar() == r.conn && e.Args[0].args[0].op == "alloc" {
				made[e.Args[0].args[0]] = i
			}
		}
		for cl := range made {
			started, torn := 0, 0
			for _, e := range p.events {
				if e.Kind == "go" && c.startsLoop(e, cl, isRecv) {
					started++
				}
				if e.Kind == "close" && loadField(e.Args[0]) == r.closeCh && loadBase(e.Args[0]) == cl || e.Kind == "close" && p.loadF(cl, r.closeCh) == e.Args[0] {
					torn++
				}
			}
			if p.done == "cut" && started+torn == 0 {
				continue
			}
			c.ob("accepted clients followed")
			if started+torn != 1 {
				c.bad("one-closer", "accepted client", fn.Pos(), p, "an accepted client's reading goroutine is started %d times and the client is torn down %d times by the accept loop", started, torn)
			}
		}
	}
	c.floor("accepted clients followed", 2)
}

// startsLoop: the go event runs one of the named functions for client cl.
func (c *Check) startsLoop(e *Event, cl *Term, names map[string]bool) bool {
	hit := func(t *Term) bool {
		if t == nil || t.op != "closure" && t.op != "fn" {
			return false
		}
		f, _ := t.aux.(*ssa.Function)
		if f == nil {
			return false
		}
		if g := unbound(f); names[g.String()] && len(t.args) == 1 && t.args[0] == cl {
			return true
		}
		return false
	}
	if names[e.Name] && len(e.Args) > 0 && e.Args[0] == cl {
		return true
	}
	for _, a := range e.Args {
		if hit(a) {
			return true
		}
		if a.op == "closure" {
			// a literal that calls the loop of the captured client
			if f, _ := a.aux.(*ssa.Function); f != nil && f.Synthetic == "" {
				for g := range c.w.reach(f) {
					if names[g.String()] {
						return true
					}
				}
			}
		}
	}
	return false
}

// C20 -------------------------------------------------------------------------

func (c *Check) reconnectPaths(fn *ssa.Function, max int64, loop int, inlineClear bool) *Ex {
	r := c.r
	o := c.std()
	op0 := o.Opaque
	life := c.lifeFns()
	memo := map[*ssa.Function]bool{}
	tables := func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			v = c.w.touches(f, r.sessions, r.asyncs, r.streamsL, r.streamsR)
			memo[f] = v
		}
		return v
	}
	var mv *types.Var
	if max != -99 {
		if mv = c.setterField("SetMaxReconnectTimes"); mv == nil {
			c.need(nil, "SetMaxReconnectTimes")
			return nil
		}
		// one loss is followed up to the next read
		o.OnStep = func(ex *Ex, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Call); !ok {
				return
			}
			n := 0
			for _, e := range st.events {
				if c.isRecvCall(e) {
					n++
				}
			}
			if n > 1 {
				st.done = "cut"
			}
		}
	}
	// a stream's own methods are followed on their own (closesStream)
	ofStream := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		return rv != nil && f.Parent() == nil && types.Identical(deref(rv.Type()), r.stream)
	}
	o.Opaque = func(f *ssa.Function) bool {
		if c.w.isHandlerMethod(f) && (f.Name() == "Recv" || f.Name() == "OnMessage") || op0(f) || ofStream(f) {
			return true
		}
		if f.Parent() != nil || takesFunc(f) || callsRecover(f) || life(f) {
			return false
		}
		if mv != nil && c.w.touches(f, mv) {
			return false
		}
		return !(inlineClear && tables(f))
	}
	o.MaxLoop = loop
	o.KeepLoads = true
	o.Keep = func(e *Event) bool {
		if e.Kind == "load" {
			v := e.Args[0].fieldVar()
			return v == r.running || v == r.reconnecting
		}
		return true
	}
	key := "reconnect " + fnName(fn)
	if max != -99 {
		o.Init = func(ex *Ex, st *State) {
			for _, h := range c.handlerTerms(ex, st, fn) {
				st.mem[ex.field(h, mv)] = ex.tt.Int(max)
			}
		}
		key += " max=" + itoa(max)
	}
	o.NoSpawn = c.w.loopSpawn()
	return c.explore(key, fn, o)
}

func itoa(n int64) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func ruleC20(c *Check) {
	r := c.r
	c.rule("fail-pending-first", "between the loss of a connection and the adoption of the next one the reading goroutine marks the client reconnecting, closes the old connection, wakes every pending call, takes over and empties the tables of pending calls, asynchronous calls and streams of both sides, and closes both directions of every stream found, starting nothing that could send on the next connection")
	c.rule("start-clean", "after adopting a new connection it installs a reader made from that connection, then clears the reconnecting mark, and only then starts the connected hook and reads again")
	c.rule("refused", "no operation queues or writes a message after it saw the client reconnecting, and each one looks at that before it does; none queues a message without having seen the client running")
	c.rule("attempts", "every dial follows a look at the running state that said running; with a positive maximum exactly that many dials are made before giving up, with zero or a negative maximum the only way to give up is a stop")
	c.rule("first-start", "creating or restarting a client dials; a failed dial is returned and starts nothing; after a successful one the client has exactly that connection, a reader made from it, channels no earlier connection closed, and is marked running and not reconnecting before its reading goroutine - and, where it writes through the queue, its queue goroutine - is started, each once")
	c.firstStart()
	recv, _ := r.loops()
	if len(recv) == 0 {
		c.need(nil, "goroutine reading the connection")
		return
	}
	if k := c.streams(); k != nil {
		c.strm = k
	}
	for _, fn := range recv {
		ex := c.reconnectPaths(fn, -99, 1, true)
		cl := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			c.reconnectPath(fn, p, cl)
		}
		for _, n := range []int64{1, 2, 3} {
			c.attempts(fn, n)
		}
		c.attempts(fn, 0)
		c.attempts(fn, -1)
	}
	for _, op := range c.ops(sendOps...) {
		o := c.std()
		o.KeepLoads = true
		o.Keep = func(e *Event) bool {
			if e.Kind == "load" {
				v := e.Args[0].fieldVar()
				return v == r.running || v == r.reconnecting
			}
			return true
		}
		ex := c.explore("flags "+op.name, op.fn, o)
		for _, p := range ex.paths {
			seen, saw := false, false
			up := false
			for _, e := range p.events {
				if e.G != 0 {
					continue
				}
				if e.Kind == "load" && e.Args[0].fieldVar() == r.running {
					if v, known := p.truth(e.Res); known {
						up = up || v
					}
				}
				if e.Kind == "load" && e.Args[0].fieldVar() == r.reconnecting {
					if v, known := p.truth(e.Res); known {
						if v {
							seen = true
						} else {
							saw = true
						}
					}
				}
				conn, _ := r.written(e)
				if r.queued(e) != nil || conn != nil {
					c.ob("hand-overs")
					if seen {
						c.bad("refused", op.name, e.Pos, p, "%s hands its message over although it saw the client reconnecting", op.name)
					}
					// (a write on the closed connection of a stopped client fails by itself)
					if !up && r.queued(e) != nil {
						c.bad("refused", op.name+" stopped", e.Pos, p, "%s hands its message over without having seen the client running", op.name)
					}
					if !saw {
						c.bad("refused", op.name+" blind", e.Pos, p, "%s hands its message over without having looked whether the client is reconnecting", op.name)
					}
				}
			}
		}
	}
	c.floor("hand-overs", 15)
	c.floor("reconnections", 1)
	c.floor("dials", 3)
}

// closedChans: the channels of a client that the library closes at the end of a connection.
func (c *Check) closedChans() []*types.Var {
	r := c.r
	var out []*types.Var
	seen := map[*types.Var]bool{}
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := cl.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" {
					continue
				}
				u, ok := cl.Common().Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), r.client) {
					continue
				}
				if v := structOf(fa.X.Type()).Field(fa.Field); !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func (c *Check) startOpts() Opts {
	o := c.std()
	op := o.Opaque
	o.Opaque = func(f *ssa.Function) bool { return c.w.isHandlerMethod(f) && f.Name() == "Clone" || op(f) }
	o.KeepLoads = true
	o.Keep = func(e *Event) bool { return e.Kind != "load" }
	vol := o.Volatile
	o.Volatile = func(t *Term) bool { return !(t.op == "field" && t.args[0].op == "alloc") && vol(t) } // a client being made is nobody else's
	return o
}

// restartValues: a client restarted starts without the values of its earlier life.
func (c *Check) restartValues(rule string) {
	vs := fieldsWhere(c.r.client, isValues)
	fn := c.w.Fn("", "Client.Restart")
	if len(vs) != 1 || fn == nil {
		return
	}
	ex := c.explore("Client.Restart start", fn, c.startOpts())
	cl := ex.ParamTerms(fn)[0]
	for _, p := range ex.paths {
		started, fresh := token.NoPos, false
		for _, e := range p.events {
			switch {
			case e.Kind == "store" && e.Args[0].op == "field" && e.Args[0].args[0] == cl && e.Args[0].fieldVar() == vs[0] && loadField(e.Args[1]) != vs[0],
				e.Kind == "mapdel" && loadField(e.Args[0]) == vs[0],
				e.Kind == "call" && e.Name == "clear" && loadField(e.Args[0]) == vs[0]:
				fresh = true
			case e.Kind == "go" && started == token.NoPos:
				started = e.Pos
			}
		}
		if p.done != "return" || started == token.NoPos {
			continue
		}
		c.ob("restarts with values")
		if !fresh && !rangedOver(p, vs[0]) {
			c.bad(rule, "Restart values", started, p, "Restart starts the client with the values of its earlier life")
		}
	}
	c.floor("restarts with values", 1)
}

// rangedOver: the path went through the whole table.
func rangedOver(p *Path, v *types.Var) bool {
	for _, e := range p.events {
		if (e.Kind == "range" || e.Kind == "rangeend") && len(e.Args) > 0 && loadField(e.Args[0]) == v {
			return true
		}
	}
	return false
}

func (c *Check) firstStart() {
	r := c.r
	recv, send := r.loops()
	isRecv, isSend := map[string]bool{}, map[string]bool{}
	for _, f := range recv {
		isRecv[f.String()] = true
	}
	for _, f := range send {
		isSend[f.String()] = true
	}
	aw := c.settingField("AsyncWrite")
	chans := c.closedChans()
	for _, n := range []string{"NewClient", "Client.Restart"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		ex := c.explore(n+" start", fn, c.startOpts())
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			var dial *Event
			dials, rs, ss := 0, 0, 0
			first, firstRead := -1, -1
			cl := a[0]
			if n == "NewClient" {
				cl = p.results[0]
			}
			off, shut := false, false
			for i, e := range p.events {
				if e.G == 0 && e.Kind == "store" && e.Args[0].op == "field" && e.Args[0].args[0] == cl && e.Args[0].fieldVar() == r.running {
					b, k := e.Args[1].BoolVal()
					off = k && !b
				}
				if e.G == 0 && isCall(e, "net.Conn).Close") && loadField(e.Args[0]) == r.conn && loadBase(e.Args[0]) == cl {
					shut = off
				}
				wait := e.Kind == "recv" && r.onClose(e.Args[0])
				if e.Kind == "select" && e.Chosen >= 0 && !e.Cases[e.Chosen].Send && r.onClose(e.Cases[e.Chosen].Ch) {
					wait = true
				}
				if wait && !shut {
					c.bad("first-start", n+" unstopped", e.Pos, p, "%s waits for the end of a connection it has not stopped", n)
				}
				if e.Kind == "dyn" && (e.Args[0] == a[0] || loadField(e.Args[0]) == r.dialer) && e.Res != nil {
					dials++
					dial = e
				}
				if e.Kind == "go" {
					switch {
					case c.startsLoop(e, cl, isRecv):
						rs++
						if firstRead < 0 {
							firstRead = i
						}
					case c.startsLoop(e, cl, isSend):
						ss++
					default:
						continue
					}
					if first < 0 {
						first = i
					}
				}
			}
			er := p.results[len(p.results)-1]
			if dial == nil {
				if rs+ss > 0 || n == "NewClient" {
					c.bad("first-start", n+" no dial", fn.Pos(), p, "%s ends without having dialed", n)
				}
				if p.errIs(er) != "err" {
					// only a client someone else has started in the meantime
					run := false
					for f, v := range p.facts {
						if v && loadField(f) == r.running {
							run = true
						}
					}
					if !run {
						c.bad("first-start", n+" nothing", fn.Pos(), p, "%s reports success without having dialed although the client is not running", n)
					}
				}
				continue
			}
			c.ob("dials of a start")
			derr := p.ex.extract(dial.Res, 1, nil)
			st := p.errIs(derr)
			if dials > 1 {
				c.bad("first-start", n+" dials", dial.Pos, p, "%s dials %d times", n, dials)
			}
			if st == "" || st != "nil" && st != "err" {
				c.bad("first-start", n+" unchecked", dial.Pos, p, "%s does not look at the error of its dial", n)
				continue
			}
			if st == "err" {
				if p.errIs(er) != "err" && er != derr {
					c.bad("first-start", n+" swallowed", dial.Pos, p, "%s does not report that its dial failed", n)
				}
				if rs+ss > 0 {
					c.bad("first-start", n+" failed", dial.Pos, p, "%s starts a goroutine for a connection that was not made", n)
				}
				continue
			}
			if p.errIs(er) != "nil" {
				c.bad("first-start", n+" error", dial.Pos, p, "%s reports an error although its dial succeeded", n)
				continue
			}
			conn := p.ex.extract(dial.Res, 0, nil)
			if n == "NewClient" && (cl.op != "alloc" && !strings.HasPrefix(cl.op, "obj") && cl.IsNil()) {
				c.bad("first-start", n+" client", dial.Pos, p, "%s returns no client", n)
				continue
			}
			if rs != 1 {
				c.bad("first-start", n+" reader", fn.Pos(), p, "%s starts the reading goroutine %d times", n, rs)
				continue
			}
			if aw != nil {
				h := p.ex.tt.mk("unwrap", typeKey(c.w.handlerImpl), c.w.handlerImpl, nil, p.loadF(cl, r.hdl))
				if v, k := p.truth(p.loadF(h, aw)); k && v && ss != 1 || k && !v && ss != 0 || !k && ss == 0 {
					c.bad("first-start", n+" queue", fn.Pos(), p, "%s starts the goroutine of the send queue %d times", n, ss)
				}
			}
			// the state when the first goroutine starts
			c.ob("starts followed")
			val := map[*types.Var]*Term{}
			for i, e := range p.events[:firstRead] {
				if e.Kind == "store" && e.Args[0].op == "field" && e.Args[0].args[0] == cl {
					if v := e.Args[0].fieldVar(); i < first || v == r.reader {
						val[v] = e.Args[1]
					}
				}
			}
			is := func(v *types.Var, want bool) bool {
				t := val[v]
				if t == nil {
					return !want && n == "NewClient"
				}
				b, k := p.truth(t)
				return k && b == want
			}
			switch {
			case val[r.conn] == nil || val[r.conn] != conn:
				c.bad("first-start", n+" conn", fn.Pos(), p, "%s starts reading before the client has the connection just dialed", n)
			case !is(r.running, true):
				c.bad("first-start", n+" running", fn.Pos(), p, "%s starts the client's goroutines before it is marked running", n)
			case !is(r.reconnecting, false):
				c.bad("first-start", n+" reconnecting", fn.Pos(), p, "%s starts the client's goroutines while it may be marked reconnecting", n)
			case val[r.reader] == nil || !c.mentions(p, val[r.reader], conn):
				c.bad("first-start", n+" source", fn.Pos(), p, "%s starts reading before the reader is made from the connection just dialed", n)
			}
			for _, v := range chans {
				if val[v] == nil || val[v].op != "makechan" {
					c.bad("first-start", n+" "+v.Name(), fn.Pos(), p, "%s starts the client's goroutines with a channel (%s) an earlier connection may have closed", n, v.Name())
				}
			}
			if ss > 0 && (val[r.sendQ] == nil || val[r.sendQ].op != "makechan") && n == "NewClient" {
				c.bad("first-start", n+" no queue", fn.Pos(), p, "%s starts the queue goroutine without a queue", n)
			}
		}
	}
	c.restartValues("first-start")
	c.floor("dials of a start", 4)
	c.floor("starts followed", 4)
}

func (c *Check) attempts(fn *ssa.Function, max int64) {
	r := c.r
	loop := 3
	if max > 0 {
		loop = int(max) + 1
	}
	ex := c.reconnectPaths(fn, max, loop, false)
	if ex == nil {
		return
	}
	gaveUp := false
	for _, p := range ex.paths {
		dials, stopSeen := 0, false
		running := false
		for _, e := range p.events {
			if e.G != 0 {
				continue
			}
			switch {
			case c.isRecvCall(e):
				dials = 0
			case e.Kind == "load" && e.Args[0].fieldVar() == r.running:
				if v, known := p.truth(e.Res); known {
					running = v
					stopSeen = !v
				}
			case e.Kind == "dyn" && loadField(e.Args[0]) == r.dialer:
				c.ob("dials")
				dials++
				if !running {
					c.bad("attempts", "stopped", e.Pos, p, "the client dials without having seen that it is still running")
				}
				running = false
				if max > 0 && int64(dials) > max {
					c.bad("attempts", "too many", e.Pos, p, "the client dials %d times although the maximum is %d", dials, max)
				}
			}
		}
		if p.done == "return" && !stopSeen {
			dialed := false
			for _, e := range p.events {
				if e.G == 0 && e.Kind == "dyn" && loadField(e.Args[0]) == r.dialer {
					dialed = true
				}
			}
			if nilD, known := p.isNil(p.loadF(p.ex.ParamTerms(fn)[0], r.dialer)); known && nilD {
				continue
			}
			if max <= 0 {
				c.bad("attempts", "gives up", fn.Pos(), p, "the client gives up reconnecting after %d dials although no limit is set (%d) and it was not stopped", dials, max)
			} else if int64(dials) != max {
				c.bad("attempts", "too few", fn.Pos(), p, "the client gives up reconnecting after %d dials, the maximum is %d", dials, max)
			} else {
				gaveUp = gaveUp || dialed
			}
		}
	}
	if max > 0 && !gaveUp {
		c.bad("attempts", "limit "+itoa(max), fn.Pos(), nil, "with a maximum of %d reconnect attempts there is no path that gives up after exactly %d", max, max)
	}
}

// reconnectPath: what happens between the loss of one connection and the next read.
func (c *Check) reconnectPath(fn *ssa.Function, p *Path, cl *Term) {
	r := c.r
	lost := -1
	for j, e := range p.events {
		if e.G != 0 {
			continue
		}
		if c.isRecvCall(e) {
			if p.errIs(p.ex.extract(e.Res, 1, nil)) == "err" {
				lost = j
			}
		}
		if e.Kind != "store" || e.Args[0].fieldVar() != r.conn || e.Args[0].args[0] != cl {
			continue
		}
		c.ob("reconnections")
		if lost < 0 {
			c.bad("fail-pending-first", "no loss", e.Pos, p, "the reading goroutine replaces its connection without having lost the previous one")
			continue
		}
		marked, closed := false, false
		taken := map[*types.Var]bool{}
		type item struct {
			elem *Term
			v    *types.Var
			at   int
		}
		var items []item
		held := map[*Term]*types.Var{}
		var was *Term
		for i := 0; i < j; i++ {
			if x := p.events[i]; x.G == 0 && x.Kind == "store" {
				if v := x.Args[0].fieldVar(); v != nil {
					held[x.Args[1]] = v
				}
				if x.Args[0].fieldVar() == r.conn {
					was = x.Args[1]
				}
			}
		}
		isTable := func(m *Term) *types.Var {
			f := loadField(m)
			if f == nil {
				f = held[m]
			}
			switch f {
			case r.sessions, r.asyncs, r.streamsL, r.streamsR:
				if f != nil {
					return f
				}
			}
			return nil
		}
		for i := lost + 1; i < j; i++ {
			x := p.events[i]
			if x.G != 0 {
				continue
			}
			switch {
			case x.Kind == "store" && x.Args[0].fieldVar() == r.reconnecting:
				if b, ok := x.Args[1].BoolVal(); ok {
					marked = b
				}
			case isCall(x, "net.Conn).Close") && (loadField(x.Args[0]) == r.conn || was != nil && x.Args[0] == was):
				closed = true
			case x.Kind == "range" || x.Kind == "rangeend":
				if v := isTable(x.Args[0]); v != nil {
					if !marked {
						c.bad("fail-pending-first", "mark", x.Pos, p, "pending work is failed before the client is marked reconnecting: work registered meanwhile is forgotten")
					}
					taken[v] = true
					if x.Kind == "range" && len(x.Args) > 2 {
						items = append(items, item{x.Args[2], v, i})
					}
				}
			}
		}
		if !marked {
			c.bad("fail-pending-first", "mark", e.Pos, p, "a new connection is adopted without the client being marked reconnecting")
		}
		if !closed {
			c.bad("fail-pending-first", "close", e.Pos, p, "a new connection is adopted without closing the old one")
		}
		for _, v := range []*types.Var{r.sessions, r.asyncs, r.streamsL, r.streamsR} {
			c.ob("tables failed")
			if !taken[v] {
				c.bad("fail-pending-first", "table "+v.Name(), e.Pos, p, "a new connection is adopted before the entries of %s were gone through", v.Name())
				continue
			}
			emptied := false
			for i := lost + 1; i < j; i++ {
				x := p.events[i]
				if x.G == 0 && x.Kind == "store" && x.Args[0].fieldVar() == v && x.Args[0].args[0] == cl && x.Args[1].op == "makemap" {
					emptied = true
				}
				if x.G == 0 && x.Kind == "mapdel" && isTable(x.Args[0]) == v {
					emptied = true
				}
			}
			hasItem := false
			for _, it := range items {
				hasItem = hasItem || it.v == v
			}
			if !emptied && hasItem {
				c.bad("fail-pending-first", "kept "+v.Name(), e.Pos, p, "the entries of %s survive the reconnection", v.Name())
			}
		}
		for _, it := range items {
			c.ob("pending entries followed")
			done, recvClosed, sendClosed := false, false, false
			for i := it.at + 1; i < j; i++ {
				x := p.events[i]
				if x.Kind == "close" && loadField(x.Args[0]) == r.sessDone && loadBase(x.Args[0]) == it.elem {
					done = true
				}
				if x.Kind == "select" && x.Chosen >= 0 && x.Cases[x.Chosen].Send && loadField(x.Cases[x.Chosen].Ch) == r.sessDone && loadBase(x.Cases[x.Chosen].Ch) == it.elem {
					done = true
				}
				if x.Kind == "call" && len(x.Args) > 0 && x.Args[0] == it.elem {
					cr, cs := c.closesStream(x, p)
					recvClosed, sendClosed = recvClosed || cr, sendClosed || cs
				}
			}
			switch it.v {
			case r.sessions:
				if !done {
					c.bad("fail-pending-first", "call not woken", p.events[it.at].Pos, p, "a pending call is not woken when its connection is lost")
				}
			case r.streamsL, r.streamsR:
				if !recvClosed || !sendClosed {
					c.bad("fail-pending-first", "stream not closed", p.events[it.at].Pos, p, "a stream is not closed in both directions when its connection is lost")
				}
			case r.asyncs:
				started := false
				for i := it.at + 1; i < j; i++ {
					x := p.events[i]
					if x.Kind == "exec" || x.Kind == "go" || x.Kind == "dyn" {
						started = true
					}
				}
				if !started {
					c.bad("fail-pending-first", "callback not run", p.events[it.at].Pos, p, "the callback of a pending asynchronous call is not run when its connection is lost")
				}
			}
		}
		// after the adoption
		conn := e.Args[1]
		readerAt, clearAt := -1, -1
		for i := j + 1; i < len(p.events); i++ {
			x := p.events[i]
			if x.G != 0 {
				continue
			}
			switch {
			case x.Kind == "store" && x.Args[0].fieldVar() == r.reader && x.Args[0].args[0] == cl:
				if c.mentions(p, x.Args[1], conn) {
					readerAt = i
				} else {
					c.bad("start-clean", "reader", x.Pos, p, "after a reconnection the reader is not made from the new connection")
				}
			case x.Kind == "store" && x.Args[0].fieldVar() == r.reconnecting:
				if b, ok := x.Args[1].BoolVal(); ok && !b {
					clearAt = i
					if readerAt < 0 {
						c.bad("start-clean", "early", x.Pos, p, "the client is marked usable before it has a reader for the new connection")
					}
				}
			case (x.Kind == "go" || x.Kind == "exec") && c.startsHook(x, "HandleConnected") || r.isHook(x, "HandleConnected"):
				c.ob("announcements")
				if clearAt < 0 {
					c.bad("start-clean", "announce", x.Pos, p, "the connected hook is started before the client is usable again")
				}
			case c.isRecvCall(x):
				if readerAt < 0 || clearAt < 0 {
					c.bad("start-clean", "read", x.Pos, p, "the new connection is read before its reader is installed and the client marked usable")
				}
				announced := false
				for k := j; k < i; k++ {
					y := p.events[k]
					if (y.Kind == "go" || y.Kind == "exec") && c.startsHook(y, "HandleConnected") || r.isHook(y, "HandleConnected") {
						announced = true
					}
				}
				if !announced {
					c.bad("start-clean", "silent", x.Pos, p, "a reconnection is not announced by the connected hook")
				}
				lost = -1
				i = len(p.events)
			}
		}
		if p.done == "return" && clearAt < 0 {
			c.bad("start-clean", "stuck", e.Pos, p, "the client is left marked reconnecting after it adopted a new connection")
		}
	}
}

// mentions: t is made from x.
func (c *Check) mentions(p *Path, t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int) bool
	rec = func(t *Term, d int) bool {
		if t == nil || d > 12 || seen[t] {
			return false
		}
		if t == x {
			return true
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a, d+1) {
				return true
			}
		}
		if t.op == "alloc" {
			for k, v := range p.State.mem {
				if k.root() == t && rec(v, d+1) {
					return true
				}
			}
		}
		return false
	}
	return rec(t, 0)
}

// startsHook: the started function calls the hook.
// closesStream: which directions this call of a stream's method is sure to
// leave closed.
func (c *Check) closesStream(e *Event, at *Path) (recv, send bool) {
	i := strings.LastIndex(e.Name, ").")
	k := c.strm
	if i < 0 || k == nil {
		return
	}
	n := "Stream." + e.Name[i+2:]
	fn := c.w.Fn("", n)
	if fn == nil {
		return
	}
	o := c.std()
	o.NoSpawn = func(*ssa.Function, []*Term) bool { return true }
	ex := c.explore("closing "+n, fn, o)
	s := ex.ParamTerms(fn)[0]
	recv, send = true, true
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		r1, s1 := false, false
		for _, x := range p.events {
			if x.Kind == "atomic" && (x.Name == "cas" && x.Args[1].eqInt(0) || x.Name == "swap" || x.Name == "store") && x.Args[0].op == "field" && x.Args[0].args[0] == s {
				r1 = r1 || x.Args[0].fieldVar() == k.recv
				s1 = s1 || x.Args[0].fieldVar() == k.send
			}
			if (x.Kind == "go" || x.Kind == "exec") && c.startsSend(x) {
				c.bad("fail-pending-first", "late end mark", x.Pos, p, "the loss of a connection starts a goroutine that sends (%s): it may do so on the next connection, whose peer takes the message for a new stream", n)
			}
		}
		recv, send = recv && r1, send && s1
	}
	return
}

// startsSend: the function started queues or writes a message.
func (c *Check) startsSend(e *Event) bool {
	for _, a := range e.Args {
		f := c.closureOf(a)
		if f == nil {
			continue
		}
		for g := range c.w.reach(unbound(f)) {
			if c.w.isHandlerMethod(g) && (g.Name() == "Send" || g.Name() == "SendN") {
				return true
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send:
						if isFieldLoad(x.Chan, c.r.sendQ) {
							return true
						}
					case *ssa.Select:
						for _, s := range x.States {
							if s.Dir == types.SendOnly && isFieldLoad(s.Chan, c.r.sendQ) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (c *Check) startsHook(e *Event, setter string) bool {
	v := c.r.hook[setter]
	for _, a := range e.Args {
		f := c.closureOf(a)
		if f == nil {
			continue
		}
		for g := range c.w.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == v {
						return true
					}
				}
			}
		}
	}
	return false
}
