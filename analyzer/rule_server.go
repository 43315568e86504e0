package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = ruleC21
	checks["C24"] = ruleC24
	checks["C25"] = ruleC25
}

// serverTable: the server's registry of connected clients.
func (r *Roles) serverTable() *types.Var {
	for _, v := range fieldsWhere(r.server, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), types.NewPointer(r.client))
	}) {
		return v
	}
	return nil
}

func constDelta(e *Event) (int64, bool) {
	if e.Kind != "atomic" || e.Name != "add" || len(e.Args) < 2 {
		return 0, false
	}
	n, ok := e.Args[1].IntVal()
	return n, ok
}

// loadChange: the event changes the server's load; delta 99 = by an unknown amount.
func loadChange(e *Event, load *types.Var) (int64, bool) {
	if e.Kind == "atomic" && e.Name != "load" && e.Args[0].fieldVar() == load {
		if n, ok := constDelta(e); ok {
			return n, true
		}
		return 99, true
	}
	if e.Kind == "store" && e.Args[0].fieldVar() == load {
		return 99, true
	}
	return 0, false
}

func ruleC21(c *Check) {
	r := c.r
	c.rule("count", "between one accepted connection and the next accept the load goes up by one exactly once, atomically, and the decision is taken on the value that very increment returned; it goes down again only together with refusing the connection or tearing the client down")
	c.rule("limit", "a client is made from the connection exactly if the maximum is 0 or less or the counted load does not exceed it; otherwise the connection is closed and uncounted")
	c.rule("registry", "the client is registered before its reading goroutine is started, and its stop callback removes exactly it, under the lock, and uncounts exactly once")
	c.rule("announced", "a served client is announced through the connected hook exactly once, after its reading goroutine was started")
	c.rule("accept-errors", "the accept loop is left after a failed accept only if the server was stopped or the error is not a temporary network error, and goes on only after a temporary one")
	c.rule("stop-all", "leaving the accept loop goes through the registry to its end and stops every client in it, and releases the waiting Stop exactly once; Stop and Shutdown mark the server stopped before they close the listener")
	c.rule("only-here", "load and registry are changed by the accept loop and the stop callback only")
	load := fieldNamed(r.server, "CurrLoad")
	max := fieldNamed(r.server, "MaxLoad")
	running := fieldNamed(r.server, "running")
	table := r.serverTable()
	if load == nil || max == nil || running == nil || table == nil {
		c.need(nil, "server load, maximum, state and registry")
		return
	}
	for _, n := range []string{"Server.Serve", "Server.Run"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		ex := c.acceptLoop(fn)
		srv := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			c.acceptPath(fn, p, srv, load, max, running, table)
		}
	}
	c.stopServer(running)
	c.onlyHere(load, table)
	c.floor("accepted connections", 20)
	c.floor("refused connections", 4)
	c.floor("stop callbacks", 1)
	c.floor("failed accepts", 4)
	c.floor("accept loops left", 4)
}

func (c *Check) isAccept(e *Event) bool { return isCall(e, "net.Listener).Accept") }

func (c *Check) acceptPath(fn *ssa.Function, p *Path, srv *Term, load, max, running, table *types.Var) {
	r := c.r
	recv, _ := r.loops()
	isRecv := map[string]bool{}
	for _, f := range recv {
		isRecv[f.String()] = true
	}
	stop := r.stopFn()
	var acc []int
	for i, e := range p.events {
		if e.G == 0 && c.isAccept(e) {
			acc = append(acc, i)
		}
	}
	for n, i := range acc {
		end := len(p.events)
		last := n == len(acc)-1
		if !last {
			end = acc[n+1]
		}
		e := p.events[i]
		switch p.errIs(p.ex.extract(e.Res, 1, nil)) {
		case "?":
			if !(last && p.done == "cut") {
				c.bad("accept-errors", "unchecked", e.Pos, p, "the result of an accept is used without looking at its error")
			}
			continue
		case "err":
			if last && p.done == "return" {
				c.ob("failed accepts")
				er := p.ex.extract(e.Res, 1, nil)
				fine := false
				for k := i + 1; k < end; k++ {
					x := p.events[k]
					if x.Kind == "load" && x.Args[0].fieldVar() == running {
						if v, known := p.truth(x.Res); known && !v {
							fine = true
						}
					}
					if isCall(x, "net.Error).Temporary") {
						if v, known := p.truth(x.Res); known && !v {
							fine = true
						}
					}
				}
				for t, v := range p.State.facts {
					if t.op == "istype" && t.args[0] == er && !v && strings.HasSuffix(t.s, "net.Error") {
						fine = true
					}
				}
				if !fine {
					c.bad("accept-errors", "left", e.Pos, p, "the accept loop ends after a failed accept although the server was not stopped and the error may be temporary")
				}
			}
			if !last {
				c.ob("accepts tried again")
				temp := false
				for k := i + 1; k < end; k++ {
					x := p.events[k]
					if isCall(x, "net.Error).Temporary") {
						if v, known := p.truth(x.Res); known && v {
							temp = true
						}
					}
					if x.Kind == "load" && x.Args[0].fieldVar() == running { // stopped: the loop is about to end
						if v, known := p.truth(x.Res); known && !v {
							temp = true
						}
					}
				}
				if !temp {
					c.bad("accept-errors", "for ever", e.Pos, p, "the accept loop goes on after a failed accept that is not known to be a temporary network error: a lost listener is never reported")
				}
			}
			continue
		}
		conn := p.ex.extract(e.Res, 0, nil)
		c.ob("accepted connections")
		up, down := 0, 0
		var counted *Term
		var cl *Term
		closed, started, registered, removed := -1, -1, -1, -1
		told := 0
		for k := i + 1; k < end; k++ {
			x := p.events[k]
			if x.G != 0 {
				continue
			}
			if d, ok := loadChange(x, load); ok {
				switch d {
				case 1:
					up++
					counted = x.Res
				case -1:
					down++
				default:
					c.bad("count", "amount", x.Pos, p, "the load is changed by something other than one up or one down")
				}
			}
			switch {
			case x.Kind == "store" && x.Args[0].fieldVar() == r.conn && x.Args[1] == conn:
				cl = x.Args[0].args[0]
			case isCall(x, "net.Conn).Close") && x.Args[0] == conn:
				closed = k
			case x.Kind == "go" && cl != nil && c.startsLoop(x, cl, isRecv):
				started = k
			case r.isHook(x, "HandleConnected"):
				told++
				if started < 0 || len(x.Args) < 2 || x.Args[1] != cl {
					c.bad("announced", "other", x.Pos, p, "a client that was not started, or another one, is announced as connected")
				}
			case x.Kind == "go" && started >= 0 && !c.startsSend(x) && c.startsHook(x, "HandleConnected"):
				told++
			case x.Kind == "mapset" && c.tableOf(p, x.Args[0], table):
				if x.Args[1] == cl && cl != nil {
					registered = k
				} else {
					c.bad("registry", "other", x.Pos, p, "something other than the accepted client is registered")
				}
			case x.Kind == "mapdel" && c.tableOf(p, x.Args[0], table):
				if x.Args[1] == cl && cl != nil {
					removed = k
				} else {
					c.bad("registry", "foreign", x.Pos, p, "accepting a connection removes another client from the registry")
				}
			}
		}
		if last && p.done != "return" && p.done != "panic" {
			continue
		}
		if up != 1 {
			c.bad("count", "up", e.Pos, p, "an accepted connection is counted %d times", up)
			continue
		}
		m := p.loadF(srv, max)
		le0, k0 := p.truth(p.ex.compare(token.LEQ, m, p.ex.tt.Const(constInt(0), m.typ)))
		in, k1 := p.truth(p.ex.compare(token.LEQ, counted, m))
		if cl != nil {
			c.ob("served connections")
			if !(k0 && le0 || k1 && in) {
				c.bad("limit", "over", e.Pos, p, "a connection is served although the counted load may exceed the maximum")
			}
			if started >= 0 {
				if registered < 0 || registered > started {
					c.bad("registry", "late", e.Pos, p, "the reading goroutine of a client is started before the client is registered: its disconnection may come first")
				}
				if down != 0 || removed >= 0 {
					c.bad("count", "uncounted early", e.Pos, p, "a served connection is uncounted or unregistered while its reading goroutine runs")
				}
				if stop != nil {
					c.stopCallback(p, cl, p.loadF(cl, stop), load, table)
				}
				if told != 1 {
					c.bad("announced", "count", e.Pos, p, "a served client is announced as connected %d times", told)
				}
			} else {
				if down != 1 {
					c.bad("count", "down", e.Pos, p, "a client that could not be started is uncounted %d times", down)
				}
				if registered >= 0 && removed < registered {
					c.bad("registry", "left behind", e.Pos, p, "a client that could not be started stays registered")
				}
				if closed < 0 {
					c.bad("limit", "open", e.Pos, p, "the connection of a client that could not be started stays open")
				}
			}
		} else {
			c.ob("refused connections")
			if !(k0 && !le0 && k1 && !in) {
				c.bad("limit", "refused", e.Pos, p, "a connection is refused although the maximum is not known to be positive and exceeded")
			}
			if closed < 0 {
				c.bad("limit", "open", e.Pos, p, "a refused connection is not closed")
			}
			if down != 1 {
				c.bad("count", "down", e.Pos, p, "a refused connection is uncounted %d times", down)
			}
		}
	}
	if p.done != "return" && p.done != "panic" || len(acc) == 0 && p.done == "return" && !c.anyEvent(p, func(e *Event) bool {
		return e.Kind == "store" && e.Args[0].fieldVar() == running
	}) {
		return
	}
	// leaving
	c.ob("accept loops left")
	whole, closes := false, 0
	from := 0
	if len(acc) > 0 {
		from = acc[len(acc)-1]
	}
	for k := from; k < len(p.events); k++ {
		x := p.events[k]
		if x.G != 0 {
			continue
		}
		switch {
		case x.Kind == "rangeend" && c.tableOf(p, x.Args[0], table):
			whole = true
		case x.Kind == "range" && c.tableOf(p, x.Args[0], table):
			stopped := false
			for j := k + 1; j < len(p.events); j++ {
				y := p.events[j]
				if (y.Kind == "go" || y.Kind == "call" || y.Kind == "enter") && strings.HasSuffix(y.Name, "Client).Stop") && len(y.Args) > 0 && y.Args[0] == x.Args[1] || y.Kind == "go" && c.goCallsOn(y, "Client).Stop", x.Args[1]) {
					stopped = true
				}
			}
			if !stopped {
				c.bad("stop-all", "client", x.Pos, p, "a registered client is not stopped when the server stops")
			}
			whole = false
		case x.Kind == "close" && loadField(x.Args[0]) != table && x.Args[0] != nil && c.isStopCh(p, srv, x.Args[0]):
			closes++
		}
	}
	if !whole {
		c.bad("stop-all", "incomplete", fn.Pos(), p, "the accept loop is left without going through all registered clients")
	}
	if closes != 1 {
		c.bad("stop-all", "release", fn.Pos(), p, "leaving the accept loop closes the stop channel %d times", closes)
	}
}

func (c *Check) anyEvent(p *Path, f func(*Event) bool) bool {
	for _, e := range p.events {
		if f(e) {
			return true
		}
	}
	return false
}

func (c *Check) isStopCh(p *Path, srv, ch *Term) bool {
	for _, v := range fieldsWhere(c.r.server, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok }) {
		if loadField(ch) == v || p.loadF(srv, v) == ch {
			return true
		}
	}
	return false
}

// goCallsOn: the started literal calls the method on the captured value.
func (c *Check) goCallsOn(e *Event, method string, on *Term) bool {
	for _, a := range e.Args {
		f := c.closureOf(a)
		if f == nil {
			continue
		}
		captured := false
		for _, b := range a.args {
			captured = captured || b == on || b.op == "alloc"
		}
		for g := range c.w.reach(f) {
			if captured && strings.HasSuffix(g.String(), method) {
				return true
			}
		}
	}
	return false
}

func (c *Check) stopCallback(p *Path, cl, t *Term, load, table *types.Var) {
	f := c.closureOf(t)
	if f == nil {
		c.bad("registry", "callback", token.NoPos, p, "an accepted client has no stop callback")
		return
	}
	key := "stop callback " + f.String()
	if _, ok := c.cache[key]; ok {
		return
	}
	o := c.std()
	o.Bind = t.args
	st := p.State
	o.Init = func(ex *Ex, s *State) {
		for k, v := range st.mem {
			s.mem[k] = v
		}
	}
	if f.Signature.Params().Len() == 1 && len(f.Params) > 0 {
		o.Args = nil
	}
	ex := c.explore(key, f, o)
	ps := ex.ParamTerms(f)
	arg := ps[len(ps)-1]
	for _, q := range ex.paths {
		c.ob("stop callbacks")
		down, del := 0, 0
		for i, e := range q.events {
			if e.G != 0 {
				continue
			}
			if d, ok := loadChange(e, load); ok {
				if d != -1 {
					c.bad("count", "callback amount", e.Pos, q, "the stop callback changes the load by something other than one down")
				}
				down++
			}
			if e.Kind == "mapdel" && loadField(e.Args[0]) == table {
				if e.Args[1] != arg && e.Args[1] != cl {
					c.bad("registry", "callback other", e.Pos, q, "the stop callback removes a client other than the stopped one from the registry")
				}
				if len(critSection(q, i)) == 0 {
					c.bad("registry", "callback lock", e.Pos, q, "the stop callback changes the registry without the lock")
				}
				del++
			}
		}
		if down != 1 {
			c.bad("count", "callback", f.Pos(), q, "the stop callback uncounts the connection %d times", down)
		}
		if del != 1 {
			c.bad("registry", "callback keeps", f.Pos(), q, "the stop callback removes the client from the registry %d times", del)
		}
	}
}

func (c *Check) stopServer(running *types.Var) {
	for _, n := range []string{"Server.Stop", "Server.Shutdown"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		ex := c.explore(n, fn, c.std())
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			c.ob("server stops")
			marked, closed := -1, -1
			for i, e := range p.events {
				if e.Kind == "store" && e.Args[0].fieldVar() == running {
					if b, ok := e.Args[1].BoolVal(); ok && !b {
						marked = i
					}
				}
				if isCall(e, "net.Listener).Close") {
					closed = i
				}
			}
			if marked < 0 || closed < marked {
				c.bad("stop-all", n, fn.Pos(), p, "%s does not mark the server stopped and then close its listener", n)
			}
		}
	}
	c.floor("server stops", 3)
}

// onlyHere: nobody else changes the load or the registry.
func (c *Check) onlyHere(load, table *types.Var) {
	ok := map[*ssa.Function]bool{}
	for _, n := range []string{"Server.Serve", "Server.Run"} {
		if fn := c.w.Fn("", n); fn != nil {
			for f := range c.w.reach(fn) {
				ok[f] = true
			}
		}
	}
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				hit := ""
				switch x := in.(type) {
				case *ssa.Store:
					if fa, is := x.Addr.(*ssa.FieldAddr); is {
						v := structOf(fa.X.Type()).Field(fa.Field)
						if _, al := fa.X.(*ssa.Alloc); !al && (v == load || v == table) {
							hit = v.Name()
						}
					}
				case *ssa.MapUpdate:
					if isFieldLoad(x.Map, table) {
						hit = table.Name()
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if b, is := cc.Value.(*ssa.Builtin); is && b.Name() == "delete" && isFieldLoad(cc.Args[0], table) {
						hit = table.Name()
					}
					if g := cc.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && !strings.HasPrefix(g.Name(), "Load") && len(cc.Args) > 0 {
						if fa, is := cc.Args[0].(*ssa.FieldAddr); is && structOf(fa.X.Type()).Field(fa.Field) == load {
							hit = load.Name()
						}
					}
				}
				if hit == "" {
					continue
				}
				c.ob("writers of load and registry")
				if !ok[fn] {
					c.bad("only-here", fnName(fn), in.Pos(), nil, "%s changes the server's %s outside the accept loop and the stop callback", fnName(fn), hit)
				}
			}
		}
	}
	c.floor("writers of load and registry", 3)
}

// C24 -------------------------------------------------------------------------

func ruleC24(c *Check) {
	r := c.r
	c.rule("every", "the iteration over the registry is never left early, and every client it yields that passes the filter is offered the message exactly once; one that does not pass is not offered it")
	c.rule("no-wait", "the offer is made with a zero timeout, so a full, stopped or reconnecting client is reported and passed over at once")
	c.rule("message", "what is offered is a notification built from the method and value given to the broadcast, and its outcome does not influence the iteration")
	table := r.serverTable()
	push := c.w.Fn("", "Client.PushMsg")
	mk := c.w.Fn("", "newMessage")
	if table == nil || !c.need(push, "Client.PushMsg") || !c.need(mk, "newMessage") {
		return
	}
	for _, n := range []string{"Server.Broadcast", "Server.BroadcastWithFilter"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		o := c.std()
		op0 := o.Opaque
		o.Opaque = func(f *ssa.Function) bool {
			return f == push || f == mk || f.Name() == "Release" && r.isMsgRecv(f) || f.Name() == "Retain" && r.isMsgRecv(f) || op0(f)
		}
		o.MaxLoop = 2
		ex := c.explore("broadcast "+n, fn, o)
		ps := ex.ParamTerms(fn)
		var filter *Term
		for i, q := range fn.Params {
			if _, ok := q.Type().Underlying().(*types.Signature); ok {
				filter = ps[i]
			}
		}
		method, val := ps[1], ps[2]
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			var keys []*Term
			open := false
			var at token.Pos
			for _, e := range p.events {
				if e.Kind == "range" && c.tableOf(p, e.Args[0], table) {
					keys = append(keys, e.Args[1])
					open = true
					at = e.Pos
				}
				if e.Kind == "rangeend" && c.tableOf(p, e.Args[0], table) {
					open = false
					c.ob("iterations")
				}
			}
			if open {
				c.bad("every", n+" early", at, p, "%s leaves the iteration over the clients early", n)
			}
			isKey := map[*Term]bool{}
			for _, k := range keys {
				isKey[k] = true
				want := 1
				if filter != nil {
					if nl, known := p.isNil(filter); !known || !nl {
						verdict := false
						for _, e := range p.events {
							if e.Kind == "dyn" && e.Args[0] == filter && e.Args[1] == k {
								verdict = true
								v, known := p.truth(e.Res)
								if !known || !v {
									want = 0
								}
							}
						}
						if !verdict {
							c.bad("every", n+" filter", fn.Pos(), p, "%s does not ask the filter about a client", n)
						}
					}
				}
				got := 0
				for _, e := range p.events {
					if e.Kind != "call" && e.Kind != "go" || !strings.HasSuffix(e.Name, push.String()) || e.Args[0] != k {
						continue
					}
					got++
					c.ob("offers")
					if e.Kind == "go" {
						c.bad("every", n+" go", e.Pos, p, "%s offers the message on another goroutine: the order of broadcasts is lost", n)
					}
					if z, ok := e.Args[2].IntVal(); !ok || z != 0 {
						c.bad("no-wait", n, e.Pos, p, "%s offers the message with a timeout other than zero", n)
					}
					c.notification(n, p, e, e.Args[1], method, val)
				}
				if got != want {
					c.bad("every", n+" offers", fn.Pos(), p, "%s offers the message to a client %d times, it should be %d", n, got, want)
				}
			}
			for _, e := range p.events {
				if e.Kind == "call" && strings.HasSuffix(e.Name, push.String()) && !isKey[e.Args[0]] {
					c.bad("every", n+" stranger", e.Pos, p, "%s offers the message to something other than a registered client", n)
				}
			}
			if len(keys) == 0 && !c.anyEvent(p, func(e *Event) bool { return e.Kind == "rangeend" && c.tableOf(p, e.Args[0], table) }) {
				c.bad("every", n+" none", fn.Pos(), p, "%s returns without going through the registered clients", n)
			}
		}
	}
	c.floor("offers", 6)
	c.floor("iterations", 4)
}

func (r *Roles) isMsgRecv(f *ssa.Function) bool {
	s := f.Signature.Recv()
	return s != nil && types.Identical(deref(s.Type()), r.message)
}

// notification: msg was built as a notification of method and value.
func (c *Check) notification(n string, p *Path, at *Event, msg, method, val *Term) {
	for _, e := range p.events {
		if e.Kind == "call" && e.Res == msg && strings.HasSuffix(e.Name, ".newMessage") {
			cmd, ok := e.Args[0].IntVal()
			if !ok || cmdName(int(cmd)) != "notify" {
				c.bad("message", n+" kind", e.Pos, p, "%s sends something other than a notification", n)
			}
			if e.Args[1] != method || e.Args[2] != val {
				c.bad("message", n+" content", e.Pos, p, "%s builds its message from something other than the given method and value", n)
			}
			for i, want := range map[int]bool{3: false, 4: false} {
				if b, ok := e.Args[i].BoolVal(); !ok || b != want {
					c.bad("message", n+" flags", e.Pos, p, "%s marks its notification as an error or asynchronous call", n)
				}
			}
			return
		}
	}
	c.bad("message", n+" origin", at.Pos, p, "%s offers a message it did not build for this broadcast", n)
}

// C25 -------------------------------------------------------------------------

func ruleC25(c *Check) {
	r := c.r
	c.rule("in-range", "for every pool size and every counter value the member handed out has an index below the pool's size")
	c.rule("rotation", "with usable members, counter values that follow each other yield members that follow each other, and every call advances the counter")
	c.rule("skip", "a member not seen running and not reconnecting is handed out only after every other index was looked at and found unusable - indices derived from one counter reading, since another caller may move the counter between two readings")
	c.rule("build", "a successful constructor returns a pool whose members are exactly the clients it connected, in order, and whose size says so; a failed one stops every client connected before and returns the error and no pool")
	pt := c.w.Type("", "ClientPool")
	if pt == nil {
		c.need(nil, "ClientPool")
		return
	}
	var list *types.Var
	var ints []*types.Var
	for _, v := range fieldsWhere(pt, func(*types.Var) bool { return true }) {
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.NewPointer(r.client)) {
			list = v
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ints = append(ints, v)
		}
	}
	if list == nil {
		c.need(nil, "list of pool members")
		return
	}
	mk := c.w.Fn("", "NewClient")
	if !c.need(mk, "NewClient") {
		return
	}
	sizes := int64(4)
	if c.thorough() {
		sizes = 7
	}
	vals := map[int64]map[*types.Var]int64{}
	for _, n := range []string{"NewClientPool", "NewClientPoolFromDialers"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		for size := int64(1); size <= sizes; size++ {
			o := c.std()
			op0 := o.Opaque
			stopC := c.w.Fn("", "Client.Stop")
			o.Opaque = func(f *ssa.Function) bool { return f == mk || f == stopC || op0(f) }
			o.MaxLoop = int(size) + 1
			o.NonNil = func(t *Term) bool { return false }
			args := c.w.paramTerms(fn)
			for i, q := range fn.Params {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					args[i] = c.w.tt.Const(constInt(size), q.Type())
				}
			}
			o.Args = args
			o.Init = func(ex *Ex, s *State) {
				for i, q := range fn.Params {
					if sl, ok := q.Type().Underlying().(*types.Slice); ok {
						if _, isF := sl.Elem().Underlying().(*types.Signature); isF {
							ex.assumeRange(s, toLin(ex.lenOf(s, args[i]), 0), size, size, nil)
						}
					}
				}
			}
			ex := c.explore("pool "+n+" "+itoa(size), fn, o)
			c.poolBuilt(n, fn, ex, list, ints, size, vals)
		}
	}
	next := c.w.Fn("", "ClientPool.Next")
	if !c.need(next, "ClientPool.Next") {
		return
	}
	// the counter Next moves
	var round *types.Var
	first := c.explore("pool Next", next, c.std())
	for _, p := range first.paths {
		for _, e := range p.events {
			if (e.Kind == "atomic" && e.Name == "add" || e.Kind == "store") && e.Args[0].op == "field" && e.Args[0].args[0] == first.ParamTerms(next)[0] {
				round = e.Args[0].fieldVar()
			}
		}
	}
	if round == nil {
		c.bad("rotation", "counter", next.Pos(), nil, "Next does not advance a counter of the pool: it hands out the same member again and again")
		return
	}
	for size := int64(1); size <= sizes; size++ {
		f := map[int64]int64{}
		d := map[int64]int64{}
		for k := int64(0); k <= 2*size; k++ {
			f[k], d[k] = c.poolNext(next, list, round, vals[size], size, k)
		}
		for k, i := range f {
			j, ok := f[k+d[k]]
			if i < 0 || size == 1 {
				continue
			}
			if d[k] == 0 {
				c.bad("rotation", "stuck", next.Pos(), nil, "Next does not advance the counter")
			} else if ok && j >= 0 && j != (i+1)%size {
				c.bad("rotation", "order", next.Pos(), nil, "on a pool of %d members the call after the one yielding index %d yields index %d", size, i, j)
			}
		}
	}
	// large pools: what a constructor leaves is a constant or the size
	big := int64(33)
	if c.thorough() {
		big = 130
	}
	bv := map[*types.Var]int64{}
	for v, n := range vals[3] {
		bv[v] = n
		if n == 3 && vals[2][v] == 2 {
			bv[v] = big
		}
	}
	for _, k := range []int64{0, 5, big - 1} {
		c.poolNext(next, list, round, bv, big, k)
	}
	if get := c.w.Fn("", "ClientPool.Get"); get != nil {
		for size := int64(1); size <= sizes; size++ {
			for _, k := range []int64{-1 << 63, -7, -1, 0, 1, 2, 3, 5, 8, 1<<63 - 1} {
				o := c.std()
				o.Args = c.w.paramTerms(get)
				o.Args[1] = c.w.tt.Const(constInt(k), get.Params[1].Type())
				o.Init = c.poolInit(get, list, nil, 0, vals[size], size)
				ex := c.explore("pool Get "+itoa2(k)+"/"+itoa(size), get, o)
				for _, p := range ex.paths {
					c.ob("indexed members")
					if i, ok := c.memberIndex(p, list, p.results); p.done != "return" || !ok || i < 0 || i >= size {
						c.bad("in-range", "Get", get.Pos(), p, "Get(%d) on a pool of %d members does not return one of them", k, size)
					}
				}
			}
		}
	}
	if stop := c.w.Fn("", "ClientPool.Stop"); stop != nil {
		o := c.std()
		op0 := o.Opaque
		stopC := c.w.Fn("", "Client.Stop")
		o.Opaque = func(f *ssa.Function) bool { return f == stopC || op0(f) }
		o.MaxLoop = 5
		o.Init = c.poolInit(stop, list, nil, 0, vals[3], 3)
		ex := c.explore("pool Stop", stop, o)
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			seen := map[int64]bool{}
			for _, e := range p.events {
				if (e.Kind == "call" || e.Kind == "go") && strings.HasSuffix(e.Name, "Client).Stop") {
					if i, ok := c.memberIndex(p, list, []*Term{e.Args[0]}); ok {
						seen[i] = true
					}
				}
			}
			c.ob("pool stops")
			if len(seen) != 3 {
				c.bad("build", "Stop", stop.Pos(), p, "stopping a pool of 3 members stops %d of them", len(seen))
			}
		}
		c.floor("pool stops", 1)
	}
	c.floor("pools built", 4)
	c.floor("failed pools", 6)
	c.floor("members handed out", 20)
	c.floor("indexed members", 20)
}

func itoa2(n int64) string {
	if n == -1<<63 {
		return "min"
	}
	return itoa(n)
}

// poolInit: a pool of size members as the constructors build it.
func (c *Check) poolInit(fn *ssa.Function, list, round *types.Var, k int64, vals map[*types.Var]int64, size int64) func(*Ex, *State) {
	return func(ex *Ex, s *State) {
		pool := ex.ParamTerms(fn)[0]
		for v, n := range vals {
			if v != round {
				ex.store(s, ex.field(pool, v), ex.tt.Const(constInt(n), v.Type()), v.Type())
			}
		}
		if round != nil {
			ex.store(s, ex.field(pool, round), ex.tt.Const(constInt(k), round.Type()), round.Type())
		}
		l := ex.load(s, ex.field(pool, list), list.Type())
		ex.assumeRange(s, toLin(ex.lenOf(s, l), 0), size, size, nil)
	}
}

// memberIndex: the returned client is the pool's member with this constant index.
func (c *Check) memberIndex(p *Path, list *types.Var, res []*Term) (int64, bool) {
	if len(res) == 0 {
		return 0, false
	}
	t := res[0]
	if t.op != "init" && t.op != "ver" || len(t.args) == 0 {
		return 0, false
	}
	a := t.args[0]
	if a.op != "idx" || loadField(a.args[0]) != list {
		return 0, false
	}
	return a.args[1].IntVal()
}

func (c *Check) poolNext(fn *ssa.Function, list, round *types.Var, vals map[*types.Var]int64, size, k int64) (int64, int64) {
	r := c.r
	o := c.std()
	o.MaxLoop = int(size) + 2
	o.AtomicAdd = true
	o.KeepLoads = true
	o.Keep = func(e *Event) bool {
		if e.Kind == "load" {
			v := e.Args[0].fieldVar()
			return v == r.running || v == r.reconnecting
		}
		return true
	}
	if size > 8 { // one way of being unusable is enough there
		vol := o.Volatile
		o.Volatile = func(a *Term) bool { return a.fieldVar() != r.reconnecting && vol(a) }
		o.Cell = func(a *Term, t types.Type) *Term {
			if a.fieldVar() == r.reconnecting {
				return c.w.tt.Bool(false)
			}
			return nil
		}
	}
	o.Init = c.poolInit(fn, list, round, k, vals, size)
	ex := c.explore("pool Next "+itoa(k)+"/"+itoa(size), fn, o)
	out, delta := int64(-1), int64(1)
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		c.ob("members handed out")
		if p.done != "return" {
			c.bad("in-range", "panic", fn.Pos(), p, "Next on a pool of %d members ends in a panic", size)
			continue
		}
		// what was seen of each member
		bad := map[int64]bool{}
		good := map[int64]bool{}
		run := map[int64]bool{}
		seenFirst := int64(-1)
		for _, e := range p.events {
			if e.Kind != "load" {
				continue
			}
			i, ok := c.memberIndex(p, list, []*Term{e.Args[0].args[0]})
			if !ok {
				continue
			}
			if seenFirst < 0 {
				seenFirst = i
			}
			v, known := p.truth(e.Res)
			if !known {
				continue
			}
			switch {
			case e.Args[0].fieldVar() == r.running && !v, e.Args[0].fieldVar() == r.reconnecting && v:
				bad[i] = true
			case e.Args[0].fieldVar() == r.running && v:
				run[i] = true
				good[i] = good[i] || false
			case e.Args[0].fieldVar() == r.reconnecting && !v:
				good[i] = true
			}
		}
		adv := false
		for _, e := range p.events {
			if (e.Kind == "atomic" && e.Name == "add" || e.Kind == "store") && e.Args[0].fieldVar() == round {
				adv = true
			}
		}
		if !adv {
			c.bad("rotation", "stuck", fn.Pos(), p, "Next does not advance the counter")
		}
		i, ok := c.memberIndex(p, list, p.results)
		if !ok {
			c.bad("skip", "shared counter", fn.Pos(), p, "Next on a pool of %d members hands out a member whose index depends on a second reading of the shared counter: with concurrent callers it can miss the only usable member", size)
			continue
		}
		if i < 0 || i >= size {
			c.bad("in-range", "index", fn.Pos(), p, "Next on a pool of %d members hands out index %d", size, i)
			continue
		}
		if run[i] && good[i] && !bad[i] {
			if len(bad) == 0 {
				out = i
				delta = c.advance(p, round, k)
			}
			continue
		}
		if int64(len(bad)) < size {
			c.bad("skip", "unusable", fn.Pos(), p, "Next on a pool of %d members hands out a member not seen usable after looking at %d of them", size, len(bad))
		}
	}
	if out < 0 {
		c.bad("rotation", "usable", fn.Pos(), nil, "no path of Next hands out a usable first member (pool of %d, counter %d)", size, k)
	}
	return out, delta
}

// advance: by how much a path moves the counter that was k (1 where that is not told)
func (c *Check) advance(p *Path, round *types.Var, k int64) int64 {
	at, known := k, true
	for _, e := range p.events {
		if len(e.Args) == 0 || e.Args[0].fieldVar() != round {
			continue
		}
		var v *Term
		switch {
		case e.Kind == "atomic" && e.Name == "add":
			n, ok := e.Args[1].IntVal()
			at, known = at+n, known && ok
			continue
		case e.Kind == "store", e.Kind == "atomic" && e.Name == "store", e.Kind == "atomic" && e.Name == "swap":
			v = e.Args[1]
		case e.Kind == "atomic" && e.Name == "cas" && e.Chosen == 0:
			v = e.Args[2]
		default:
			continue
		}
		at, known = v.IntVal()
	}
	if !known {
		return 1
	}
	return at - k
}

func (c *Check) poolBuilt(n string, fn *ssa.Function, ex *Ex, list *types.Var, ints []*types.Var, size int64, vals map[int64]map[*types.Var]int64) {
	for _, p := range ex.paths {
		if p.done != "return" {
			if p.done == "panic" {
				c.bad("build", n+" panic", fn.Pos(), p, "%s panics", n)
			}
			continue
		}
		var made []*Term
		failed := false
		var ferr *Term
		for _, e := range p.events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".NewClient") {
				er := p.ex.extract(e.Res, 1, nil)
				switch p.errIs(er) {
				case "nil":
					made = append(made, p.ex.extract(e.Res, 0, nil))
				case "err":
					failed, ferr = true, er
				default:
					c.bad("build", n+" unchecked", e.Pos, p, "%s does not look at the error of a connection attempt", n)
				}
			}
		}
		if failed || len(made) == 0 {
			c.ob("failed pools")
			if p.errIs(p.results[1]) != "err" || failed && p.results[1] != ferr && len(p.results[1].args) == 0 {
				c.bad("build", n+" error", fn.Pos(), p, "%s does not return the error of the member that could not be connected", n)
			}
			if v, known := p.isNil(p.results[0]); !known || !v {
				c.bad("build", n+" half", fn.Pos(), p, "%s returns a pool although a member could not be connected", n)
			}
			for i, m := range made {
				stopped := false
				for _, e := range p.events {
					if (e.Kind == "call" || e.Kind == "go") && strings.HasSuffix(e.Name, "Client).Stop") && c.sameMember(p, e.Args[0], m, list, made, i) {
						stopped = true
					}
				}
				if !stopped {
					c.bad("build", n+" leak", fn.Pos(), p, "%s fails without stopping member %d of %d already connected", n, i, len(made))
				}
			}
			continue
		}
		c.ob("pools built")
		pool := p.results[0]
		got := p.seqOf(p.loadF(pool, list))
		ok := len(got) == len(made) && int64(len(made)) == size
		for i := range got {
			if ok && (got[i].elem == nil || got[i].elem != made[i]) {
				ok = false
			}
		}
		if !ok {
			c.bad("build", n+" members", fn.Pos(), p, "%s connected %d clients for a pool of %d but its list holds %v", n, len(made), size, got)
			continue
		}
		for _, v := range ints {
			if k, isC := p.loadF(pool, v).IntVal(); isC {
				if vals[size] == nil {
					vals[size] = map[*types.Var]int64{}
				}
				if old, dup := vals[size][v]; dup && old != k {
					c.bad("build", n+" "+v.Name(), fn.Pos(), p, "the two constructors disagree on %s for a pool of %d", v.Name(), size)
				}
				vals[size][v] = k
			} else {
				c.bad("build", n+" "+v.Name(), fn.Pos(), p, "%s leaves %s undetermined for a pool of %d", n, v.Name(), size)
			}
		}
	}
}

// sameMember: t is the i-th client made, directly or read back from the list.
func (c *Check) sameMember(p *Path, t, m *Term, list *types.Var, made []*Term, i int) bool {
	if t == m {
		return true
	}
	for t.op == "init" || t.op == "ver" {
		a := t.args[0]
		if a.op != "idx" {
			return false
		}
		k, ok := a.args[1].IntVal()
		if !ok {
			return false
		}
		seq := p.seqOf(a.args[0])
		return int64(len(seq)) > k && seq[k].elem == m
	}
	return false
}
