package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C41"] = ruleC41
	checks["C42"] = ruleC42
}

// C41 -------------------------------------------------------------------------

func ruleC41(c *Check) {
	c.rule("setting", "every getter of the handler returns one field of it, as it is, on every path; its setter leaves exactly its argument in that field and every other field of the handler as it was")
	c.rule("hook", "the function that reports an event calls the hook its registration stored, exactly once, with exactly its own arguments and only if there is one, and no other hook except that for a finished message, which follows it")
	c.rule("default", "every package-level function named after a method of Handler calls that method of the default handler once, with its own arguments, and returns its result; SetHandler replaces the default handler")
	c.rule("given", "a client made with a handler - alone or in a pool - has exactly that one; without one it has a clone of the default handler; all members of one pool share one handler")
	c.rule("timeout", "no frame is read, and nothing is written, before the deadline of the current time plus the configured timeout was set on the connection, in that direction only, unless the timeout is known not to be positive, in which case no deadline is set")
	c.rule("queues", "the send queue of every new or restarted client and the data queue of every new stream are made for exactly the configured number of messages")
	c.rule("before", "no frame is read, and nothing is written, before the hook for it was called with the connection and returned no error; its error is what the operation returns")
	c.rule("written", "what is written is exactly the caller's bytes, to the caller's connection, and its outcome is what the operation returns")
	if !c.rolesOK() {
		return
	}
	c.settings()
	c.hooks()
	c.defaults()
	c.ioSettings()
	c.givenHandler()
	c.queueSizes()
}

// queueSizes: the queues of clients and streams hold as many messages as configured.
func (c *Check) queueSizes() {
	r := c.r
	sends := map[string]bool{}
	_, loops := r.loops()
	for _, f := range loops {
		sends[f.String()] = true
	}
	mk := func(getter string, q *types.Var, fn *ssa.Function, ex *Ex) {
		v := c.settingField(getter)
		if v == nil || q == nil {
			return
		}
		for _, p := range ex.paths {
			made := map[*Term]bool{}
			for _, e := range p.events {
				if e.Kind == "store" && e.Args[0].fieldVar() == q {
					made[e.Args[0].args[0]] = e.Args[1].op == "makechan"
				}
				if e.Kind == "go" && q == r.sendQ {
					for _, cl := range c.newClients(p) {
						if !c.startsLoop(e, cl, sends) {
							continue
						}
						c.ob("queues in use")
						if !made[cl] {
							c.bad("queues", fnName(fn)+" none", e.Pos, p, "%s starts the goroutine that empties the send queue of a client without having made that queue", fnName(fn))
						}
					}
				}
				if e.Kind != "store" || e.Args[0].fieldVar() != q || e.Args[1].op != "makechan" || len(e.Args[1].args) == 0 {
					continue
				}
				c.ob("queues made")
				if loadField(e.Args[1].args[0]) != v {
					c.bad("queues", fnName(fn)+" "+q.Name(), e.Pos, p, "%s makes a queue (%s) for a number of messages other than the configured one", fnName(fn), q.Name())
				}
			}
		}
	}
	for _, n := range []string{"NewClient", "Client.Restart"} {
		if fn := c.w.Fn("", n); c.need(fn, n) {
			mk("SendQueueSize", r.sendQ, fn, c.explore(n+" start", fn, c.startOpts()))
		}
	}
	if fn := c.w.Fn("", "Client.NewStream"); c.need(fn, "Client.NewStream") {
		mk("StreamQueueSize", r.strData, fn, c.explore("stream Client.NewStream", fn, c.std()))
	}
	if fn, ex := c.serveLoop(); fn != nil && ex != nil {
		mk("SendQueueSize", r.sendQ, fn, ex)
	}
	c.floor("queues made", 3)
	c.floor("queues in use", 2)
}

// newClients: the clients this path makes.
func (c *Check) newClients(p *Path) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == c.r.conn && e.Args[0].args[0].op == "alloc" && !seen[e.Args[0].args[0]] {
			seen[e.Args[0].args[0]] = true
			out = append(out, e.Args[0].args[0])
		}
	}
	return out
}

// givenHandler: the handler passed to a constructor is the one the clients get.
func (c *Check) givenHandler() {
	r := c.r
	mk := c.w.Fn("", "NewClient")
	tt := c.w.tt
	for _, n := range []string{"NewClient", "NewClientPool", "NewClientPoolFromDialers"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		given := tt.mk("param", "given handler", c.w.handlerImpl, nil)
		for _, kind := range []string{"none", "handler", "other"} {
			args := c.w.paramTerms(fn)
			last := len(args) - 1
			if sl, ok := fn.Params[last].Type().Underlying().(*types.Slice); !ok || !fn.Signature.Variadic() || !types.IsInterface(sl.Elem()) {
				c.need(nil, "the optional arguments of "+n)
				break
			}
			base := tt.mk("param", "given args", fn.Params[last].Type(), nil)
			it := types.NewInterfaceType(nil, nil)
			elem := tt.mk("iface", typeKey(c.w.handlerImpl), it, c.w.handlerImpl, given)
			if kind == "other" {
				elem = tt.mk("iface", "string", it, types.Typ[types.String], tt.mk("param", "given text", types.Typ[types.String], nil))
			}
			if kind == "none" {
				args[last] = tt.Nil()
			} else {
				args[last] = tt.mk("slice", "", fn.Params[last].Type(), nil, base, tt.Int(0), tt.Int(1))
			}
			for i, q := range fn.Params {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					args[i] = tt.Const(constInt(2), q.Type())
				}
			}
			o := c.std()
			op := o.Opaque
			o.Opaque = func(f *ssa.Function) bool {
				return f == mk || f == c.w.Fn("", "Client.Stop") || c.w.isHandlerMethod(f) && f.Name() == "Clone" || op(f)
			}
			o.MaxLoop = 3
			o.Args = args
			vol := o.Volatile
			o.Volatile = func(t *Term) bool { return !(t.op == "field" && t.args[0].op == "alloc") && vol(t) }
			o.Init = func(ex *Ex, s *State) {
				s.mem[ex.idx(base, tt.Int(0), it)] = elem
				for i, q := range fn.Params {
					if sl, ok := q.Type().Underlying().(*types.Slice); ok && i != last {
						_ = sl
						ex.assumeRange(s, toLin(ex.lenOf(s, args[i]), 0), 2, 2, nil)
					}
				}
			}
			ex := c.explore("given "+kind+" "+n, fn, o)
			for _, p := range ex.paths {
				if p.done == "cut" {
					continue
				}
				if p.done != "return" {
					c.bad("given", n+" end", fn.Pos(), p, "%s ends in a %s", n, p.done)
					continue
				}
				check := func(h *Term, e *Event) {
					c.ob("handlers of new clients")
					for h.op == "iface" && len(h.args) == 1 {
						h = h.args[0]
					}
					switch {
					case kind == "handler" && h != given:
						c.bad("given", n, fn.Pos(), p, "%s is given a handler and makes a client with another one", n)
					case kind != "handler" && !(h.op == "call" && strings.Contains(h.s, "handler).Clone") && len(h.args) == 1 && c.ofDefault(h.args[0])):
						c.bad("given", n+" default", fn.Pos(), p, "%s is given no handler and makes a client with something other than a clone of the default one", n)
					}
				}
				if n == "NewClient" {
					if cl := p.results[0]; p.errIs(p.results[1]) == "nil" && !cl.IsNil() {
						check(p.loadF(cl, r.hdl), nil)
					}
					continue
				}
				var one *Term
				for _, e := range p.events {
					if e.Kind == "call" && e.Fn == mk || e.Kind == "call" && e.Name == mk.String() {
						v := e.Args[len(e.Args)-1]
						for v.op == "slice" && len(v.args) == 3 {
							v = v.args[0]
						}
						h := p.ex.load(p.State, p.ex.idx(v, tt.Int(0), it), r.hdl.Type())
						check(h, e)
						if one != nil && h != one {
							c.bad("given", n+" shared", e.Pos, p, "%s gives the members of one pool different handlers: what is set on the pool's handler reaches one of them only", n)
						}
						one = h
					}
				}
			}
		}
	}
	c.floor("handlers of new clients", 9)
}

// ofDefault: the term is the default handler.
func (c *Check) ofDefault(t *Term) bool {
	for t != nil && (t.op == "unwrap" || t.op == "iface") {
		t = t.args[0]
	}
	return globalOf(t) == "DefaultHandler"
}

// getterFields: the fields a getter returns (nil: something else on some path).
func (c *Check) getterFields(name string, fn *ssa.Function) []*types.Var {
	ex := c.explore("handler."+name, fn, c.std())
	h := ex.ParamTerms(fn)[0]
	var out []*types.Var
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		var vs []*types.Var
		for _, r := range p.results {
			f := loadField(r)
			if f == nil || r.op != "init" || loadBase(r) != h {
				c.bad("setting", "get "+name, fn.Pos(), p, "%s returns something other than the setting as it was made", name)
				return nil
			}
			vs = append(vs, f)
		}
		if out != nil {
			for i := range vs {
				if out[i] != vs[i] {
					c.bad("setting", "get "+name, fn.Pos(), p, "%s returns different settings in different cases", name)
					return nil
				}
			}
		}
		out = vs
		for _, v := range fieldsWhere(c.r.handler, func(*types.Var) bool { return true }) {
			if t := p.loadF(h, v); t.op != "init" || loadField(t) != v {
				c.bad("setting", "get "+name+" changes", fn.Pos(), p, "%s changes a setting (%s)", name, v.Name())
			}
		}
	}
	return out
}

func (c *Check) handlerMethods() []string {
	var out []string
	it, ok := c.w.Type("", "Handler").Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	sort.Strings(out)
	return out
}

func (c *Check) settings() {
	for _, set := range c.handlerMethods() {
		name := strings.TrimPrefix(set, "Set")
		if name == set {
			continue
		}
		sf, gf := c.w.HFn(set), c.w.HFn(name)
		if sf == nil || gf == nil || gf.Signature.Params().Len() != 0 || gf.Signature.Results().Len() != sf.Signature.Params().Len() {
			continue
		}
		same := true
		for i := 0; i < gf.Signature.Results().Len(); i++ {
			same = same && types.Identical(gf.Signature.Results().At(i).Type(), sf.Signature.Params().At(i).Type())
		}
		if !same {
			continue
		}
		c.setting(set, sf, c.getterFields(name, gf))
	}
	for _, set := range []string{"HandleConnected", "HandleDisconnected", "HandleOverstock", "HandleMessageDropped", "HandleMessageDone", "HandleSessionMiss", "HandleContextDone", "BeforeRecv", "BeforeSend", "HandleMalloc", "HandleAppend", "HandleFree", "SetAsyncExecutor"} {
		if fn := c.w.HFn(set); c.need(fn, "Handler."+set) {
			c.setting(set, fn, []*types.Var{c.r.hook[set]})
		}
	}
	c.floor("settings made", 27)
}

func (c *Check) setting(set string, fn *ssa.Function, fields []*types.Var) {
	if fields == nil {
		return
	}
	ex := c.explore("handler."+set, fn, c.std())
	a := ex.ParamTerms(fn)
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("settings made")
		mine := map[*types.Var]bool{}
		for i, f := range fields {
			mine[f] = true
			if got := p.loadF(a[0], f); got != a[i+1] && !p.eq(got, a[i+1]) && !p.sameBool(got, a[i+1]) {
				c.bad("setting", "set "+set, fn.Pos(), p, "%s can return without having made the setting that is read back (%s)", set, f.Name())
			}
		}
		for _, v := range fieldsWhere(c.r.handler, func(*types.Var) bool { return true }) {
			if t := p.loadF(a[0], v); !mine[v] && (t.op != "init" || loadField(t) != v) {
				c.bad("setting", "set "+set+" other", fn.Pos(), p, "%s changes another setting as well (%s)", set, v.Name())
			}
		}
	}
}

func (c *Check) hooks() {
	done := c.r.hook["HandleMessageDone"]
	for _, ev := range []string{"Connected", "Disconnected", "Overstock", "MessageDropped", "MessageDone", "SessionMiss", "ContextDone"} {
		fn := c.w.HFn("On" + ev)
		if !c.need(fn, "Handler.On"+ev) {
			continue
		}
		own := c.r.hook["Handle"+ev]
		ends := ev == "Overstock" || ev == "MessageDropped" || ev == "SessionMiss"
		for _, maybe := range []bool{false, true} {
			o := c.std()
			key := "handler.On" + ev
			if maybe { // also without hooks
				key += " bare"
				prev := o.NonNil
				o.NonNil = func(t *Term) bool {
					if f := loadField(t); f != nil && (f == own || f == done) {
						return false
					}
					return prev(t)
				}
			}
			ex := c.explore(key, fn, o)
			a := ex.ParamTerms(fn)
			for _, p := range ex.paths {
				if p.done != "return" {
					c.bad("hook", ev+" end", fn.Pos(), p, "reporting %s does not return", ev)
					continue
				}
				c.ob("events reported")
				n, d := 0, 0
				for _, e := range p.events {
					if e.Kind != "dyn" {
						continue
					}
					f := loadField(e.Args[0])
					switch {
					case f == own && own == done || f == done && ends:
						d++
						n++
					case f == own:
						n++
						if d > 0 {
							c.bad("hook", ev+" late", e.Pos, p, "the hook for %s runs after the message was reported as finished", ev)
						}
					default:
						c.bad("hook", ev+" other", e.Pos, p, "reporting %s calls another hook", ev)
						continue
					}
					if v, known := p.isNil(e.Args[0]); !known && maybe || known && v {
						c.bad("hook", ev+" nil", e.Pos, p, "reporting %s calls a hook that need not be there", ev)
					}
					ok := len(e.Args) == len(a)
					for i := 1; i < len(a) && ok; i++ {
						ok = e.Args[i] == a[i]
					}
					if !ok {
						c.bad("hook", ev+" arguments", e.Pos, p, "the hook for %s is called with something other than what is reported", ev)
					}
				}
				want := 1
				if ends {
					want = 2
				}
				if !maybe && n != want {
					c.bad("hook", ev+" count", fn.Pos(), p, "reporting %s calls %d hooks instead of %d", ev, n, want)
				}
			}
		}
	}
	c.floor("events reported", 14)
}

func (c *Check) defaults() {
	sp := c.w.spkg[modPath]
	def, _ := sp.Members["DefaultHandler"].(*ssa.Global)
	if def == nil {
		c.bad("anchor", "DefaultHandler", token.NoPos, nil, "the default handler does not exist any more")
		return
	}
	isDef := func(t *Term) bool {
		return t.walk(func(x *Term) bool { return x.op == "global" && x.aux == def })
	}
	o := c.std()
	prev := o.Opaque
	o.Opaque = func(f *ssa.Function) bool { return c.w.isHandlerMethod(f) || prev(f) }
	o.ExecSpawn = false
	for _, m := range c.handlerMethods() {
		fn := sp.Func(m)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		switch m { // these act on the default allocator
		case "Malloc", "Realloc", "Append", "AppendString", "Free":
			continue
		}
		hm := c.w.HFn(m)
		if hm == nil || hm.Signature.Params().Len() != fn.Signature.Params().Len() || hm.Signature.Results().Len() != fn.Signature.Results().Len() {
			continue
		}
		ex := c.explore("default "+m, fn, o)
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("package functions")
			var got *Event
			n := 0
			for _, e := range p.events {
				if e.Kind == "call" && len(e.Args) > 0 && isDef(e.Args[0]) {
					n++
					got = e
				}
			}
			if n != 1 || !strings.HasSuffix(got.Name, ")."+m) {
				c.bad("default", m, fn.Pos(), p, "the package function %s does not call %s of the default handler exactly once", m, m)
				continue
			}
			ok := len(got.Args) == len(a)+1
			for i := range a {
				ok = ok && got.Args[i+1] == a[i]
			}
			if !ok {
				c.bad("default", m+" arguments", got.Pos, p, "the package function %s does not pass its arguments on", m)
			}
			if len(p.results) == 1 && p.results[0] != got.Res {
				c.bad("default", m+" result", got.Pos, p, "the package function %s does not return what the default handler returned", m)
			}
		}
	}
	if fn := sp.Func("SetHandler"); c.need(fn, "SetHandler") {
		ex := c.explore("SetHandler", fn, o)
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			c.ob("package functions")
			ok := false
			for _, e := range p.events {
				if e.Kind == "store" && isDef(e.Args[0]) {
					ok = e.Args[1] == a[0]
				}
			}
			if !ok && p.done == "return" {
				c.bad("default", "SetHandler", fn.Pos(), p, "SetHandler can return without having replaced the default handler")
			}
		}
	}
	c.floor("package functions", 30)
}

func (c *Check) ioSettings() {
	r := c.r
	for _, op := range []struct {
		name, getter, hook, set string
		read                    bool
	}{{"Recv", "ReadTimeout", "BeforeRecv", "SetReadDeadline", true}, {"Send", "WriteTimeout", "BeforeSend", "SetWriteDeadline", false}, {"SendN", "WriteTimeout", "BeforeSend", "SetWriteDeadline", false}} {
		fn, gf := c.w.HFn(op.name), c.w.HFn(op.getter)
		if !c.need(fn, "Handler."+op.name) || !c.need(gf, "Handler."+op.getter) {
			continue
		}
		fs := c.getterFields(op.getter, gf)
		if len(fs) != 1 {
			continue
		}
		ex := c.explore("handler."+op.name, fn, c.std())
		a := ex.ParamTerms(fn)
		h := a[0]
		onConn := func(t *Term) bool {
			if op.read {
				return loadField(t) == r.conn && loadBase(t) == a[1]
			}
			return t == a[1]
		}
		what := map[bool]string{true: "reads", false: "writes"}[op.read]
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("transfers")
			tf := p.loadF(h, fs[0])
			lo, hi := p.rng(tf)
			set, called, moved := false, false, 0
			var failed *Term
			for _, e := range p.events {
				io := false
				if e.Kind == "call" {
					if op.read {
						io = strings.HasPrefix(e.Name, "io.Read") || strings.HasSuffix(e.Name, "Reader).Read") || strings.HasSuffix(e.Name, "Conn).Read")
					} else {
						io = strings.HasSuffix(e.Name, "Conn).Write") || strings.HasSuffix(e.Name, "Writer).Write") || strings.HasSuffix(e.Name, "Buffers).WriteTo")
					}
				}
				switch {
				case e.Kind == "dyn" && loadField(e.Args[0]) == r.hook[op.hook]:
					called = true
					if len(e.Args) != 2 || !onConn(e.Args[1]) {
						c.bad("before", op.name+" connection", e.Pos, p, "%s calls the hook with something other than the connection", op.name)
					}
					if p.errIs(e.Res) != "nil" {
						failed = e.Res
					}
				case e.Kind == "call" && strings.HasSuffix(e.Name, "Deadline") && len(e.Args) == 2:
					if !strings.HasSuffix(e.Name, ")."+op.set) || !onConn(e.Args[0]) {
						c.bad("timeout", op.name+" direction", e.Pos, p, "%s sets a deadline for something else than what it %s", op.name, what)
						continue
					}
					v := e.Args[1]
					if !isCallTerm(v, "time.Time).Add") || !isCallTerm(v.args[0], "time.Now") || v.args[1] != tf {
						c.bad("timeout", op.name+" value", e.Pos, p, "%s sets a deadline other than the current time plus the configured timeout", op.name)
						continue
					}
					if lo <= 0 {
						c.bad("timeout", op.name+" sign", e.Pos, p, "%s sets a deadline although no timeout may be configured", op.name)
					}
					set = true
				case io:
					moved++
					if !called || failed != nil {
						c.bad("before", op.name, e.Pos, p, "%s %s without the hook having been called and having returned no error", op.name, what)
					}
					if !set && hi > 0 {
						c.bad("timeout", op.name, e.Pos, p, "%s %s without a deadline although a timeout may be configured", op.name, what)
					}
					if !op.read {
						c.written(p, op.name, fn, e, a)
					}
				}
			}
			if failed != nil {
				c.ob("refusals of a hook")
				if last := p.results[len(p.results)-1]; last != failed {
					c.bad("before", op.name+" error", fn.Pos(), p, "%s does not return the error of the hook", op.name)
				}
			} else if moved == 0 || !op.read && moved != 1 {
				c.bad("written", op.name+" count", fn.Pos(), p, "%s %s %d times", op.name, what, moved)
			}
		}
	}
	c.floor("transfers", 8)
	c.floor("refusals of a hook", 3)
}

// written: a write's operands and what is made of its outcome.
func (c *Check) written(p *Path, name string, fn *ssa.Function, e *Event, a []*Term) {
	conn, data := e.Args[0], e.Args[1]
	if strings.HasSuffix(e.Name, "WriteTo") {
		conn, data = data, conn
		for conn.op == "iface" || conn.op == "conv" {
			conn = conn.args[0]
		}
		if data.op == "alloc" { // the address of the list
			data = p.ex.load(p.State, data, deref(data.typ))
		}
		if v, ok := p.mem[e.Args[0]]; ok {
			data = v
		}
	}
	if conn != a[1] {
		c.bad("written", name+" connection", e.Pos, p, "%s writes to something other than the connection it was given", name)
	}
	if data != a[2] && !(data.op == "ver" && strings.HasSuffix(e.Name, "WriteTo")) {
		c.bad("written", name+" bytes", e.Pos, p, "%s writes something other than the bytes it was given", name)
	}
	n, err := p.results[0], p.results[len(p.results)-1]
	for n.op == "conv" {
		n = n.args[0]
	}
	if n != p.ex.extract(e.Res, 0, n.typ) && !n.contains(e.Res) || !err.contains(e.Res) {
		if p.errIs(err) == "nil" && p.errIs(p.ex.extract(e.Res, 1, err.typ)) == "nil" {
			return
		}
		c.bad("written", name+" outcome", e.Pos, p, "%s does not return the outcome of its write", name)
	}
}

// C42 -------------------------------------------------------------------------

func isValues(v *types.Var) bool {
	m, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok1 := m.Key().Underlying().(*types.Interface)
	e, ok2 := m.Elem().Underlying().(*types.Interface)
	return ok1 && ok2 && k.Empty() && e.Empty()
}

func ruleC42(c *Check) {
	c.rule("get", "a lookup returns what the object's own table holds under that key, or nothing where the table was found without it or empty")
	c.rule("set", "storing puts exactly the value under exactly the key into the object's own table, once, and touches nothing else; a table is made only where there was none; a nil key or value changes nothing")
	c.rule("delete", "deleting takes exactly the key out of the object's own table")
	c.rule("carried", "a message made by a call, notification, stream message or broadcast has the values it was given, or none; a reply has those of the request it answers")
	c.rule("clean", "a message goes back to the pool without values, so none starts with an earlier one's")
	c.rule("kept", "a client's table is replaced only where the client is made or restarted, and a restarted client starts with an empty one")
	if !c.rolesOK() {
		return
	}
	one := func(t types.Type, n string) *types.Var {
		vs := fieldsWhere(t, isValues)
		if len(vs) != 1 {
			c.bad("anchor", "values of "+n, token.NoPos, nil, "%s has %d tables of values", n, len(vs))
			return nil
		}
		return vs[0]
	}
	cv, mv := one(c.r.client, "Client"), one(c.r.message, "Message")
	mf := fieldNamed(c.r.context, "Message")
	if cv == nil || mv == nil || mf == nil {
		return
	}
	for _, n := range []string{"Client", "Message", "Context"} {
		v := mv
		if n == "Client" {
			v = cv
		}
		own := func(p *Path, self, t *Term) bool { // t is the object whose table it is
			if n == "Context" {
				return loadField(t) == mf && loadBase(t) == self
			}
			return t == self
		}
		c.valueOps(n, v, own)
	}
	c.floor("lookups", 8)
	c.floor("values stored", 6)
	c.floor("values deleted", 1)
	c.carried(mv, mf)
	c.cleanValues(mv)
	c.keptValues(cv)
}

func (c *Check) valueOps(n string, v *types.Var, own func(*Path, *Term, *Term) bool) {
	table := func(p *Path, self, m *Term) bool {
		return loadField(m) == v && own(p, self, loadBase(m))
	}
	empty := func(p *Path, self *Term) bool {
		for _, e := range p.events {
			if e.Kind != "load" || e.Res == nil || !table(p, self, e.Res) {
				continue
			}
			if val, known := p.isNil(e.Res); known && val {
				return true
			}
			if _, hi := p.rng(p.ex.lenOf(p.State, e.Res)); hi <= 0 {
				return true
			}
		}
		return false
	}
	o := c.std()
	o.KeepLoads = true
	for _, op := range []string{"Get", "Value"} {
		fn := c.w.Fn("", n+"."+op)
		if fn == nil || fn.Signature.Params().Len() != 1 {
			if op == "Get" {
				c.need(nil, n+".Get")
			}
			continue
		}
		ex := c.explore(n+"."+op, fn, o)
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("lookups")
			var got *Event
			for _, e := range p.events {
				switch e.Kind {
				case "mapget":
					if !table(p, a[0], e.Args[0]) || e.Args[1] != a[1] {
						c.bad("get", n+"."+op+" table", e.Pos, p, "%s.%s looks in another table or under another key", n, op)
					}
					got = e
				case "mapset", "mapdel":
					c.bad("get", n+"."+op+" changes", e.Pos, p, "%s.%s changes a table", n, op)
				}
			}
			found := got != nil && !p.missed(got)
			ok := true
			if len(p.results) > 1 {
				if b, known := p.truth(p.results[1]); !known || b != found {
					ok = false
				}
			}
			if found {
				ok = ok && p.results[0] == got.Res
			} else {
				ok = ok && p.results[0].IsNil() && (got != nil || empty(p, a[0]))
			}
			if !ok {
				c.bad("get", n+"."+op, fn.Pos(), p, "%s.%s does not return what the table holds under the key", n, op)
			}
		}
	}
	change := func(op, rule, ob string) {
		fn := c.w.Fn("", n+"."+op)
		if fn == nil {
			if op == "Set" || n == "Client" {
				c.need(nil, n+"."+op)
			}
			return
		}
		ex := c.explore(n+"."+op, fn, o)
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob(ob)
			fresh := map[*Term]bool{}
			sets, dels := 0, 0
			for _, e := range p.events {
				if e.Kind == "store" && e.Args[0].fieldVar() == v && own(p, a[0], e.Args[0].args[0]) {
					fresh[e.Args[1]] = true
				}
			}
			for _, e := range p.events {
				switch e.Kind {
				case "store":
					if e.Args[0].fieldVar() != v || table(p, a[0], e.Args[1]) && own(p, a[0], e.Args[0].args[0]) {
						continue // the table it has
					}
					if !own(p, a[0], e.Args[0].args[0]) || e.Args[1].op != "makemap" {
						c.bad(rule, n+"."+op+" shared", e.Pos, p, "%s.%s puts a table in place that is not a new one", n, op)
					}
					if !empty(p, a[0]) {
						c.bad(rule, n+"."+op+" replaced", e.Pos, p, "%s.%s replaces a table that may hold values", n, op)
					}
				case "mapset", "mapdel":
					if !table(p, a[0], e.Args[0]) && !fresh[e.Args[0]] || e.Args[1] != a[1] {
						c.bad(rule, n+"."+op+" table", e.Pos, p, "%s.%s changes another table or another key", n, op)
					}
					if e.Kind == "mapdel" {
						dels++
						continue
					}
					sets++
					if val, known := p.isNil(e.Args[0]); !fresh[e.Args[0]] && (!known || val) {
						c.bad(rule, n+"."+op+" no table", e.Pos, p, "%s.%s stores although there may be no table", n, op)
					}
					if op == "Set" && e.Args[2] != a[2] {
						c.bad(rule, n+"."+op+" value", e.Pos, p, "%s.%s stores something other than the value", n, op)
					}
				}
			}
			if op == "Delete" {
				if sets != 0 || dels != 1 && !(dels == 0 && empty(p, a[0])) {
					c.bad(rule, n+"."+op, fn.Pos(), p, "%s.%s can return without having taken the key out of the table", n, op)
				}
				continue
			}
			none, unknown := false, false
			for _, x := range a[1:] {
				val, known := p.isNil(x)
				none = none || known && val
				unknown = unknown || !known
			}
			if unknown && !none && sets > 0 {
				c.bad(rule, n+"."+op+" nil", fn.Pos(), p, "%s.%s stores although the key or the value may be nil", n, op)
			}
			want := 1
			if none {
				want = 0
			}
			if dels != 0 || sets != want {
				c.bad(rule, n+"."+op, fn.Pos(), p, "%s.%s stores %d values and deletes %d where it has to store %d", n, op, sets, dels, want)
			}
		}
	}
	if fn := c.w.Fn("", n+".Values"); fn != nil {
		ex := c.explore(n+".Values", fn, c.std())
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("lookups")
			nobody := false
			if n == "Context" {
				val, known := p.isNil(p.loadF(a[0], fieldNamed(c.r.context, "Message")))
				nobody = known && val
			}
			if r := p.results[0]; !table(p, a[0], r) && !(r.IsNil() && nobody) {
				c.bad("get", n+".Values", fn.Pos(), p, "%s.Values does not return the object's own table", n)
			}
		}
	}
	change("Set", "set", "values stored")
	change("Delete", "delete", "values deleted")
}

// carried: the values of the messages the public operations make.
func (c *Check) carried(mv, mf *types.Var) {
	ops := []string{"Client.NewMessage", "Client.Call", "Client.CallContext", "Client.CallWith", "Client.CallAsync", "Client.Notify", "Client.NotifyContext", "Client.NotifyWith",
		"Stream.Send", "Stream.SendContext", "Stream.SendWith", "Stream.SendAndClose", "Stream.SendAndCloseContext", "Stream.SendAndCloseWith",
		"Server.NewMessage", "Server.Broadcast", "Server.BroadcastWithFilter", "NewMessage", "Context.Write", "Context.WriteWithTimeout", "Context.Error"}
	for _, n := range ops {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		o := c.std()
		if strings.HasPrefix(n, "Server.Broadcast") { // every copy is made the same way
			o.MaxLoop = 1
		}
		ex := c.explore("carried "+n, fn, o)
		a := ex.ParamTerms(fn)
		last := a[len(a)-1]
		for _, p := range ex.paths {
			for _, e := range p.events {
				if !isCall(e, "sync.Pool).Get") {
					continue
				}
				var m *Term
				for _, x := range p.events {
					if x.Kind == "store" && x.Args[0].fieldVar() == c.r.buffer && x.Args[0].args[0].root().op == "poolobj" && x.Args[0].args[0].s == e.Res.s {
						m = x.Args[0].args[0]
					}
				}
				if m == nil {
					continue
				}
				c.ob("messages made")
				got := c.valuesMade(p, m, mv)
				ok := false
				switch {
				case strings.HasPrefix(n, "Context."):
					b := loadBase(got)
					ok = loadField(got) == mv && loadField(b) == mf && loadBase(b) == a[0]
				case n == "NewMessage":
					ok = got == last
				default:
					lo, hi := p.rng(p.ex.lenOf(p.State, last))
					switch {
					case hi <= 0:
						ok = got.IsNil()
					case lo >= 1:
						ok = !got.IsNil() && got.walk(func(t *Term) bool { return t.op == "idx" && t.args[0] == last })
					}
				}
				if !ok {
					c.bad("carried", n, e.Pos, p, "%s makes a message whose values are not the ones it was given", n)
				}
			}
		}
	}
	c.floor("messages made", 60)
}

// valuesMade: the values a message has when it is first handed over or given
// back (its state afterwards is somebody else's).
func (c *Check) valuesMade(p *Path, m *Term, mv *types.Var) *Term {
	var got *Term
	for _, e := range p.events {
		switch e.Kind {
		case "store":
			if e.Args[0].fieldVar() == mv && e.Args[0].args[0] == m {
				got = e.Args[1]
			}
		case "chansend", "send", "select", "atomic":
			for _, x := range e.Args {
				if got != nil && x.contains(m) {
					return got
				}
			}
		case "call":
			if got != nil && (strings.HasSuffix(e.Name, ").Free") || isCall(e, "sync.Pool).Put")) {
				for _, x := range e.Args {
					if x.contains(m) || x == p.loadF(m, c.r.buffer) || x.op == "malloc" {
						return got
					}
				}
			}
		}
	}
	if got == nil {
		return p.loadF(m, mv)
	}
	return got
}

// putSites: every place where an object of this type goes back to a pool.
func (c *Check) putSites(t types.Type, f func(fn *ssa.Function, p *Path, i int, e *Event, x *Term)) {
	for _, fn := range c.rootsTouching(func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil || g.String() != "(*sync.Pool).Put" || len(call.Call.Args) != 2 {
			return false
		}
		mi, ok := call.Call.Args[1].(*ssa.MakeInterface)
		return ok && types.Identical(deref(mi.X.Type()), t)
	}) {
		ex := c.explore("pool "+fnName(fn), fn, c.std())
		for _, p := range ex.paths {
			for i, e := range p.events {
				if !isCall(e, "sync.Pool).Put") {
					continue
				}
				x := e.Args[1]
				if x.op == "iface" {
					x = x.args[0]
				}
				if x.typ != nil && types.Identical(deref(x.typ), t) {
					f(fn, p, i, e, x)
				}
			}
		}
	}
}

func (c *Check) cleanValues(mv *types.Var) {
	c.putSites(c.r.message, func(fn *ssa.Function, p *Path, i int, e *Event, x *Term) {
		c.ob("messages given back")
		if !p.cleared(x, mv, i) {
			c.bad("clean", fnName(fn), e.Pos, p, "%s gives a message back to the pool with its values", fnName(fn))
		}
	})
	c.floor("messages given back", 1)
}

// keptValues: who replaces a client's table.
func (c *Check) keptValues(cv *types.Var) {
	restart, set := c.w.Fn("", "Client.Restart"), c.w.Fn("", "Client.Set")
	if !c.need(restart, "Client.Restart") || !c.need(set, "Client.Set") {
		return
	}
	ok := map[*ssa.Function]bool{restart: true, set: true}
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, is := x.Addr.(*ssa.FieldAddr)
					if !is || structOf(fa.X.Type()) == nil || structOf(fa.X.Type()).Field(fa.Field) != cv {
						continue
					}
					if _, made := fa.X.(*ssa.Alloc); made {
						continue
					}
					c.ob("tables put in place")
					if !ok[fn] && !c.onlyUnder(fn, restart) && !c.onlyUnder(fn, set) && !c.onlyUnderAny(fn, ok) {
						c.bad("kept", fnName(fn), in.Pos(), nil, "%s replaces the table of a client's values", fnName(fn))
					}
				case *ssa.MapUpdate:
					if isFieldLoad(x.Map, cv) && !c.onlyUnder(fn, set) {
						c.bad("kept", fnName(fn), in.Pos(), nil, "%s changes the values of a client", fnName(fn))
					}
				case *ssa.Call:
					if bi, is := x.Call.Value.(*ssa.Builtin); is && (bi.Name() == "delete" || bi.Name() == "clear") && isFieldLoad(x.Call.Args[0], cv) && !c.onlyUnder(fn, c.w.Fn("", "Client.Delete")) && !c.onlyUnder(fn, restart) {
						c.bad("kept", fnName(fn), in.Pos(), nil, "%s takes values of a client away", fnName(fn))
					}
				}
			}
		}
	}
	c.floor("tables put in place", 1)
	c.restartValues("kept")
}

// sameBool: two booleans (or two pointers, both nil) known to be equal here.
func (p *Path) sameBool(a, b *Term) bool {
	x, ok := p.truth(a)
	y, ok2 := p.truth(b)
	return ok && ok2 && x == y || p.isNull(a) && p.isNull(b)
}
