package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = ruleC26
	checks["C27"] = ruleC27
	checks["C28"] = ruleC28
	checks["C29"] = ruleC29
}

const psPkg = "extension/pubsub"

// extOpts: settings for the extensions: the core package is their environment
// (its operations have rules of their own) and is not followed.
func (c *Check) extOpts() Opts {
	o := c.std()
	op0 := o.Opaque
	o.Opaque = func(f *ssa.Function) bool { return op0(f) || inPkg(f, modPath) }
	return o
}

func inPkg(f *ssa.Function, path string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() == path
	}
	return f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == path
}

type psRoles struct {
	server, client, topic, agent types.Type
	password                     *types.Var // of the server
	topics                       *types.Var // server: name -> agent
	members                      *types.Var // agent: set of clients
	own                          *types.Var // per-connection table: name -> agent
	ownT                         types.Type
	handlers                     *types.Var // client: name -> handler
	name, data, stamp            *types.Var // of a topic
	route                        map[string]string
	on                           map[string]*ssa.Function
	onDisc                       *ssa.Function
	onPub                        *ssa.Function // client's handler of publications
	onPubRoute                   string
	onConn                       *Term
	onConnPath                   *Path
	ok                           bool
}

// ps finds the parts of the publish/subscribe extension: request names by what the client's operations call,
// handlers by what the server registers under these names.
func (c *Check) ps() *psRoles {
	k := &psRoles{route: map[string]string{}, on: map[string]*ssa.Function{}}
	k.server, k.client, k.topic, k.agent = c.w.Type(psPkg, "Server"), c.w.Type(psPkg, "Client"), c.w.Type(psPkg, "Topic"), c.w.Type(psPkg, "TopicAgent")
	if k.server == nil || k.client == nil || k.topic == nil || k.agent == nil {
		c.need(nil, "pubsub types")
		return k
	}
	isAgentMap := func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), types.NewPointer(k.agent)) && typeKey(m.Key()) == "string"
	}
	for _, v := range fieldsWhere(k.server, isAgentMap) {
		k.topics = v
	}
	for _, v := range fieldsWhere(k.agent, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), types.NewPointer(c.r.client))
	}) {
		k.members = v
	}
	for _, v := range fieldsWhere(k.client, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok || typeKey(m.Key()) != "string" {
			return false
		}
		_, isF := m.Elem().Underlying().(*types.Signature)
		return isF
	}) {
		k.handlers = v
	}
	k.password = fieldNamed(k.server, "Password")
	k.name, k.data, k.stamp = fieldNamed(k.topic, "Name"), fieldNamed(k.topic, "Data"), fieldNamed(k.topic, "Timestamp")
	if sp := c.w.spkg[modPath+"/"+psPkg]; sp != nil {
		for _, n := range sp.Pkg.Scope().Names() {
			t, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.Identical(t.Type(), k.server) || types.Identical(t.Type(), k.client) {
				continue
			}
			for _, v := range fieldsWhere(t.Type(), isAgentMap) {
				k.own, k.ownT = v, t.Type()
			}
		}
	}
	for n, v := range map[string]*types.Var{"server password": k.password, "server topics": k.topics, "topic members": k.members, "table of a connection's topics": k.own, "client handler table": k.handlers, "topic name": k.name, "topic data": k.data, "topic time": k.stamp} {
		if v == nil {
			c.need(nil, "pubsub "+n)
			return k
		}
	}
	for _, n := range []string{"Authenticate", "Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		fn := c.w.Fn(psPkg, "Client."+n)
		if !c.need(fn, "pubsub.Client."+n) {
			return k
		}
		for _, p := range c.explore("client "+n, fn, c.extOpts()).paths {
			for _, e := range p.events {
				if isClientCall(e) {
					s, ok := e.Args[1].StrVal()
					if ok && k.route[n] == "" {
						k.route[n] = s
					}
					if !ok || k.route[n] != s {
						c.bad("routes", n, e.Pos, p, "pubsub.Client.%s does not call one fixed method", n)
					}
				}
			}
		}
	}
	ns := c.w.Fn(psPkg, "NewServer")
	if c.need(ns, "pubsub.NewServer") {
		for _, p := range c.explore("NewServer", ns, c.extOpts()).paths {
			for _, e := range p.events {
				if isCall(e, "andler).Handle") {
					if s, ok := e.Args[1].StrVal(); ok {
						for n, r := range k.route {
							if r == s {
								k.on[n] = boundFn(c, e.Args[2])
								key := "on " + n
								if n == "Authenticate" {
									key = "on authenticate"
								}
								c.captured(key, e.Args[2], p)
							}
						}
					}
				}
				if isCall(e, "andler).HandleDisconnected") {
					k.onDisc = boundFn(c, e.Args[1])
				}
			}
		}
	}
	nc := c.w.Fn(psPkg, "NewClient")
	if c.need(nc, "pubsub.NewClient") {
		for _, p := range c.explore("NewClient", nc, c.extOpts()).paths {
			for _, e := range p.events {
				if isCall(e, "andler).Handle") {
					k.onPubRoute, _ = e.Args[1].StrVal()
					k.onPub = boundFn(c, e.Args[2])
				}
				if isCall(e, "andler).HandleConnected") {
					k.onConn, k.onConnPath = e.Args[1], p
				}
			}
		}
	}
	k.ok = true
	for _, n := range []string{"Authenticate", "Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		if k.on[n] == nil {
			c.bad("routes", n, ns.Pos(), nil, "the server registers no handler under the name pubsub.Client.%s calls", n)
			k.ok = false
		}
	}
	if k.onPub == nil {
		c.bad("routes", "publication", nc.Pos(), nil, "the client registers no handler for publications")
		k.ok = false
	}
	if k.onDisc == nil {
		c.bad("routes", "disconnect", ns.Pos(), nil, "the server is not told about disconnected clients")
		k.ok = false
	}
	return k
}

func isClientCall(e *Event) bool {
	return e.Kind == "call" && (strings.HasSuffix(e.Name, "arpc.Client).Call") || strings.HasSuffix(e.Name, "arpc.Client).CallWith") || strings.HasSuffix(e.Name, "arpc.Client).CallContext"))
}

// boundFn: the method or function a function value stands for.
func boundFn(c *Check, t *Term) *ssa.Function {
	f := c.closureOf(t)
	if f == nil && t != nil {
		f, _ = t.aux.(*ssa.Function)
	}
	if f == nil {
		return nil
	}
	return unbound(f)
}

func (c *Check) psOpts(k *psRoles) Opts {
	o := c.extOpts()
	v0 := o.Volatile
	flags := map[*types.Var]bool{}
	for _, v := range fieldsWhere(k.ownT, func(v *types.Var) bool { return isBool(v.Type()) }) {
		flags[v] = true
	}
	o.Volatile = func(a *Term) bool { return v0(a) || flags[a.fieldVar()] }
	o.KeepLoads = true
	return o
}

// marked: the path has established before event i that the connection cl carries the mark of an authenticated one.
func (p *Path) marked(cl *Term, key string, i int) bool {
	for j := 0; j < i; j++ {
		e := p.events[j]
		if isCall(e, "arpc.Client).Get") && e.Args[0] == cl && markKey(e.Args[1]) == key {
			if v, known := p.truth(p.ex.extract(e.Res, 1, types.Typ[types.Bool])); known && v {
				return true
			}
		}
	}
	return false
}

func markKey(t *Term) string {
	if t != nil && t.op == "iface" {
		t = t.args[0]
	}
	if t == nil {
		return "?"
	}
	if s, ok := t.StrVal(); ok {
		return "s:" + s
	}
	return t.String()
}

// ctxParts: the context parameter of a handler and the connection it belongs to.
func (c *Check) ctxParts(fn *ssa.Function, p *Path) (ctx, cl *Term) {
	for _, t := range p.ex.ParamTerms(fn) {
		if t.typ != nil && strings.HasSuffix(t.typ.String(), "arpc.Context") {
			ctx = t
		}
	}
	if ctx == nil {
		return nil, nil
	}
	v := fieldNamed(deref(ctx.typ), "Client")
	if v == nil {
		return ctx, nil
	}
	return ctx, p.ex.load(p.State, p.ex.field(ctx, v), v.Type())
}

func isCtxWrite(e *Event, ctx *Term) bool {
	return e.Kind == "call" && strings.Contains(e.Name, "arpc.Context).Write") && e.Args[0] == ctx
}

func isCtxError(e *Event, ctx *Term) bool {
	return e.Kind == "call" && strings.Contains(e.Name, "arpc.Context).Error") && e.Args[0] == ctx
}

func isPush(e *Event) bool {
	return (e.Kind == "call" || e.Kind == "go") && (strings.HasSuffix(e.Name, "arpc.Client).PushMsg") || strings.Contains(e.Name, "arpc.Client).Notify"))
}

// isCallTerm: the value is the result of the named function.
func isCallTerm(t *Term, suffix string) bool {
	if t == nil || t.op != "call" {
		return false
	}
	n := t.s
	if i := strings.LastIndex(n, "#"); i >= 0 {
		n = n[:i]
	}
	return strings.HasSuffix(n, suffix)
}

// C26 -------------------------------------------------------------------------

func ruleC26(c *Check) {
	c.rule("routes", "the names the client's operations call are the names under which the server registers the handlers analysed here")
	c.rule("gate", "in the handlers of subscribe, unsubscribe and publish nothing is added to or removed from a topic, a connection's table or the topics, and nothing is sent to a client, before the path has found the authentication mark on the requesting connection itself")
	c.rule("mark", "the mark is set on the requesting connection only, and only where the password was decoded without error and found equal to the configured one; no other function sets it")
	c.rule("answer", "an authentication that does not match is answered with exactly one error and never with success; one that matches is acknowledged only after the mark is set")
	k := c.ps()
	if !k.ok {
		return
	}
	auth := k.on["Authenticate"]
	ex := c.explore("on authenticate", auth, c.psOpts(k))
	key := ""
	for _, p := range ex.paths {
		ctx, cl := c.ctxParts(auth, p)
		if ctx == nil {
			c.need(nil, "context of the authenticate handler")
			return
		}
		granted := c.passwordHeld(k, auth, p, ctx)
		errs, oks := 0, 0
		for i, e := range p.events {
			switch {
			case isCall(e, "arpc.Client).Set"):
				c.ob("marks set")
				key = markKey(e.Args[1])
				if e.Args[0] != cl {
					c.bad("mark", "other connection", e.Pos, p, "authentication marks a connection other than the one that sent the password")
				}
				if !granted {
					c.bad("mark", "password", e.Pos, p, "a connection is marked as authenticated although its password is not known to be decoded and equal to the configured one")
				}
			case isCtxWrite(e, ctx):
				oks++
				for _, e2 := range p.events[i+1:] {
					if isCall(e2, "arpc.Client).Set") && e2.Args[0] == cl {
						c.bad("answer", "early", e.Pos, p, "a successful authentication is acknowledged before it is in force: a request sent right after it goes unanswered")
					}
				}
				if !granted {
					c.bad("answer", "success", e.Pos, p, "authentication is reported as successful although the password is not known to be equal to the configured one")
				}
			case isCtxError(e, ctx):
				errs++
			case c.psEffect(k, p, e):
				if !granted {
					c.bad("gate", "authenticate", e.Pos, p, "the authenticate handler has an effect before the password is known to match")
				}
			}
			_ = i
		}
		if p.done == "return" && !granted {
			c.ob("refused authentications")
			if errs != 1 || oks != 0 {
				c.bad("answer", "refused", auth.Pos(), p, "a refused authentication is answered by %d errors and %d successes", errs, oks)
			}
		}
		if p.done == "return" && granted {
			c.ob("granted authentications")
			if errs != 0 || oks != 1 {
				c.bad("answer", "granted", auth.Pos(), p, "a matching password is answered by %d errors and %d successes", errs, oks)
			}
		}
	}
	for _, n := range []string{"Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		fn := k.on[n]
		ex := c.explore("on "+n, fn, c.psOpts(k))
		for _, p := range ex.paths {
			ctx, cl := c.ctxParts(fn, p)
			if ctx == nil {
				c.need(nil, "context of the "+n+" handler")
				return
			}
			for i, e := range p.events {
				if !c.psEffect(k, p, e) {
					continue
				}
				c.ob("guarded effects")
				if !p.marked(cl, key, i) {
					c.bad("gate", n, e.Pos, p, "the %s handler has an effect on a path that has not found the authentication mark on the requesting connection", n)
				}
			}
		}
	}
	// nobody else sets the mark
	for _, fn := range c.w.allFns {
		if !inPkg(fn, modPath+"/"+psPkg) || fn == auth || !c.callsName(fn, "arpc.Client).Set") || c.onlyUnder(fn, auth) {
			continue
		}
		c.bad("mark", fnName(fn), fn.Pos(), nil, "%s can mark a connection as authenticated without going through the authenticate handler", fnName(fn))
	}
	c.floor("marks set", 1)
	c.floor("refused authentications", 2)
	c.floor("granted authentications", 1)
	c.floor("guarded effects", 6)
}

// callsName: fn itself contains a call of the named function.
func (c *Check) callsName(fn *ssa.Function, suffix string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && strings.HasSuffix(g.String(), suffix) {
					return true
				}
			}
		}
	}
	return false
}

// onlyUnder: fn is an unexported function all of whose uses are direct calls in functions below root.
func (c *Check) onlyUnder(fn, root *ssa.Function) bool {
	if fn == root {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == root {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return rec(f.Parent())
		}
		if token.IsExported(f.Name()) && f.Synthetic == "" {
			return false
		}
		n := 0
		for _, g := range c.w.allFns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if *op == nil || funcOf(*op) != f && unboundOf(*op) != f {
							continue
						}
						if !isCall || ci.Common().StaticCallee() != f {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
								continue
							}
							return false // used as a value
						}
						n++
						if !rec(g) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return rec(fn)
}

func unboundOf(v ssa.Value) *ssa.Function {
	f, ok := v.(*ssa.Function)
	if !ok {
		return nil
	}
	return unbound(f)
}

// psEffect: the event changes who gets publications or sends something to a client.
func (c *Check) psEffect(k *psRoles, p *Path, e *Event) bool {
	switch e.Kind {
	case "mapset", "mapdel":
		return c.tableOf(p, e.Args[0], k.topics) || c.tableOf(p, e.Args[0], k.members) || c.tableOf(p, e.Args[0], k.own)
	}
	return isPush(e)
}

// passwordHeld: on this path the password sent was decoded and found equal to the configured one.
func (c *Check) passwordHeld(k *psRoles, fn *ssa.Function, p *Path, ctx *Term) bool {
	var cells []*Term
	for _, e := range p.events {
		if isCall(e, "arpc.Context).Bind") && e.Args[0] == ctx {
			if p.errIs(e.Res) != "nil" {
				continue
			}
			a := e.Args[1]
			if a.op == "iface" {
				a = a.args[0]
			}
			cells = append(cells, a)
		}
	}
	sent := func(t *Term) bool {
		for t.op == "conv" {
			t = t.args[0]
		}
		for _, a := range cells {
			if (t.op == "ver" || t.op == "init" || t.op == "hav") && len(t.args) > 0 && t.args[0] == a {
				return true
			}
		}
		return isCallTerm(t, "arpc.Context).Body") && len(t.args) > 0 && t.args[0] == ctx
	}
	want := func(t *Term) bool {
		for t.op == "conv" {
			t = t.args[0]
		}
		return loadField(t) == k.password && (loadBase(t) == p.ex.ParamTerms(fn)[0] || loadBase(t) == p.ex.tt.mk("param", "captured", loadBase(t).typ, nil))
	}
	both := func(a, b *Term) bool { return sent(a) && want(b) || sent(b) && want(a) }
	for t, v := range p.State.facts {
		if v && t.op == "cmp" && t.s == "==" && len(t.args) == 2 && both(t.args[0], t.args[1]) {
			return true
		}
	}
	for _, e := range p.events {
		if e.Kind != "call" || len(e.Args) != 2 || !both(e.Args[0], e.Args[1]) {
			continue
		}
		switch e.Name {
		case "bytes.Equal":
			if v, known := p.truth(e.Res); known && v {
				return true
			}
		case "crypto/subtle.ConstantTimeCompare":
			if lo, hi := p.rng(e.Res); lo == 1 && hi == 1 {
				return true
			}
		case "bytes.Compare", "strings.Compare":
			if lo, hi := p.rng(e.Res); lo == 0 && hi == 0 {
				return true
			}
		}
	}
	return false
}

// C27 -------------------------------------------------------------------------

func ruleC27(c *Check) {
	c.rule("routes", "the names the client's operations call are the names under which the server registers the handlers analysed here")
	c.rule("subscribe", "a subscription is acknowledged only after the requesting connection was put into the topic of the received name and the topic into the connection's table within one critical section of that table in which the connection was seen not yet torn down - or after the table was found to hold the topic already")
	c.rule("unsubscribe", "an unsubscription is acknowledged only after the requesting connection was taken out of the topic and the topic out of the connection's table within one critical section - or after the table was found not to hold it")
	c.rule("disconnect", "a disconnected connection's table is closed and gone through to its end within one critical section, and the connection is taken out of every topic in it")
	c.rule("table", "a connection's table is made once, under the server's lock, only after none was found and the connection was seen running in the same critical section; the disconnect handler looks for the table under that lock")
	c.rule("one-topic", "a topic is created only under the exclusive lock after its name was not found in the same critical section, under that very name, with an empty set of members, and topics are never replaced or dropped")
	c.rule("answered", "a subscribe, unsubscribe or publish request is answered at most once, and exactly once where the connection was found authenticated")
	c.rule("publish", "a publication goes through the members of the topic of its name to the end and offers a notification of the received bytes, with a zero timeout, exactly once to each; publish-to-one goes on after a refusal and stops after the first acceptance")
	k := c.ps()
	if !k.ok {
		return
	}
	c.psTable(k)
	c.psSubscribe(k)
	c.psUnsubscribe(k)
	c.psDisconnect(k)
	c.psTopics(k)
	c.psPublish(k)
	c.psOnly(k)
	c.psAnswered(k)
}

// psAnswered: what an authenticated client asks is answered once.
func (c *Check) psAnswered(k *psRoles) {
	for _, n := range []string{"Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		fn := k.on[n]
		ex := c.explore("on "+n, fn, c.psOpts(k))
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			ctx, cl := c.ctxParts(fn, p)
			if ctx == nil {
				return
			}
			found, missed, answers := 0, 0, 0
			for _, e := range p.events {
				switch {
				case isCall(e, "arpc.Client).Get") && e.Args[0] == cl:
					if v, known := p.truth(p.ex.extract(e.Res, 1, types.Typ[types.Bool])); known && v {
						found++
					} else {
						missed++
					}
				case isCtxWrite(e, ctx), isCtxError(e, ctx):
					answers++
				}
			}
			for t, v := range p.facts {
				// a connection's table found, but nil: not an authenticated one
				if v && t.op == "cmp" && t.s == "==" && (t.args[1].IsNil() && c.ofClient(p, t.args[0], cl) || t.args[0].IsNil() && c.ofClient(p, t.args[1], cl)) {
					missed++
				}
			}
			if answers > 1 || found > 0 && missed == 0 && answers == 0 {
				c.bad("answered", n, fn.Pos(), p, "a %s request of an authenticated client is answered %d times", n, answers)
			}
			if found > 0 && missed == 0 {
				c.ob("authenticated requests")
			}
		}
	}
	c.floor("authenticated requests", 12)
}

// decodedName: the term is the name of a topic decoded from the request's body.
func (c *Check) decodedName(k *psRoles, p *Path, ctx, t *Term) bool {
	body := func(x *Term) bool {
		return x.walk(func(y *Term) bool {
			return isCallTerm(y, "arpc.Context).Body") && len(y.args) > 0 && y.args[0] == ctx
		})
	}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == k.name && e.Args[1] == t && body(t) {
			return true
		}
	}
	return false
}

// tableObj: the connection's own table object a map value belongs to.
func (c *Check) ownTable(k *psRoles, m *Term) *Term {
	if loadField(m) == k.own {
		return loadBase(m)
	}
	return nil
}

// ofClient: the table object was found on the connection cl.
func (c *Check) ofClient(p *Path, o, cl *Term) bool {
	return o != nil && o.walk(func(y *Term) bool {
		return isCallTerm(y, "arpc.Client).Get") && len(y.args) > 0 && y.args[0] == cl
	})
}

// agentOf: the agent is the server's one for the topic name.
func (c *Check) agentOf(k *psRoles, p *Path, a, name *Term, before int) bool {
	for j := 0; j < before; j++ {
		e := p.events[j]
		if e.Kind == "mapget" && c.tableOf(p, e.Args[0], k.topics) && e.Chosen == 0 && e.Res == a && e.Args[1] == name {
			return true
		}
		if e.Kind == "mapset" && c.tableOf(p, e.Args[0], k.topics) && e.Args[1] == name && e.Args[2] == a {
			return true
		}
	}
	return false
}

func (c *Check) membersOf(k *psRoles, p *Path, m *Term) *Term {
	if loadField(m) == k.members {
		return loadBase(m)
	}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == k.members && e.Args[1] == m {
			return e.Args[0].args[0]
		}
	}
	return nil
}

func (c *Check) psSubscribe(k *psRoles) {
	fn := k.on["Subscribe"]
	for _, p := range c.explore("on Subscribe", fn, c.psOpts(k)).paths {
		ctx, cl := c.ctxParts(fn, p)
		for i, e := range p.events {
			switch {
			case e.Kind == "mapset" && c.ownTable(k, e.Args[0]) != nil:
				o := c.ownTable(k, e.Args[0])
				c.ob("subscriptions")
				if !c.ofClient(p, o, cl) {
					c.bad("subscribe", "table", e.Pos, p, "a subscription is entered into a table that is not the requesting connection's")
				}
				if !c.decodedName(k, p, ctx, e.Args[1]) {
					c.bad("subscribe", "name", e.Pos, p, "a subscription is entered under something other than the received topic name")
				}
				if !c.agentOf(k, p, e.Args[2], e.Args[1], i) {
					c.bad("subscribe", "topic", e.Pos, p, "a subscription is entered with something other than the server's topic of that name")
				}
				if !c.inForce(k, p, i, o, cl, e.Args[2], "mapset") {
					c.bad("subscribe", "together", e.Pos, p, "the connection's table and the topic's members are not changed within one critical section of the table")
				}
				if !c.seenAlive(k, p, i, o) {
					c.bad("subscribe", "torn down", e.Pos, p, "a subscription is entered without looking, in the same critical section, whether the connection has been torn down")
				}
			case e.Kind == "mapset" && c.membersOf(k, p, e.Args[0]) != nil:
				c.ob("members added")
				a := c.membersOf(k, p, e.Args[0])
				if e.Args[1] != cl {
					c.bad("subscribe", "member", e.Pos, p, "a client other than the requesting one is added to a topic")
				}
				ok := false
				for j, x := range p.events {
					if x.Kind == "mapset" && c.ownTable(k, x.Args[0]) != nil && x.Args[2] == a && (sameSection(p, min(i, j), max(i, j), c.ownTable(k, x.Args[0]))) {
						ok = true
					}
				}
				if !ok {
					c.bad("subscribe", "unrecorded", e.Pos, p, "a client is added to a topic without the topic being entered into its table in the same critical section")
				}
			case (e.Kind == "mapdel") && c.psEffect(k, p, e):
				c.bad("subscribe", "removes", e.Pos, p, "the subscribe handler removes a membership")
			case isCtxWrite(e, ctx):
				c.ob("acknowledged subscriptions")
				ok := false
				for j := 0; j < i; j++ {
					x := p.events[j]
					if (x.Kind == "mapset" || x.Kind == "mapget" && x.Chosen == 0) && c.ofClient(p, c.ownTable(k, x.Args[0]), cl) && c.decodedName(k, p, ctx, x.Args[1]) {
						ok = true
					}
				}
				if !ok || c.psLater(k, p, i) {
					c.bad("subscribe", "early", e.Pos, p, "a subscription is acknowledged before it is in force")
				}
			}
		}
	}
	c.floor("subscriptions", 2)
	c.floor("members added", 2)
	c.floor("acknowledged subscriptions", 3)
}

// psLater: a membership is changed after event i.
func (c *Check) psLater(k *psRoles, p *Path, i int) bool {
	for _, x := range p.events[i+1:] {
		if (x.Kind == "mapset" || x.Kind == "mapdel") && (c.ownTable(k, x.Args[0]) != nil || c.membersOf(k, p, x.Args[0]) != nil) {
			return true
		}
	}
	return false
}

// inForce: the topic's members are changed for cl in the critical section of table o that event i lies in.
func (c *Check) inForce(k *psRoles, p *Path, i int, o, cl, agent *Term, kind string) bool {
	for j, x := range p.events {
		if x.Kind == kind && c.membersOf(k, p, x.Args[0]) == agent && x.Args[1] == cl && sameSection(p, min(i, j), max(i, j), o) {
			return true
		}
	}
	return false
}

// seenAlive: in the critical section of event i a flag of the table was read as "not torn down".
func (c *Check) seenAlive(k *psRoles, p *Path, i int, o *Term) bool {
	fl := c.psClosed(k)
	for j := 0; j < i; j++ {
		x := p.events[j]
		if x.Kind == "load" && fl != nil && x.Args[0].fieldVar() == fl && x.Args[0].args[0] == o && sameSection(p, j, i, o) {
			if v, known := p.truth(x.Res); known && !v {
				return true
			}
		}
	}
	return false
}

// psClosed: the flag of a connection's table the disconnect handler sets.
func (c *Check) psClosed(k *psRoles) *types.Var {
	for _, p := range c.explore("on disconnect", k.onDisc, c.psOpts(k)).paths {
		for _, e := range p.events {
			if e.Kind == "store" && e.Args[0].fieldVar() != nil && isBool(e.Args[0].fieldVar().Type()) {
				if b, ok := e.Args[1].BoolVal(); ok && b {
					for _, v := range fieldsWhere(k.ownT, func(v *types.Var) bool { return v == e.Args[0].fieldVar() }) {
						return v
					}
				}
			}
		}
	}
	return nil
}

func (c *Check) psUnsubscribe(k *psRoles) {
	fn := k.on["Unsubscribe"]
	for _, p := range c.explore("on Unsubscribe", fn, c.psOpts(k)).paths {
		ctx, cl := c.ctxParts(fn, p)
		for i, e := range p.events {
			switch {
			case e.Kind == "mapdel" && c.ownTable(k, e.Args[0]) != nil:
				o := c.ownTable(k, e.Args[0])
				c.ob("unsubscriptions")
				if !c.ofClient(p, o, cl) {
					c.bad("unsubscribe", "table", e.Pos, p, "a subscription is removed from a table that is not the requesting connection's")
				}
				if !c.decodedName(k, p, ctx, e.Args[1]) {
					c.bad("unsubscribe", "name", e.Pos, p, "a subscription is removed under something other than the received topic name")
				}
				ok := false
				for j, x := range p.events {
					if x.Kind == "mapget" && x.Chosen == 0 && x.Args[0] == e.Args[0] && x.Args[1] == e.Args[1] && c.inForce(k, p, i, o, cl, x.Res, "mapdel") {
						ok = true
					}
					_ = j
				}
				if c.tableMissed(k, p, e, i) {
					ok = true
				}
				if !ok {
					c.bad("unsubscribe", "together", e.Pos, p, "the connection's table and the topic's members are not changed within one critical section of the table")
				}
			case e.Kind == "mapdel" && c.membersOf(k, p, e.Args[0]) != nil:
				if e.Args[1] != cl {
					c.bad("unsubscribe", "member", e.Pos, p, "a client other than the requesting one is removed from a topic")
				}
				a := c.membersOf(k, p, e.Args[0])
				ok := false
				for j, x := range p.events {
					if x.Kind == "mapdel" && c.ownTable(k, x.Args[0]) != nil && sameSection(p, min(i, j), max(i, j), c.ownTable(k, x.Args[0])) {
						ok = true
					}
				}
				if !ok {
					c.bad("unsubscribe", "recorded", e.Pos, p, "a client is removed from a topic that stays in its table, or outside the critical section")
				}
				_ = a
			case e.Kind == "mapset" && c.psEffect(k, p, e) && !c.tableOf(p, e.Args[0], k.topics):
				c.bad("unsubscribe", "adds", e.Pos, p, "the unsubscribe handler adds a membership")
			case isCtxWrite(e, ctx):
				c.ob("acknowledged unsubscriptions")
				ok := false
				for j := 0; j < i; j++ {
					x := p.events[j]
					if (x.Kind == "mapdel" || x.Kind == "mapget" && x.Chosen == 1) && c.ofClient(p, c.ownTable(k, x.Args[0]), cl) && c.decodedName(k, p, ctx, x.Args[1]) {
						ok = true
					}
				}
				if !ok || c.psLater(k, p, i) {
					c.bad("unsubscribe", "early", e.Pos, p, "an unsubscription is acknowledged before it is in force")
				}
			}
		}
	}
	c.floor("unsubscriptions", 1)
	c.floor("acknowledged unsubscriptions", 2)
}

// tableMissed: deleting a name the table was found not to hold changes nothing.
func (c *Check) tableMissed(k *psRoles, p *Path, e *Event, i int) bool {
	for j := 0; j < i; j++ {
		x := p.events[j]
		if x.Kind == "mapget" && p.missed(x) && x.Args[0] == e.Args[0] && x.Args[1] == e.Args[1] && sameSection(p, j, i, c.ownTable(k, e.Args[0])) {
			return true
		}
	}
	return false
}

func (c *Check) psDisconnect(k *psRoles) {
	fn := k.onDisc
	fl := c.psClosed(k)
	ex := c.explore("on disconnect", fn, c.psOpts(k))
	ps := ex.ParamTerms(fn)
	cl := ps[len(ps)-1]
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		var o *Term
		missing := false
		for _, e := range p.events {
			if isCall(e, "arpc.Client).Get") && e.Args[0] == cl {
				if v, known := p.truth(p.ex.extract(e.Res, 1, types.Typ[types.Bool])); known && !v {
					missing = true
				}
			}
		}
		if missing {
			c.ob("disconnects without subscriptions")
			continue
		}
		c.ob("disconnects")
		mark, end := -1, -1
		for i, e := range p.events {
			if e.Kind == "store" && fl != nil && e.Args[0].fieldVar() == fl {
				mark, o = i, e.Args[0].args[0]
			}
			if e.Kind == "range" && c.ownTable(k, e.Args[0]) != nil {
				if !c.inForceAfter(k, p, i, cl, e.Args[2]) {
					c.bad("disconnect", "member", e.Pos, p, "a disconnected client is not taken out of a topic of its table")
				}
			}
			if e.Kind == "rangeend" && c.ownTable(k, e.Args[0]) != nil {
				end = i
				if o == nil {
					o = c.ownTable(k, e.Args[0])
				}
			}
		}
		switch {
		case end < 0:
			c.bad("disconnect", "incomplete", fn.Pos(), p, "a disconnect does not go through all topics of the connection")
		case mark < 0:
			c.bad("disconnect", "open", fn.Pos(), p, "a disconnect does not close the connection's table: a subscription that is still running is entered after it")
		case !c.ofClient(p, o, cl):
			c.bad("disconnect", "table", fn.Pos(), p, "a disconnect goes through a table that is not the connection's")
		case !sameSection(p, min(mark, end), max(mark, end), o):
			c.bad("disconnect", "section", fn.Pos(), p, "closing the connection's table and going through it are not one critical section")
		}
	}
	c.floor("disconnects", 2)
}

func (c *Check) inForceAfter(k *psRoles, p *Path, i int, cl, agent *Term) bool {
	for j := i + 1; j < len(p.events); j++ {
		x := p.events[j]
		if x.Kind == "mapdel" && c.membersOf(k, p, x.Args[0]) == agent && x.Args[1] == cl {
			return true
		}
	}
	return false
}

// psTable: making the table of a connection.
func (c *Check) psTable(k *psRoles) {
	auth := k.on["Authenticate"]
	var lock *types.Var
	for _, p := range c.explore("on authenticate", auth, c.psOpts(k)).paths {
		_, cl := c.ctxParts(auth, p)
		for i, e := range p.events {
			if !isCall(e, "arpc.Client).Set") {
				continue
			}
			c.ob("tables made")
			fresh := e.Args[2].walk(func(t *Term) bool { return t.op == "alloc" })
			none, alive := false, false
			for j := 0; j < i; j++ {
				x := p.events[j]
				if isCall(x, "arpc.Client).Get") && x.Args[0] == cl && markKey(x.Args[1]) == markKey(e.Args[1]) {
					if v, known := p.truth(p.ex.extract(x.Res, 1, types.Typ[types.Bool])); known && !v {
						if l := commonLock(p, j, i); l != nil {
							none, lock = true, l
						}
					}
				}
				if isCall(x, "arpc.Client).CheckState") && x.Args[0] == cl && p.errIs(x.Res) == "nil" && commonLock(p, j, i) != nil {
					alive = true
				}
			}
			if fresh && !none {
				c.bad("table", "replaced", e.Pos, p, "a connection's table is made without having found, in the same critical section, that there is none: an earlier one and its subscriptions are lost")
			}
			if !alive {
				c.bad("table", "stopped", e.Pos, p, "a connection's table is made without looking, in the same critical section, whether the connection has been torn down")
			}
		}
	}
	for _, n := range []string{"Authenticate", "Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		fn := k.on[n]
		for _, p := range c.explore("on "+map[bool]string{true: "authenticate", false: n}[n == "Authenticate"], fn, c.psOpts(k)).paths {
			for _, e := range p.events {
				if isCall(e, "arpc.Client).Delete") {
					c.bad("table", "dropped", e.Pos, p, "the %s handler takes away a connection's table: the disconnect handler no longer finds the topics the connection is in", n)
				}
			}
		}
	}
	if lock == nil {
		return
	}
	ps := k.onDisc
	ex := c.explore("on disconnect", ps, c.psOpts(k))
	for _, p := range ex.paths {
		for i, e := range p.events {
			if !isCall(e, "arpc.Client).Get") {
				continue
			}
			c.ob("tables looked up")
			ok := false
			for j := 0; j <= i; j++ {
				x := p.events[j]
				if (x.Kind == "lock" || x.Kind == "rlock") && x.Args[0].fieldVar() == lock {
					ok = true
				}
			}
			if !ok {
				c.bad("table", "disconnect", e.Pos, p, "the disconnect handler looks for the connection's table without the lock under which it is made: one being made is missed")
			}
		}
	}
	c.floor("tables made", 1)
	c.floor("tables looked up", 2)
}

// commonLock: a mutex field whose critical section contains both events.
func commonLock(p *Path, i, j int) *types.Var {
	a, b := critSection(p, i), critSection(p, j)
	for l, n := range a {
		if m, ok := b[l]; ok && m == n && l.fieldVar() != nil {
			return l.fieldVar()
		}
	}
	return nil
}

// psTopics: creation of topics, on every path that creates one.
func (c *Check) psTopics(k *psRoles) {
	for _, n := range []string{"Subscribe", "Unsubscribe", "Publish", "PublishToOne", "disconnect"} {
		fn := k.on[n]
		if n == "disconnect" {
			fn = k.onDisc
		}
		for _, p := range c.explore("on "+n, fn, c.psOpts(k)).paths {
			for i, e := range p.events {
				if e.Kind == "mapdel" && c.tableOf(p, e.Args[0], k.topics) {
					c.bad("one-topic", "dropped", e.Pos, p, "a topic is dropped: a client subscribing to it at that moment is lost")
				}
				if e.Kind != "mapset" || !c.tableOf(p, e.Args[0], k.topics) {
					continue
				}
				c.ob("topics created")
				srv := loadBase(e.Args[0])
				ok := false
				for j := 0; j < i; j++ {
					x := p.events[j]
					if x.Kind == "mapget" && p.missed(x) && x.Args[0] == e.Args[0] && x.Args[1] == e.Args[1] && sameSection(p, j, i, srv) && exclusive(p, i, srv) {
						ok = true
					}
				}
				if !ok {
					c.bad("one-topic", "replaced", e.Pos, p, "a topic is entered without having found, in the same exclusive critical section, that there is none of that name: the one there and its members are lost")
				}
				if e.Args[2].op != "alloc" {
					c.bad("one-topic", "shared", e.Pos, p, "a topic is entered that is not a new one")
				} else if m := p.loadF(e.Args[2], k.members); m.op != "makemap" {
					c.bad("one-topic", "members", e.Pos, p, "a topic is created without an empty set of members of its own")
				}
			}
		}
	}
	c.floor("topics created", 3)
}

func exclusive(p *Path, at int, obj *Term) bool {
	held := map[*Term]bool{}
	for i := 0; i <= at; i++ {
		e := p.events[i]
		switch e.Kind {
		case "lock":
			held[e.Args[0]] = true
		case "unlock":
			delete(held, e.Args[0])
		}
	}
	for l := range held {
		if l.op == "field" && l.args[0] == obj {
			return true
		}
	}
	return false
}

func (c *Check) psPublish(k *psRoles) {
	type entry struct {
		name string
		fn   *ssa.Function
		one  bool
		req  bool
	}
	es := []entry{
		{"Publish request", k.on["Publish"], false, true}, {"PublishToOne request", k.on["PublishToOne"], true, true},
		{"Server.Publish", c.w.Fn(psPkg, "Server.Publish"), false, false}, {"Server.PublishToOne", c.w.Fn(psPkg, "Server.PublishToOne"), true, false},
	}
	for _, en := range es {
		if !c.need(en.fn, "pubsub "+en.name) {
			continue
		}
		key := "publish " + en.name
		if en.req {
			key = "on " + strings.TrimSuffix(en.name, " request")
		}
		ex := c.explore(key, en.fn, c.psOpts(k))
		for _, p := range ex.paths {
			c.publishPath(k, en.name, en.fn, p, en.one, en.req)
		}
	}
	c.floor("publications offered", 12)
	c.floor("iterations finished", 8)
	c.floor("publications to one accepted", 4)
}

func (c *Check) publishPath(k *psRoles, n string, fn *ssa.Function, p *Path, one, req bool) {
	var ctx *Term
	if req {
		ctx, _ = c.ctxParts(fn, p)
	}
	var keys []*Term
	began, ended := false, false
	isKey := map[*Term]bool{}
	for i, e := range p.events {
		switch {
		case (e.Kind == "range" || e.Kind == "rangeend") && c.membersOf(k, p, e.Args[0]) != nil:
			began = true
			a := c.membersOf(k, p, e.Args[0])
			nameOK := false
			for _, x := range p.events[:i] {
				if (x.Kind == "mapget" && x.Chosen == 0 && x.Res == a || x.Kind == "mapset" && len(x.Args) > 2 && x.Args[2] == a) && c.tableOf(p, x.Args[0], k.topics) {
					if req {
						nameOK = c.decodedName(k, p, ctx, x.Args[1])
					} else {
						nameOK = x.Args[1] == p.ex.ParamTerms(fn)[1]
					}
				}
			}
			if !nameOK {
				c.bad("publish", n+" topic", e.Pos, p, "%s goes through the members of something other than the topic of the given name", n)
			}
			if e.Kind == "rangeend" {
				ended = true
				c.ob("iterations finished")
			} else {
				keys = append(keys, e.Args[1])
				isKey[e.Args[1]] = true
			}
		case isPush(e):
			if !isKey[e.Args[0]] {
				c.bad("publish", n+" stranger", e.Pos, p, "%s offers the publication to something other than a member of the topic", n)
			}
		case e.Kind == "mapset" || e.Kind == "mapdel":
			if c.membersOf(k, p, e.Args[0]) != nil || c.ownTable(k, e.Args[0]) != nil {
				c.bad("publish", n+" membership", e.Pos, p, "%s changes a membership", n)
			}
		}
	}
	if p.done == "cut" {
		return
	}
	accepted := -1
	for i, key := range keys {
		offers := 0
		for _, e := range p.events {
			if !isPush(e) || e.Args[0] != key {
				continue
			}
			offers++
			c.ob("publications offered")
			if e.Kind == "go" {
				c.bad("publish", n+" go", e.Pos, p, "%s offers the publication on another goroutine: publications overtake each other", n)
				continue
			}
			if len(e.Args) > 2 {
				if z, ok := e.Args[2].IntVal(); !ok || z != 0 {
					c.bad("publish", n+" waits", e.Pos, p, "%s waits for a member", n)
				}
			}
			c.publication(k, n, p, e, fn, ctx)
			if accepted >= 0 && one {
				c.bad("publish", n+" second", e.Pos, p, "%s offers the publication to another member after one accepted it", n)
			}
			if p.errIs(e.Res) == "nil" {
				accepted = i
			} else if one && p.errIs(e.Res) == "?" {
				c.bad("publish", n+" blind", e.Pos, p, "%s does not look whether the member accepted the publication", n)
			}
		}
		if offers > 1 || offers == 0 && !(one && accepted >= 0) {
			c.bad("publish", n+" times", fn.Pos(), p, "%s offers the publication to a member %d times", n, offers)
		}
	}
	if one && accepted >= 0 {
		c.ob("publications to one accepted")
	}
	if began && !ended && !(one && accepted == len(keys)-1) {
		c.bad("publish", n+" early", fn.Pos(), p, "%s leaves the iteration over the members early", n)
	}
	// accepted for publication but not offered
	if !began && p.done == "return" {
		told := false
		for _, e := range p.events {
			told = told || req && isCtxWrite(e, ctx)
		}
		if !req && p.errIs(p.results[0]) != "err" {
			told = true
		}
		miss := c.anyEvent(p, func(e *Event) bool {
			return e.Kind == "mapget" && e.Chosen == 1 && c.tableOf(p, e.Args[0], k.topics)
		})
		if told && !miss {
			c.bad("publish", n+" none", fn.Pos(), p, "%s reports success without going through the members of the topic", n)
		}
	}
}

// publication: the offered message is a notification under the name the clients listen to, of the published bytes.
func (c *Check) publication(k *psRoles, n string, p *Path, at *Event, fn *ssa.Function, ctx *Term) {
	msg := at.Args[1]
	for _, e := range p.events {
		if e.Kind != "call" || e.Res != msg || !strings.HasSuffix(e.Name, "NewMessage") {
			continue
		}
		a := e.Args
		if strings.Contains(e.Name, ")") && len(a) > 0 {
			a = a[1:]
		}
		if cmd, ok := a[0].IntVal(); !ok || cmdName(int(cmd)) != "notify" {
			c.bad("publish", n+" kind", e.Pos, p, "%s sends something other than a notification", n)
		}
		if s, ok := a[1].StrVal(); !ok || s != k.onPubRoute {
			c.bad("publish", n+" route", e.Pos, p, "%s sends its notification under a name the clients do not listen to", n)
		}
		v := a[2]
		if v.op == "iface" {
			v = v.args[0]
		}
		if ctx != nil {
			if !(isCallTerm(v, "arpc.Context).Body") && v.args[0] == ctx) {
				c.bad("publish", n+" content", e.Pos, p, "%s sends something other than the received bytes", n)
			}
			return
		}
		name, val := p.ex.ParamTerms(fn)[1], p.ex.ParamTerms(fn)[2]
		if !c.topicBytes(k, p, v, name, val) {
			c.bad("publish", n+" content", e.Pos, p, "%s sends something other than the encoded topic of the given name and value", n)
		}
		return
	}
	c.bad("publish", n+" origin", at.Pos, p, "%s offers a message it did not build for this publication", n)
}

// psOnly: members and tables are changed by the analysed handlers only.
func (c *Check) psOnly(k *psRoles) {
	ok := map[*ssa.Function]bool{}
	for _, f := range k.on {
		for g := range c.w.reach(f) {
			ok[g] = true
		}
	}
	for _, cp := range c.capt {
		for _, f := range cp.fns {
			for g := range c.w.reach(f) {
				ok[g] = true
			}
		}
	}
	for g := range c.w.reach(k.onDisc) {
		ok[g] = true
	}
	for _, fn := range c.w.allFns {
		if ok[fn] || !inPkg(fn, modPath+"/"+psPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, is := x.Call.Value.(*ssa.Builtin); is && bi.Name() == "delete" {
						m = x.Call.Args[0]
					}
				case *ssa.Store:
					if fa, is := x.Addr.(*ssa.FieldAddr); is {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							for _, v := range []*types.Var{k.members, k.own, k.topics} {
								if structOf(fa.X.Type()).Field(fa.Field) == v {
									c.bad("one-topic", "replaced by "+fnName(fn), in.Pos(), nil, "%s replaces %s", fnName(fn), v.Name())
								}
							}
						}
					}
				}
				if m == nil {
					continue
				}
				for _, v := range []*types.Var{k.members, k.own, k.topics} {
					if isFieldLoad(m, v) && !c.onlyUnderAny(fn, ok) {
						c.bad("one-topic", "writer "+fnName(fn), in.Pos(), nil, "%s changes %s outside the request and disconnect handlers", fnName(fn), v.Name())
					}
				}
			}
		}
	}
}

func (c *Check) onlyUnderAny(fn *ssa.Function, ok map[*ssa.Function]bool) bool {
	for _, g := range c.w.callers(fn) {
		if !ok[g] {
			return false
		}
	}
	return len(c.w.callers(fn)) > 0
}

// topicBytes: v is the encoding - payload, name, its length in 2 bytes, time in 8 bytes, little endian - of a topic with this name and payload value.
func (c *Check) topicBytes(k *psRoles, p *Path, v, name, val *Term) bool {
	return c.topicSeq(k, p, p.seqOf(v), name, val) == ""
}

// lowBits: t is the value n carried in w bits, and n fits in them on this path.
func (p *Path) lowBits(t, n *Term, w int) bool {
	if d, ok := p.linDiff(t, n); ok && d == 0 {
		return true
	}
	if lo, hi := p.rng(n); lo < 0 || hi >= int64(1)<<uint(w) {
		return false
	}
	tt := p.ex.tt
	a, b := tt.bitsOf(t, w), tt.bitsOf(n, w)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Check) topicSeq(k *psRoles, p *Path, seq []piece, name, val *Term) string {
	i := 0
	if val != nil {
		if i >= len(seq) || seq[i].whole == nil || !(isCallTerm(seq[i].whole, "util.ValueToBytes") && seq[i].whole.args[1] == val) {
			return "payload"
		}
		if f := loadField(seq[i].whole.args[0]); f == nil || f.Name() != "Codec" {
			return "codec of the payload"
		}
		i++
	}
	if i >= len(seq) || seq[i].whole == nil || seq[i].whole != name {
		return "name"
	}
	i++
	if len(seq) != i+10 {
		return "trailer of 10 bytes"
	}
	bits := func(a, b int) *Term {
		var bs []bit
		for j := a; j < b; j++ {
			if seq[j].elem == nil {
				return nil
			}
			bs = append(bs, p.ex.tt.bitsOf(seq[j].elem, 8)...)
		}
		t := types.Typ[types.Uint64]
		if b-a == 2 {
			t = types.Typ[types.Uint16]
		}
		return p.ex.tt.Bits(bs, t)
	}
	ln, ts := bits(i, i+2), bits(i+2, i+10)
	if ln == nil || ts == nil {
		return "trailer"
	}
	if !p.lowBits(ln, p.ex.lenOf(p.State, name), 16) {
		return "length of the name"
	}
	for ts.op == "conv" {
		ts = ts.args[0]
	}
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == k.stamp && e.Args[1] == ts {
			return ""
		}
	}
	return "time"
}

// C28 -------------------------------------------------------------------------

func ruleC28(c *Check) {
	c.rule("layout", "every request and publication the public operations send carries payload, name, the name's length in two bytes and the time in eight bytes, little endian, and nothing else; the length fits")
	c.rule("decode", "the name under which a received topic is looked up, and the name, payload and time handed to the application, are exactly these parts of the received bytes")
	c.rule("accepts", "a received topic is refused only where its bytes cannot be the encoding of a name the encoder accepts")
	c.rule("bounds", "every slice, index and fixed-width access while encoding or decoding a topic is within its operand on every path")
	c.rule("caller-memory", "encoding writes only into memory it allocated itself: it appends to the caller's bytes only with their capacity cut to their length")
	k := c.ps()
	if !k.ok {
		return
	}
	lo, hi := int64(1)<<62, int64(-1)
	enc := func(key, n string, fn *ssa.Function) {
		if !c.need(fn, "pubsub "+n) {
			return
		}
		for _, p := range c.explore(key, fn, c.psOpts(k)).paths {
			c.bounds(p, psPkg, "bounds", n)
			c.callerMemory(p, n, fn)
			args := p.ex.ParamTerms(fn)
			for _, e := range p.events {
				var v, val *Term
				switch {
				case isClientCall(e):
					v = e.Args[2]
				case e.Kind == "call" && strings.HasSuffix(e.Name, "NewMessage"):
					v = e.Args[2]
					if strings.Contains(e.Name, ")") && len(e.Args) > 3 {
						v = e.Args[3]
					}
				default:
					continue
				}
				if v.op == "iface" {
					v = v.args[0]
				}
				if strings.Contains(n, "Publish") {
					val = args[2]
				}
				c.ob("topics encoded")
				if r := c.topicSeq(k, p, p.seqOf(v), args[1], val); r != "" {
					c.bad("layout", n, e.Pos, p, "%s does not send the encoding of its topic: %s is wrong", n, r)
				}
				a, b := p.rng(p.ex.lenOf(p.State, args[1]))
				lo, hi = min(lo, a), max(hi, b)
			}
		}
	}
	for _, n := range []string{"Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		enc("client "+n+" bytes", "Client."+n, c.w.Fn(psPkg, "Client."+n))
	}
	for _, n := range []string{"Publish", "PublishToOne"} {
		enc("publish Server."+n, "Server."+n, c.w.Fn(psPkg, "Server."+n))
	}
	c.floor("topics encoded", 8)

	for _, n := range []string{"Subscribe", "Unsubscribe", "Publish", "PublishToOne"} {
		fn := k.on[n]
		for _, p := range c.explore("on "+n, fn, c.psOpts(k)).paths {
			c.bounds(p, psPkg, "bounds", "on "+n)
			ctx, _ := c.ctxParts(fn, p)
			body := c.bodyOf(p, ctx)
			if body == nil {
				continue
			}
			t := c.topicParts(p, body)
			refused := strings.HasPrefix(n, "Publish")
			told := false
			for _, e := range p.events {
				if (e.Kind == "mapget" || e.Kind == "mapset" || e.Kind == "mapdel") && (c.tableOf(p, e.Args[0], k.topics) || c.tableOf(p, e.Args[0], k.own)) {
					c.ob("received names used")
					refused = false
					if !t.name(e.Args[1]) {
						c.bad("decode", n+" name", e.Pos, p, "the %s handler uses something other than the name part of the received bytes as the topic's name", n)
					}
				}
				told = told || isCtxError(e, ctx)
			}
			if refused && told && p.done == "return" {
				c.ob("refused topics")
				if t.encodable(lo, hi) {
					c.bad("accepts", n, fn.Pos(), p, "the %s handler refuses bytes that can be an encoded topic", n)
				}
			}
		}
	}
	fn := k.onPub
	for _, p := range c.explore("on publication", fn, c.psOpts(k)).paths {
		c.bounds(p, psPkg, "bounds", "on publication")
		ctx, _ := c.ctxParts(fn, p)
		body := c.bodyOf(p, ctx)
		if body == nil {
			continue
		}
		t := c.topicParts(p, body)
		refused := true
		for _, e := range p.events {
			if (e.Kind == "mapget") && c.tableOf(p, e.Args[0], k.handlers) {
				refused = false
				c.ob("received names used")
				if !t.name(e.Args[1]) {
					c.bad("decode", "publication name", e.Pos, p, "a publication's handler is looked up under something other than the name part of the received bytes")
				}
			}
			if e.Kind == "dyn" && len(e.Args) == 2 && types.Identical(deref(e.Args[1].typ), k.topic) {
				refused = false
				c.ob("topics handed to the application")
				tp := e.Args[1]
				if !t.name(p.loadF(tp, k.name)) {
					c.bad("decode", "name", e.Pos, p, "the name of the topic handed to the application is not the name part of the received bytes")
				}
				if !t.payload(p.loadF(tp, k.data)) {
					c.bad("decode", "payload", e.Pos, p, "the payload of the topic handed to the application is not the payload part of the received bytes")
				}
				if !t.time(p.loadF(tp, k.stamp)) {
					c.bad("decode", "time", e.Pos, p, "the time of the topic handed to the application is not the time part of the received bytes")
				}
			}
		}
		if refused && p.done == "return" {
			c.ob("refused topics")
			if t.encodable(lo, hi) {
				c.bad("accepts", "publication", fn.Pos(), p, "the client drops bytes that can be an encoded topic")
			}
		}
	}
	c.floor("received names used", 10)
	c.floor("topics handed to the application", 2)
	c.floor("refused topics", 8)
	c.floor("accesses", 40)
}

// bodyOf: the received bytes, if the path asked for them.
func (c *Check) bodyOf(p *Path, ctx *Term) *Term {
	for _, e := range p.events {
		if isCall(e, "arpc.Context).Body") && e.Args[0] == ctx {
			return e.Res
		}
	}
	return nil
}

type topicView struct {
	p      *Path
	body   *Term
	n, l   *Term // length of the bytes, length of the name
	stamp  *Term
	hiName *Term
	loName *Term
}

// topicParts: where the parts of an encoded topic lie in these bytes.
func (c *Check) topicParts(p *Path, body *Term) *topicView {
	t := &topicView{p: p, body: body, n: p.ex.lenOf(p.State, body)}
	I := types.Typ[types.Int]
	le := func(from, w int64, typ types.Type) *Term {
		var bs []bit
		for i := int64(0); i < w; i++ {
			a := p.ex.arith(token.ADD, t.n, p.ex.tt.Int(from+i), I)
			bs = append(bs, p.ex.tt.bitsOf(p.elemAt(body, a, types.Typ[types.Uint8]), 8)...)
		}
		return p.ex.tt.Bits(bs, typ)
	}
	t.l = p.ex.convert(le(-10, 2, types.Typ[types.Uint16]), I)
	t.stamp = le(-8, 8, types.Typ[types.Uint64])
	t.hiName = p.ex.arith(token.SUB, t.n, p.ex.tt.Int(10), I)
	t.loName = p.ex.arith(token.SUB, t.hiName, t.l, I)
	return t
}

func (t *topicView) part(v, lo, hi *Term) bool {
	for v.op == "conv" && (v.s == "string" || strings.HasPrefix(v.s, "bytes:")) {
		v = v.args[0]
	}
	seq := t.p.seqOf(v)
	if len(seq) == 0 {
		d, ok := t.p.linDiff(hi, lo)
		return ok && d == 0
	}
	if len(seq) != 1 || seq[0].whole == nil {
		return false
	}
	v = seq[0].whole
	for v.op == "conv" && (v.s == "string" || strings.HasPrefix(v.s, "bytes:")) {
		v = v.args[0]
	}
	if v.op != "slice" || v.args[0] != t.body {
		return false
	}
	a, ok1 := t.p.linDiff(v.args[1], lo)
	b, ok2 := t.p.linDiff(v.args[2], hi)
	return ok1 && ok2 && a == 0 && b == 0
}

func (t *topicView) name(v *Term) bool    { return t.part(v, t.loName, t.hiName) }
func (t *topicView) payload(v *Term) bool { return t.part(v, t.p.ex.tt.Int(0), t.loName) }
func (t *topicView) time(v *Term) bool {
	a, b := t.p.ex.tt.bitsOf(v, 64), t.p.ex.tt.bitsOf(t.stamp, 64)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// encodable: on this path the bytes can be the encoding of a topic whose name has between lo and hi bytes.
func (t *topicView) encodable(lo, hi int64) bool {
	if _, h := t.p.rng(t.hiName); h < 0 {
		return false
	}
	if _, h := t.p.rng(t.loName); h < 0 {
		return false
	}
	a, b := t.p.rng(t.l)
	return !(b < lo || a > hi)
}

// bounds: the accesses made by functions of the package on this path are within their operands.
func (c *Check) bounds(p *Path, pkg, rule, where string) {
	nonneg := func(t *Term) bool { l, _ := p.rng(t); return l >= 0 }
	I := types.Typ[types.Int]
	sub := func(a, b *Term) *Term { return p.ex.arith(token.SUB, a, b, I) }
	for _, e := range p.events {
		if e.Fn == nil || !inPkg(e.Fn, strings.TrimSuffix(modPath+"/"+pkg, "/")) {
			continue
		}
		switch e.Kind {
		case "slice":
			c.ob("accesses")
			lo, hi, full := e.Args[1], e.Args[2], e.Args[3]
			lim := []*Term{full, p.ex.tt.mk("cap", "", I, nil, e.Args[0])}
			top := hi
			if len(e.Args) > 4 {
				top = e.Args[4]
				if !nonneg(sub(top, hi)) {
					c.bad(rule, where, e.Pos, p, "a slice's end may lie beyond its capacity limit")
				}
			}
			ok := false
			for _, l := range lim {
				ok = ok || nonneg(sub(l, top))
			}
			if !nonneg(lo) || !nonneg(sub(hi, lo)) || !ok {
				c.bad(rule, where, e.Pos, p, "slicing %s[%s:%s] may be out of range", e.Args[0], lo, hi)
			}
		case "index":
			c.ob("accesses")
			if b := e.Args[0]; b.typ != nil {
				if _, isMap := b.typ.Underlying().(*types.Map); isMap {
					continue
				}
			}
			if i := e.Args[1]; !nonneg(i) || !nonneg(sub(sub(p.ex.lenOf(p.State, e.Args[0]), p.ex.tt.Int(1)), i)) {
				c.bad(rule, where, e.Pos, p, "index %s of %s may be out of range", i, e.Args[0])
			}
		case "binacc":
			c.ob("accesses")
			w := 0
			for _, ch := range e.Name {
				if ch >= '0' && ch <= '9' {
					w = w*10 + int(ch-'0')
				}
			}
			if !nonneg(sub(p.ex.lenOf(p.State, e.Args[0]), p.ex.tt.Int(int64(w/8)))) {
				c.bad(rule, where, e.Pos, p, "%s may be given fewer than %d bytes", e.Name, w/8)
			}
		case "makeslice":
			c.ob("accesses")
			if !nonneg(e.Args[0]) {
				c.bad(rule, where, e.Pos, p, "a slice of negative length may be made")
			}
		case "nilderef":
			c.bad(rule, where, e.Pos, p, "a nil pointer is dereferenced")
		}
	}
}

// callerMemory: nothing is written into bytes the operation was given.
func (c *Check) callerMemory(p *Path, where string, fn *ssa.Function) {
	for _, e := range p.events {
		var t *Term
		switch e.Kind {
		case "copy":
			t = e.Args[0]
		case "append":
			c.ob("writes into bytes")
			if p.ownRoom(e.Args[0]) {
				continue
			}
			c.bad("caller-memory", where, e.Pos, p, "appending to %s may write behind bytes that belong to the caller", e.Args[0])
			continue
		case "store":
			if e.Args[0].op != "idx" {
				continue
			}
			t = e.Args[0].args[0]
		default:
			continue
		}
		c.ob("writes into bytes")
		if !p.ownBytes(t) {
			c.bad("caller-memory", where, e.Pos, p, "%s is written, which may belong to the caller", t)
		}
	}
}

// ownRoom: what append writes behind t is memory made on this path.
func (p *Path) ownRoom(t *Term) bool {
	if t.op == "nil" || p.ownBytes(t) {
		return true
	}
	if t.op == "slice" && len(t.args) > 3 {
		d, ok := p.linDiff(t.args[3], t.args[2])
		return ok && d == 0
	}
	if t.op == "append" { // a re-allocation, or nothing was appended
		return p.ownRoom(t.args[0])
	}
	return false
}

func (p *Path) ownBytes(t *Term) bool {
	for t.op == "slice" {
		t = t.args[0]
	}
	switch t.op {
	case "makeslice", "alloc", "malloc":
		return true
	case "conv":
		return strings.HasPrefix(t.s, "bytes:")
	case "append":
		if p.ownBytes(t.args[0]) || t.args[0].op == "nil" {
			return true
		}
		l, _ := p.rng(p.ex.lenOf(p.State, t.args[1]))
		return l > 0 && p.ownRoom(t.args[0])
	}
	return false
}
// C29 -------------------------------------------------------------------------

func ruleC29(c *Check) {
	c.rule("recorded", "a subscription that succeeds has its handler in the client's table, entered before the request and not taken out again; one that fails leaves no entry; a cancelled one is taken out when the cancellation succeeded, and kept when it did not; nothing else changes the table")
	c.rule("outcome", "authenticating and publishing ask the server once and report success exactly if it acknowledged the request")
	c.rule("connect", "on every connection the client authenticates first and does nothing else if that fails; if it succeeds it goes through its whole table, and for each entry that is still there subscribes under the entry's own name")
	c.rule("recheck", "before each such request the entry was looked up again, so that a subscription cancelled meanwhile is not made again")
	c.rule("handler", "the handler of a received publication is the one the table holds for its name, is called at most once, and no lock of the client is held while it runs")
	k := c.ps()
	if !k.ok {
		return
	}
	if k.onConn == nil {
		c.bad("connect", "hook", c.w.Fn(psPkg, "NewClient").Pos(), nil, "the client is not told about new connections: it does not subscribe again after a reconnect")
		return
	}
	lo, hi := int64(1)<<62, int64(-1)
	isTable := func(p *Path, e *Event) bool { return c.tableOf(p, e.Args[0], k.handlers) }

	sub := c.w.Fn(psPkg, "Client.Subscribe")
	for _, p := range c.explore("client Subscribe bytes", sub, c.psOpts(k)).paths {
		if p.done != "return" {
			continue
		}
		a := p.ex.ParamTerms(sub)
		set, del, call := -1, -1, -1
		for i, e := range p.events {
			switch {
			case e.Kind == "mapset" && isTable(p, e):
				if e.Args[1] != a[1] || e.Args[2] != a[2] {
					c.bad("recorded", "other", e.Pos, p, "Subscribe enters something other than the given handler under the given name")
				}
				x, y := p.rng(p.ex.lenOf(p.State, e.Args[1]))
				lo, hi = min(lo, x), max(hi, y)
				set, del = i, -1
			case e.Kind == "mapdel" && isTable(p, e):
				if e.Args[1] != a[1] {
					c.bad("recorded", "other", e.Pos, p, "Subscribe takes another topic's handler out of the table")
				}
				del = i
			case isClientCall(e):
				call = i
			}
		}
		if call < 0 {
			if p.errIs(p.results[0]) != "err" {
				c.bad("recorded", "no request", sub.Pos(), p, "Subscribe returns without error though it did not ask the server")
			}
			if set >= 0 && del < 0 {
				c.bad("recorded", "kept", sub.Pos(), p, "Subscribe leaves a handler in the table for a subscription it did not make")
			}
			continue
		}
		ok := p.errIs(p.events[call].Res) == "nil"
		c.ob("subscriptions asked for")
		switch {
		case ok && (set < 0 || set > call):
			c.bad("recorded", "late", p.events[call].Pos, p, "Subscribe asks the server before its handler is in the table: publications that follow the acknowledgement find none")
		case ok && del >= 0:
			c.bad("recorded", "lost", p.events[del].Pos, p, "Subscribe succeeds but takes its handler out of the table: it is not subscribed again after a reconnect")
		case !ok && set >= 0 && del < 0:
			c.bad("recorded", "kept", sub.Pos(), p, "a failed Subscribe leaves its handler in the table: it is subscribed after a reconnect")
		case ok != (p.errIs(p.results[0]) == "nil"):
			c.bad("recorded", "result", sub.Pos(), p, "Subscribe does not report the outcome of its request")
		}
	}
	uns := c.w.Fn(psPkg, "Client.Unsubscribe")
	for _, p := range c.explore("client Unsubscribe bytes", uns, c.psOpts(k)).paths {
		if p.done != "return" {
			continue
		}
		a := p.ex.ParamTerms(uns)
		del, call := false, (*Event)(nil)
		for _, e := range p.events {
			switch {
			case e.Kind == "mapset" && isTable(p, e):
				c.bad("recorded", "cancel enters", e.Pos, p, "Unsubscribe enters a handler into the table")
			case e.Kind == "mapdel" && isTable(p, e):
				if e.Args[1] != a[1] {
					c.bad("recorded", "other", e.Pos, p, "Unsubscribe takes another topic's handler out of the table")
				}
				del = true
			case isClientCall(e):
				call = e
			}
		}
		ok := call != nil && p.errIs(call.Res) == "nil"
		c.ob("cancellations")
		switch {
		case ok && !del:
			c.bad("recorded", "cancelled", uns.Pos(), p, "a successful Unsubscribe leaves the handler in the table: it is subscribed again after a reconnect")
		case !ok && del:
			c.bad("recorded", "not cancelled", uns.Pos(), p, "Unsubscribe takes the handler out of the table though the server did not confirm: the topic is lost after a reconnect")
		case ok != (p.errIs(p.results[0]) == "nil"):
			c.bad("recorded", "result", uns.Pos(), p, "Unsubscribe does not report the outcome of its request")
		}
	}
	for _, n := range []string{"Authenticate", "Publish", "PublishToOne"} {
		fn := c.w.Fn(psPkg, "Client."+n)
		if !c.need(fn, "pubsub Client."+n) {
			continue
		}
		for _, p := range c.explore("client "+n+" bytes", fn, c.psOpts(k)).paths {
			if p.done == "panic" {
				c.bad("outcome", n+" panic", fn.Pos(), p, "%s can end in a panic", n)
			}
			if p.done != "return" {
				continue
			}
			calls, call := 0, (*Event)(nil)
			for _, e := range p.events {
				if isClientCall(e) {
					calls++
					call = e
				}
			}
			c.ob("outcomes reported")
			res := p.results[len(p.results)-1]
			switch {
			case calls > 1:
				c.bad("outcome", n+" twice", fn.Pos(), p, "%s asks the server %d times", n, calls)
			case calls == 0:
				if p.errIs(res) != "err" {
					c.bad("outcome", n+" unasked", fn.Pos(), p, "%s returns without error though it did not ask the server", n)
				}
			case res != call.Res && p.errIs(res) != p.errIs(call.Res):
				c.bad("outcome", n, fn.Pos(), p, "%s does not report the outcome of its request", n)
			}
		}
	}
	c.floor("outcomes reported", 6)
	c.floor("subscriptions asked for", 2)
	c.floor("cancellations", 3)
	okFn := map[*ssa.Function]bool{sub: true, uns: true}
	for _, f := range []*ssa.Function{sub, uns} {
		for g := range c.w.reach(f) {
			okFn[g] = true
		}
	}
	for _, fn := range c.w.allFns {
		if okFn[fn] || !inPkg(fn, modPath+"/"+psPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, is := x.Call.Value.(*ssa.Builtin); is && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = x.Call.Args[0]
					}
				case *ssa.Store:
					if fa, is := x.Addr.(*ssa.FieldAddr); is && structOf(fa.X.Type()).Field(fa.Field) == k.handlers {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							c.bad("recorded", "replaced", in.Pos(), nil, "%s replaces the client's table of handlers", fnName(fn))
						}
					}
				}
				if m != nil && isFieldLoad(m, k.handlers) {
					c.bad("recorded", "writer "+fnName(fn), in.Pos(), nil, "%s changes the client's table of handlers outside Subscribe and Unsubscribe", fnName(fn))
				}
			}
		}
	}

	// the connected hook
	hook := boundFn(c, k.onConn)
	if !c.need(hook, "function run on a new connection") {
		return
	}
	o := c.psOpts(k)
	o.RunSpawned = true
	for _, p := range c.explore("connected", hook, o).paths {
		c.connectedPath(k, p, hook, lo, hi)
	}
	c.floor("connections authenticated", 2)
	c.floor("connections refused", 1)
	c.floor("topics subscribed again", 4)

	// handlers of publications
	for _, p := range c.explore("on publication", k.onPub, c.psOpts(k)).paths {
		calls := 0
		for i, e := range p.events {
			if e.Kind != "dyn" || len(e.Args) != 2 || !types.Identical(deref(e.Args[1].typ), k.topic) {
				continue
			}
			c.ob("handlers run")
			calls++
			if calls > 1 {
				c.bad("handler", "twice", e.Pos, p, "a publication is handed to the application twice")
			}
			for l := range critSection(p, i) {
				c.bad("handler", "locked", e.Pos, p, "a topic handler runs while %s is held: a subscribe or unsubscribe made from it blocks for ever", l)
			}
			own := loadField(e.Args[0]) != nil
			for _, x := range p.events[:i] {
				if x.Kind == "mapget" && isTable(p, x) && x.Chosen == 0 && x.Res == e.Args[0] {
					own = true
				}
			}
			if !own {
				c.bad("handler", "other", e.Pos, p, "a publication is handed to something other than the handler the table holds for its name")
			}
		}
		for _, e := range p.events {
			if e.Kind == "mapget" && isTable(p, e) && e.Chosen == 0 && p.done == "return" && calls == 0 {
				if nl, known := p.isNil(e.Res); !known || !nl {
					c.bad("handler", "dropped", e.Pos, p, "a publication is dropped though the table holds a handler for its name")
				}
			}
		}
	}
	c.floor("handlers run", 2)
}

func (c *Check) connectedPath(k *psRoles, p *Path, hook *ssa.Function, lo, hi int64) {
	authed, failed := -1, false
	var keys []*Term
	end := false
	got := map[*Term]bool{}  // entry looked up again
	gone := map[*Term]bool{} // and found missing
	subs := map[*Term]int{}
	lastErr := map[*Term]bool{} // the last request for the entry failed
	type look struct {
		key *Term
		i   int
	}
	last := map[int]*look{} // per goroutine: the last entry found
	for i, e := range p.events {
		switch {
		case isClientCall(e):
			rt, _ := e.Args[1].StrVal()
			switch rt {
			case k.route["Authenticate"]:
				v := e.Args[2]
				if v.op == "iface" {
					v = v.args[0]
				}
				if f := loadField(v); f == nil || f != fieldNamed(k.client, "Password") {
					c.bad("connect", "password", e.Pos, p, "the client authenticates with something other than its password")
				}
				if p.errIs(e.Res) == "nil" {
					authed = i
				} else {
					failed = true
				}
			case k.route["Subscribe"]:
				if authed < 0 {
					c.bad("connect", "unauthenticated", e.Pos, p, "the client subscribes on a new connection without having authenticated there")
				}
				c.ob("topics subscribed again")
				v := e.Args[2]
				if v.op == "iface" {
					v = v.args[0]
				}
				l := last[e.G]
				if l == nil {
					c.bad("recheck", "none", e.Pos, p, "the client subscribes again without having looked whether the subscription has been cancelled meanwhile")
					continue
				}
				seq := p.seqOf(v)
				if len(seq) > 0 && seq[0].whole != nil && isCallTerm(seq[0].whole, "util.ValueToBytes") {
					seq = seq[1:]
				}
				if r := c.topicSeq(k, p, seq, l.key, nil); r != "" {
					c.bad("connect", "name", e.Pos, p, "the client subscribes again under something other than the name of the entry (%s)", r)
				}
				subs[l.key]++
				lastErr[l.key] = p.errIs(e.Res) != "nil"
				last[e.G] = nil
			default:
				c.bad("connect", "other request", e.Pos, p, "the client makes another request on a new connection")
			}
		case e.Kind == "range" && c.tableOf(p, e.Args[0], k.handlers):
			keys = append(keys, e.Args[1])
		case e.Kind == "rangeend" && c.tableOf(p, e.Args[0], k.handlers):
			end = true
		case e.Kind == "mapget" && c.tableOf(p, e.Args[0], k.handlers):
			got[e.Args[1]] = true
			if e.Chosen == 0 {
				last[e.G] = &look{e.Args[1], i}
			} else {
				gone[e.Args[1]] = true
				last[e.G] = nil
			}
		}
	}
	if p.done == "cut" {
		return
	}
	if failed {
		c.ob("connections refused")
		if len(keys) > 0 || len(subs) > 0 {
			c.bad("connect", "refused", hook.Pos(), p, "the client goes on though the authentication failed")
		}
		return
	}
	if authed < 0 {
		c.bad("connect", "no authentication", hook.Pos(), p, "the client does not authenticate on a new connection")
		return
	}
	c.ob("connections authenticated")
	if !end {
		c.bad("connect", "incomplete", hook.Pos(), p, "the client does not go through its whole table on a new connection")
	}
	for _, key := range keys {
		a, b := p.rng(p.ex.lenOf(p.State, key))
		if b < lo || a > hi {
			continue // no such name is in the table
		}
		if subs[key] == 0 && !gone[key] {
			c.bad("connect", "skipped", hook.Pos(), p, "a topic of the table is not subscribed again on a new connection")
		}
		if subs[key] == 1 && lastErr[key] && !gone[key] {
			c.bad("connect", "given up", hook.Pos(), p, "a topic of the table is given up after a single request that failed")
		}
	}
}
