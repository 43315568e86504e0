package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = ruleC34
}

const splitPkg = "extension/listener"

type splitRoles struct {
	lt     types.Type
	under  *types.Var // the listener underneath
	a, b   *types.Var // the two queues
	online *types.Var
	max    *types.Var
	conn   *types.Var // of a queued event
	ok     bool
}

// split finds the queues by what the two listeners of Listeners() read from, the counter by what OfflineA lowers,
// the limit by what Listen stores from its parameter.
func (c *Check) split() *splitRoles {
	k := &splitRoles{lt: c.w.Type(splitPkg, "Listener")}
	ls, off, listen := c.w.Fn(splitPkg, "Listener.Listeners"), c.w.Fn(splitPkg, "Listener.OfflineA"), c.w.Fn(splitPkg, "Listen")
	if k.lt == nil || !c.need(ls, "Listener.Listeners") || !c.need(off, "Listener.OfflineA") || !c.need(listen, "listener.Listen") {
		return k
	}
	for _, v := range fieldsWhere(k.lt, func(v *types.Var) bool { return strings.HasSuffix(typeKey(v.Type()), "net.Listener") }) {
		k.under = v
	}
	ex := c.explore("Listeners", ls, c.extOpts())
	self := ex.ParamTerms(ls)[0]
	for _, p := range ex.paths {
		ret := p.events[len(p.events)-1]
		if ret.Kind != "return" || len(ret.Args) != 2 {
			c.bad("split", "Listeners", ls.Pos(), p, "Listeners does not return two listeners")
			return k
		}
		var q [2]*types.Var
		for i, r := range ret.Args {
			for r.op == "iface" {
				r = r.args[0]
			}
			if r.typ == nil || structOf(deref(r.typ)) == nil {
				continue
			}
			for _, v := range fieldsWhere(deref(r.typ), func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok }) {
				if t := p.loadF(r, v); loadBase(t) == self {
					q[i] = loadField(t)
				}
			}
			acc := c.w.Fn(splitPkg, deref(r.typ).(*types.Named).Obj().Name()+".Accept")
			if q[i] != nil && c.need(acc, "Accept of a split listener") {
				c.splitAccept(acc, r.typ)
			}
		}
		c.ob("pairs of listeners")
		if q[0] == nil || q[1] == nil || q[0] == q[1] {
			c.bad("split", "Listeners", ret.Pos, p, "Listeners does not return listeners of two different queues")
			return k
		}
		k.a, k.b = q[0], q[1]
	}
	// the counter
	ox := c.explore("OfflineA", off, c.splitOpts())
	self = ox.ParamTerms(off)[0]
	for _, v := range fieldsWhere(k.lt, flagLike) {
		for _, p := range ox.paths {
			for _, e := range p.events {
				if len(e.Args) > 0 && e.Args[0].fieldVar() == v && e.Args[0].args[0] == self && (e.Kind == "atomic" && e.Name != "load" || e.Kind == "store") {
					k.online = v
				}
			}
		}
	}
	// the limit
	lx := c.explore("Listen", listen, c.extOpts())
	var lim *Term
	for i, pr := range listen.Params {
		if isIntType(pr.Type()) {
			lim = lx.ParamTerms(listen)[i]
		}
	}
	for _, p := range lx.paths {
		ret := p.events[len(p.events)-1]
		if ret.Kind != "return" || len(ret.Args) != 2 || p.isNull(ret.Args[0]) || lim == nil {
			continue
		}
		for _, v := range fieldsWhere(k.lt, func(v *types.Var) bool { return isIntType(v.Type()) }) {
			t := p.loadF(ret.Args[0], v)
			if t.walk(func(x *Term) bool { return x == lim }) {
				k.max = v
			}
		}
	}
	for n, v := range map[string]*types.Var{"listener underneath": k.under, "first queue": k.a, "second queue": k.b, "online count": k.online, "limit": k.max} {
		if v == nil {
			c.need(nil, "the splitting listener's "+n)
			return k
		}
	}
	st := structOf(k.a.Type().Underlying().(*types.Chan).Elem())
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(typeKey(st.Field(i).Type()), "net.Conn") {
				k.conn = st.Field(i)
			}
		}
	}
	k.ok = true
	for _, p := range lx.paths {
		c.splitListen(k, listen, p, lim)
	}
	for _, p := range ox.paths {
		c.ob("releases")
		if d, ok := c.countChange(k, p, p.events, self); p.done != "return" || !ok || d != -1 {
			c.bad("count", "OfflineA", off.Pos(), p, "OfflineA does not lower the online count by exactly one")
		}
	}
	return k
}

func (c *Check) splitOpts() Opts {
	o := c.extOpts()
	o.KeepLoads = true
	return o
}

// countChange: by how much the events change the count.
func (c *Check) countChange(k *splitRoles, p *Path, evs []*Event, self *Term) (int64, bool) {
	sum := int64(0)
	for i, e := range evs {
		if len(e.Args) == 0 || e.Args[0].fieldVar() != k.online || e.Args[0].args[0] != self {
			continue
		}
		switch {
		case e.Kind == "atomic" && e.Name == "add":
			d, ok := e.Args[1].IntVal()
			if !ok {
				return 0, false
			}
			sum += d
		case e.Kind == "atomic" && e.Name == "cas":
			if e.Chosen == 1 {
				continue
			}
			d, ok := p.linDiff(e.Args[2], e.Args[1])
			if !ok {
				return 0, false
			}
			sum += d
		case e.Kind == "atomic" && e.Name != "load":
			return 0, false
		case e.Kind == "store":
			// a plain change counts relative to what was read under the same lock
			ok := false
			for j := i - 1; j >= 0; j-- {
				x := evs[j]
				if x.Kind == "load" && x.Args[0] == e.Args[0] {
					if d, dk := p.linDiff(e.Args[1], x.Res); dk && underOneLock(p, x, e) {
						sum += d
						ok = true
					}
					break
				}
			}
			if !ok {
				return 0, false
			}
		}
	}
	return sum, true
}

func underOneLock(p *Path, a, b *Event) bool {
	i, j := -1, -1
	for n, e := range p.events {
		if e == a {
			i = n
		}
		if e == b {
			j = n
		}
	}
	return i >= 0 && j >= 0 && commonLock(p, i, j) != nil
}

// splitCounts: what the events say the count is with the new connection in it.
func (c *Check) splitCounts(k *splitRoles, p *Path, evs []*Event, self *Term) []*Term {
	var out []*Term
	one := p.ex.tt.Int(1)
	for _, e := range evs {
		if len(e.Args) == 0 || e.Args[0].fieldVar() != k.online || e.Args[0].args[0] != self {
			continue
		}
		switch {
		case e.Kind == "atomic" && e.Name == "add":
			if d, ok := e.Args[1].IntVal(); ok && d == 1 {
				out = append(out, e.Res)
			}
		case e.Kind == "atomic" && e.Name == "cas" && e.Chosen == 0:
			out = append(out, e.Args[2])
		case e.Kind == "atomic" && e.Name == "load", e.Kind == "load":
			out = append(out, p.add(e.Res, one))
		}
	}
	return out
}

func (c *Check) splitListen(k *splitRoles, fn *ssa.Function, p *Path, lim *Term) {
	ret := p.events[len(p.events)-1]
	if p.done != "return" || len(ret.Args) != 2 {
		c.bad("listen", "Listen", fn.Pos(), p, "Listen can end in a panic")
		return
	}
	if p.isNull(ret.Args[0]) {
		if v, kn := p.isNil(ret.Args[1]); !kn || v {
			c.bad("listen", "Listen result", ret.Pos, p, "Listen returns neither a listener nor an error")
		}
		return
	}
	c.ob("listeners built")
	for _, v := range []*types.Var{k.a, k.b} {
		if p.loadF(ret.Args[0], v).op != "makechan" {
			c.bad("listen", "queues", ret.Pos, p, "Listen leaves a queue unmade")
		}
	}
	if p.loadF(ret.Args[0], k.a) == p.loadF(ret.Args[0], k.b) {
		c.bad("listen", "queues", ret.Pos, p, "both listeners share one queue")
	}
	if n, ok := p.loadF(ret.Args[0], k.online).IntVal(); !ok || n != 0 {
		c.bad("listen", "count", ret.Pos, p, "a new listener does not start with an online count of zero")
	}
	m := p.loadF(ret.Args[0], k.max)
	for m.op == "conv" {
		// the value must fit
		lo, hi := p.rng(m.args[0])
		w, uns := intSize(m.typ)
		if uns && lo < 0 || !uns && w < 64 && (hi >= 1<<uint(w-1) || lo < -(1<<uint(w-1))) {
			c.bad("listen", "limit", ret.Pos, p, "a limit beyond the counter's range is turned into another one")
		}
		m = m.args[0]
	}
	lo, hi := p.rng(lim)
	if n, ok := m.IntVal(); ok {
		if !(hi <= 0 && n == 0 || lo == hi && lo == n || lo >= n && n >= 1<<31-1) {
			c.bad("listen", "limit", ret.Pos, p, "Listen limits the first listener to %d instead of the given number", n)
		}
	} else if m != lim {
		c.bad("listen", "limit", ret.Pos, p, "Listen limits the first listener to something other than the given number")
	}
	for _, e := range p.events {
		if isCall(e, "net.Listen") {
			if p.loadF(ret.Args[0], k.under) != p.part(e.Res, 0) {
				c.bad("listen", "underneath", ret.Pos, p, "the new listener does not accept from what was opened")
			}
		}
	}
}

// splitAccept: an accept hands out what its queue holds, and fails once the queue is closed.
func (c *Check) splitAccept(fn *ssa.Function, t types.Type) {
	ex := c.explore("split Accept", fn, c.splitOpts())
	self := ex.ParamTerms(fn)[0]
	for _, p := range ex.paths {
		if p.done != "return" {
			c.bad("accept", "Accept", fn.Pos(), p, "Accept of a split listener can end in a panic")
			continue
		}
		ret := p.events[len(p.events)-1]
		var recv *Event
		for _, e := range p.events {
			if e.Kind == "recv" || e.Kind == "select" && e.Chosen >= 0 && !e.Cases[e.Chosen].Send {
				recv = e
			}
		}
		if len(ret.Args) != 2 {
			continue
		}
		c.ob("accepts")
		if recv == nil {
			if v, kn := p.isNil(ret.Args[1]); !kn || v {
				c.bad("accept", "nothing received", ret.Pos, p, "Accept returns without having received a connection, and without an error")
			}
			continue
		}
		ch := recv.Args
		var from *Term
		if recv.Kind == "recv" {
			from = ch[0]
		} else {
			from = recv.Cases[recv.Chosen].Ch
		}
		if loadBase(from) != self {
			c.bad("accept", "queue", recv.Pos, p, "Accept receives from something other than its own queue")
			continue
		}
		ok, _ := p.recvOK(recv)
		switch {
		case !ok:
			if v, k2 := p.isNil(ret.Args[1]); !k2 || v {
				c.bad("accept", "closed", ret.Pos, p, "Accept on a closed listener does not return an error")
			}
		default:
			if st := structOf(recv.Res.typ); st != nil {
				none := false
				for i := 0; i < st.NumFields(); i++ {
					if strings.HasSuffix(typeKey(st.Field(i).Type()), "net.Conn") && p.isNull(p.ex.fieldVal(recv.Res, i, st)) {
						none = true
					}
				}
				if none {
					// Run queues connections only
					continue
				}
			}
			c.ob("connections handed out")
			if !ret.Args[0].walk(func(x *Term) bool { return x == recv.Res || isRecvOf(x, from) }) {
				c.bad("accept", "dropped", ret.Pos, p, "Accept drops the connection it received")
			}
		}
	}
	c.floor("accepts", 2)
	c.floor("connections handed out", 1)
}

// recvOK: whether the receive gave a value (false: the channel was closed).
func (p *Path) recvOK(e *Event) (ok, known bool) {
	if e.Kind == "select" {
		return e.Name != "closed", true
	}
	if u, is := e.Instr.(*ssa.UnOp); is && (u.CommaOk || p.ex.mayBeClosed(e.Args[0])) {
		return e.Chosen == 0, true
	}
	return true, false
}

func isRecvOf(x, ch *Term) bool {
	return (x.op == "recv" || x.op == "selrecv") && len(x.args) > 0 && x.args[0] == ch
}

func ruleC34(c *Check) {
	c.rule("split", "the two listeners read from two different queues of the splitter")
	c.rule("listen", "a new splitter starts with count zero, the given limit and the opened listener")
	c.rule("count", "the count is raised by one exactly for each connection offered to the first queue, lowered by one by a release, and changed nowhere else")
	c.rule("deliver", "every accepted connection is put into exactly one queue: the first if the count with it does not exceed the limit, the second otherwise; one that cannot be delivered is closed")
	c.rule("accept", "an accept returns the connection its queue holds; on a closed queue it returns an error")
	c.rule("close", "Close closes both queues and the listener underneath")
	k := c.split()
	if !k.ok {
		return
	}
	run, cl := c.w.Fn(splitPkg, "Listener.Run"), c.w.Fn(splitPkg, "Listener.Close")
	if !c.need(run, "Listener.Run") || !c.need(cl, "Listener.Close") {
		return
	}
	for _, fails := range []bool{false, true} {
		o := c.splitOpts()
		name := "Run"
		isQ := func(ch *Term) bool { return loadField(ch) == k.a || loadField(ch) == k.b }
		if fails {
			name = "Run, listener closed"
			o.PanicAt = func(e *Event) bool {
				return e.Kind == "send" && isQ(e.Args[0]) || e.Kind == "select" && e.Chosen >= 0 && e.Cases[e.Chosen].Send && isQ(e.Cases[e.Chosen].Ch)
			}
		}
		ex := c.explore(name, run, o)
		self := ex.ParamTerms(run)[0]
		for _, p := range ex.paths {
			if p.done == "panic" {
				c.bad("deliver", name+" panic", run.Pos(), p, "Run ends in a panic")
			}
			c.splitRun(k, run, p, self, fails)
		}
	}
	o := c.splitOpts()
	cx := c.explore("Close", cl, o)
	self := cx.ParamTerms(cl)[0]
	for _, p := range cx.paths {
		if p.done != "return" {
			continue
		}
		if p.isNull(p.ex.tt.mk("init", "", k.under.Type(), nil, p.ex.field(self, k.under))) {
			continue
		}
		got := map[string]bool{}
		for _, e := range p.events {
			if e.Kind == "close" && loadBase(e.Args[0]) == self {
				got[loadField(e.Args[0]).Name()] = true
			}
			if isCall(e, "net.Listener).Close") && loadField(e.Args[0]) == k.under {
				got["under"] = true
			}
		}
		if repeated(p) {
			continue
		}
		c.ob("closes")
		if !got[k.a.Name()] || !got[k.b.Name()] {
			c.bad("close", "queues", cl.Pos(), p, "Close leaves a queue open: an accept blocked on it never returns")
		}
		if !got["under"] {
			c.bad("close", "listener", cl.Pos(), p, "Close leaves the listener underneath open")
		}
	}
	c.floor("closes", 1)
	c.floor("connections split", 8)
	c.floor("connections closed", 2)
	c.floor("releases", 1)
	// nothing else touches the count
	ok := map[*ssa.Function]bool{run: true, c.w.Fn(splitPkg, "Listener.OfflineA"): true, c.w.Fn(splitPkg, "Listen"): true}
	for _, f := range c.w.allFns {
		if !inPkg(f, modPath+"/"+splitPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, isF := in.(*ssa.FieldAddr)
				if !isF || structOf(deref(fa.X.Type())).Field(fa.Field) != k.online {
					continue
				}
				c.ob("uses of the count")
				if !c.within(f, ok) {
					for _, r := range *fa.Referrers() {
						if ld, isLd := r.(*ssa.UnOp); isLd && ld.X == fa {
							continue
						}
						if ci, isC := r.(*ssa.Call); isC && ci.Common().StaticCallee() != nil && strings.HasPrefix(ci.Common().StaticCallee().Name(), "Load") {
							continue
						}
						c.bad("count", f.Name(), r.Pos(), nil, "%s changes the online count", f.Name())
					}
				}
			}
		}
	}
}

func (c *Check) splitRun(k *splitRoles, fn *ssa.Function, p *Path, self *Term, fails bool) {
	isAcc := func(e *Event) bool { return isCall(e, "net.Listener).Accept") }
	for i, e := range p.events {
		if !isAcc(e) {
			continue
		}
		end := i + 1
		for end < len(p.events) && !isAcc(p.events[end]) {
			end++
		}
		if end == len(p.events) && p.done == "cut" {
			continue
		}
		seg := p.events[i+1 : end]
		er, kn := p.isNil(p.part(e.Res, 1))
		conn := p.part(e.Res, 0)
		type put struct {
			q  *types.Var
			ev *Event
		}
		var puts []put
		closed, failed := 0, false
		for _, x := range seg {
			if x.Kind == "panic" && len(puts) > 0 {
				failed = true
			}
			var ch, v *Term
			if x.Kind == "send" {
				ch, v = x.Args[0], x.Args[1]
			}
			if x.Kind == "select" && x.Chosen >= 0 && x.Cases[x.Chosen].Send {
				ch, v = x.Cases[x.Chosen].Ch, x.Cases[x.Chosen].Val
			}
			if ch != nil && (loadField(ch) == k.a || loadField(ch) == k.b) {
				puts = append(puts, put{loadField(ch), x})
				if !c.carries(p, k, v, conn) {
					c.bad("deliver", "what", x.Pos, p, "Run puts something other than the accepted connection into a queue")
				}
			}
			if isCall(x, "net.Conn).Close") && x.Args[0] == conn {
				closed++
			}
		}
		if kn && !er {
			if len(puts) > 0 {
				c.bad("deliver", "failed accept", puts[0].ev.Pos, p, "Run delivers the result of a failed accept")
			}
			d, ok := c.countChange(k, p, seg, self)
			if !ok || d != 0 {
				c.bad("count", "failed accept", e.Pos, p, "a failed accept changes the online count")
			}
			continue
		}
		c.ob("connections split")
		if failed {
			c.ob("connections closed")
			if closed == 0 {
				c.bad("deliver", "leak", e.Pos, p, "a connection accepted while the listener is closed is leaked")
			}
			continue
		}
		if len(puts) != 1 || closed > 0 {
			if !(len(puts) == 0 && closed > 0) {
				c.bad("deliver", "exactly one", e.Pos, p, "an accepted connection is delivered %d times and closed %d times", len(puts), closed)
				continue
			}
			// turned away: nothing may have been counted
			if d, ok := c.countChange(k, p, seg, self); !ok || d != 0 {
				c.bad("count", "closed connection", e.Pos, p, "a connection that was closed stays counted")
			}
			continue
		}
		max := p.loadF(self, k.max)
		counts := c.splitCounts(k, p, seg, self)
		d, ok := c.countChange(k, p, seg, self)
		if puts[0].q == k.a {
			fits := false
			for _, n := range counts {
				if lo, _ := p.rng(p.sub(max, n)); lo >= 0 {
					fits = true
				}
			}
			if !fits {
				c.bad("deliver", "over the limit", puts[0].ev.Pos, p, "the first listener is given a connection without the count being within the limit")
			}
			if !ok || d != 1 {
				c.bad("count", "first queue", puts[0].ev.Pos, p, "a connection given to the first listener changes the online count by %d", d)
			}
		} else {
			full := false
			for _, n := range counts {
				if _, hi := p.rng(p.sub(max, n)); hi < 0 {
					full = true
				}
			}
			if !full {
				c.bad("deliver", "not full", puts[0].ev.Pos, p, "the second listener is given a connection although the first was not seen full")
			}
			if !ok || d != 0 {
				c.bad("count", "second queue", puts[0].ev.Pos, p, "a connection given to the second listener changes the online count by %d", d)
			}
		}
	}
}

// carries: the queued value holds the connection.
func (c *Check) carries(p *Path, k *splitRoles, v, conn *Term) bool {
	return v != nil && (v == conn || v.walk(func(x *Term) bool { return x == conn }) || k.conn != nil && v.op == "alloc" && p.loadF(v, k.conn) == conn)
}
