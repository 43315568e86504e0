package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = ruleC33
}

const (
	wsPkg   = "extension/protocol/websocket"
	quicPkg = "extension/protocol/quic"
)

func ruleC33(c *Check) {
	c.rule("read", "a read hands out the bytes of the current message from where the last read stopped, fills the buffer from its start, returns how many it copied and keeps exactly the rest; the next message is fetched only when nothing is left, and a failure to fetch is returned")
	c.rule("write", "a write passes its whole argument on in one exclusive section of the connection and reports all bytes exactly if that succeeded")
	c.rule("deadline", "a deadline reaches the transport with the given time, in the given directions")
	c.rule("close", "closing a connection closes the transport in both directions; closing a listener closes it at most once")
	c.rule("accept", "an accept returns a connection that arrived, and an error once the listener is closed; every connection that arrived is handed out or closed")
	c.rule("dial", "a dial returns a connection over the transport it opened, or an error and nothing left open")
	c.wsConn()
	c.wsListener()
	c.quicConn()
}

func (c *Check) adaptOpts() Opts {
	o := c.extOpts()
	o.KeepLoads = true
	return o
}

// span: the part of a slice's memory a term denotes.
func (p *Path) span(t *Term) (base, lo, n *Term) {
	n = p.ex.lenOf(p.State, t)
	lo = p.ex.tt.Int(0)
	for t.op == "slice" {
		lo = p.add(lo, t.args[1])
		t = t.args[0]
	}
	return t, lo, n
}

// embedded: the field through which a wrapper holds its transport.
func embedded(t types.Type, suffix string) *types.Var {
	for _, v := range fieldsWhere(t, func(v *types.Var) bool { return strings.HasSuffix(typeKey(v.Type()), suffix) }) {
		return v
	}
	return nil
}

// onTransport: the receiver of a call is the transport of the wrapper.
func onTransport(t, self *Term, v *types.Var) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	if loadField(t) == v && loadBase(t) == self {
		return true
	}
	return t.op == "fieldv" && t.fieldVar() == v && (t.args[0] == self || t.args[0].op == "init" && t.args[0].args[0] == self)
}

func retOf(p *Path) *Event { return p.events[len(p.events)-1] }

func (c *Check) wsConn() {
	ct := c.w.Type(wsPkg, "Conn")
	rd, wr, cl := c.w.Fn(wsPkg, "Conn.Read"), c.w.Fn(wsPkg, "Conn.Write"), c.w.Fn(wsPkg, "Conn.Close")
	if ct == nil || !c.need(rd, "websocket.Conn.Read") || !c.need(wr, "websocket.Conn.Write") || !c.need(cl, "websocket.Conn.Close") {
		return
	}
	under := embedded(ct, "websocket.Conn")
	if under == nil {
		c.need(nil, "the websocket connection of websocket.Conn")
		return
	}
	c.wsRead(rd, ct, under)
	c.wsWrite(wr, under)
	for _, d := range []struct {
		name  string
		r, w  bool
		names []string
	}{{"SetDeadline", true, true, nil}, {"SetReadDeadline", true, false, nil}, {"SetWriteDeadline", false, true, nil}} {
		fn := c.w.Fn(wsPkg, "Conn."+d.name)
		if !c.need(fn, "websocket.Conn."+d.name) {
			continue
		}
		ex := c.explore(d.name, fn, c.adaptOpts())
		ps := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				c.bad("deadline", d.name, fn.Pos(), p, "websocket.Conn.%s can panic", d.name)
				continue
			}
			c.ob("deadlines set")
			if nl, kn := p.isNil(retOf(p).Args[0]); kn && !nl {
				continue
			}
			r, w := false, false
			for _, e := range p.events {
				if e.Kind != "call" || len(e.Args) != 2 || e.Args[1] != ps[1] || !onTransport(e.Args[0], ps[0], under) {
					continue
				}
				r = r || isCall(e, "Conn).SetReadDeadline")
				w = w || isCall(e, "Conn).SetWriteDeadline")
			}
			if d.r && !r || d.w && !w {
				c.bad("deadline", d.name, retOf(p).Pos, p, "websocket.Conn.%s reports success without having passed the deadline on for %s", d.name, map[bool]string{true: "reads", false: "writes"}[d.r && !r])
			}
		}
	}
	ex := c.explore("websocket.Conn.Close", cl, c.adaptOpts())
	self := ex.ParamTerms(cl)[0]
	for _, p := range ex.paths {
		c.ob("connection closes")
		ok := false
		for _, e := range p.events {
			ok = ok || isCall(e, "websocket.Conn).Close") && onTransport(e.Args[0], self, under)
		}
		if !ok && !repeated(p) {
			c.bad("close", "websocket.Conn.Close", cl.Pos(), p, "websocket.Conn.Close leaves the connection open")
		}
	}
	// writes elsewhere
	lk := c.wsLock(wr, under)
	for _, f := range c.w.allFns {
		if !inPkg(f, modPath+"/"+wsPkg) || f.Synthetic != "" || c.within(f, map[*ssa.Function]bool{wr: true}) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				g := ci.Common().StaticCallee()
				n := g.String()
				if !strings.Contains(n, "gorilla/websocket.Conn)") || !strings.Contains(g.Name(), "Write") || g.Name() == "WriteControl" || g.Name() == "SetWriteDeadline" || g.Name() == "EnableWriteCompression" {
					if !strings.HasSuffix(n, "gorilla/websocket.Conn).NextWriter") {
						continue
					}
				}
				c.ob("message writes")
				if !c.lockedAt(f, in, lk) {
					c.bad("write", f.Name(), in.Pos(), nil, "%s writes a message without the lock that keeps writes apart", f.Name())
				}
			}
		}
	}
	c.floor("reads", 3)
	c.floor("bytes handed out", 2)
	c.floor("writes", 2)
	c.floor("deadlines set", 3)
}

// repeated: the path is a call after the first one.
func repeated(p *Path) bool {
	zero := p.ex.tt.Int(0)
	for _, e := range p.events {
		if (e.Kind == "atomic" && e.Name == "cas" || e.Kind == "once") && e.Chosen == 1 {
			return true
		}
		if e.Kind == "atomic" && e.Name == "swap" {
			if v, k := p.truth(e.Res); k && v {
				return true
			}
			if v, k := p.truth(p.ex.cmpEq(e.Res, zero)); k && !v {
				return true
			}
		}
		if e.Kind == "load" && isBool(e.Res.typ) {
			if v, k := p.truth(e.Res); k && v {
				return true
			}
		}
	}
	return false
}

// first: the event at i happens in at most one call: it follows a won compare-and-swap, or a once, or a flag that
// is tested and set under a lock.
func first(p *Path, i int) bool {
	for j := 0; j < i; j++ {
		e := p.events[j]
		if e.Kind == "once" && e.Chosen == 0 {
			return true
		}
		if e.Kind == "atomic" && e.Name == "cas" && e.Chosen == 0 {
			a, aok := p.linDiff(e.Args[1], nil)
			b, bok := p.linDiff(e.Args[2], nil)
			if isBool(e.Args[1].typ) {
				va, ka := p.truth(e.Args[1])
				vb, kb := p.truth(e.Args[2])
				if ka && kb && !va && vb {
					return true
				}
			} else if aok && bok && a == 0 && b != 0 {
				return true
			}
		}
		if e.Kind == "atomic" && e.Name == "swap" {
			if v, k := p.truth(e.Res); k && !v {
				return true
			}
			if n, ok := p.linDiff(e.Res, nil); ok && n == 0 {
				return true
			}
		}
		if e.Kind == "load" && isBool(e.Res.typ) {
			if v, k := p.truth(e.Res); !k || v {
				continue
			}
			for n, x := range p.events {
				if x.Kind == "store" && x.Args[0] == e.Args[0] && underOneLock(p, e, x) && n > j {
					if v, k := p.truth(x.Args[1]); k && v {
						return true
					}
				}
			}
		}
	}
	return false
}

// wsLock: the lock held at every message write of Write.
func (c *Check) wsLock(fn *ssa.Function, under *types.Var) *types.Var {
	ex := c.explore("websocket.Conn.Write", fn, c.adaptOpts())
	for _, p := range ex.paths {
		for i, e := range p.events {
			if isCall(e, "websocket.Conn).WriteMessage") {
				for l := range critSection(p, i) {
					if l.fieldVar() != nil {
						return l.fieldVar()
					}
				}
			}
		}
	}
	return nil
}

// lockedAt: on every path of f to the instruction, the lock is held.
func (c *Check) lockedAt(f *ssa.Function, in ssa.Instruction, lk *types.Var) bool {
	if lk == nil {
		return false
	}
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}
	ex := c.explore("writer "+top.String(), top, c.adaptOpts())
	seen := false
	for _, p := range ex.paths {
		for i, e := range p.events {
			if e.Instr != in {
				continue
			}
			seen = true
			ok := false
			held := map[*Term]bool{}
			for j := 0; j <= i; j++ {
				switch x := p.events[j]; x.Kind {
				case "lock":
					held[x.Args[0]] = true
				case "unlock":
					delete(held, x.Args[0])
				}
			}
			for l := range held {
				ok = ok || l.fieldVar() == lk
			}
			if !ok {
				return false
			}
		}
	}
	return seen
}

func (c *Check) wsRead(fn *ssa.Function, ct types.Type, under *types.Var) {
	ex := c.explore("websocket.Conn.Read", fn, c.adaptOpts())
	ps := ex.ParamTerms(fn)
	self, b := ps[0], ps[1]
	var buf *types.Var
	for _, v := range fieldsWhere(ct, func(v *types.Var) bool { return typeKey(v.Type()) == "[]uint8" || typeKey(v.Type()) == "[]byte" }) {
		buf = v
	}
	if buf == nil {
		c.need(nil, "the rest of a message kept by websocket.Conn")
		return
	}
	zero := ex.tt.Int(0)
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		if p.done != "return" || len(retOf(p).Args) != 2 {
			c.bad("read", "panic", fn.Pos(), p, "websocket.Conn.Read can panic")
			continue
		}
		c.ob("reads")
		ret := retOf(p)
		n, er := ret.Args[0], ret.Args[1]
		src := p.ex.tt.mk("init", "", buf.Type(), nil, p.ex.field(self, buf))
		failed, bad := false, false
		for _, e := range p.events {
			if !isCall(e, "websocket.Conn).ReadMessage") && !isCall(e, "websocket.Conn).NextReader") {
				continue
			}
			if isCall(e, "NextReader") {
				c.bad("read", "messages", e.Pos, p, "websocket.Conn.Read reads messages in a way this rule cannot follow")
				bad = true
				continue
			}
			if !onTransport(e.Args[0], self, under) {
				c.bad("read", "messages", e.Pos, p, "websocket.Conn.Read reads from something other than its connection")
				bad = true
			}
			if !failed && !p.eq(p.ex.lenOf(p.State, src), zero) && !p.isNull(src) {
				c.bad("read", "rest", e.Pos, p, "websocket.Conn.Read fetches the next message while bytes of the last one may be left")
				bad = true
			}
			if nl, kn := p.isNil(p.part(e.Res, 2)); !kn {
				c.bad("read", "failure", e.Pos, p, "websocket.Conn.Read does not look at the error of fetching a message")
				bad = true
			} else if !nl {
				failed = true
				continue
			}
			failed = false
			src = p.part(e.Res, 1)
		}
		if bad {
			continue
		}
		if failed {
			if nl, kn := p.isNil(er); !kn || nl {
				c.bad("read", "failure", ret.Pos, p, "websocket.Conn.Read does not return the error of fetching a message")
			}
			if !p.eq(n, zero) {
				c.bad("read", "failure", ret.Pos, p, "websocket.Conn.Read reports bytes although fetching a message failed")
			}
			continue
		}
		sb, sl, sn := p.span(src)
		at := zero
		for _, e := range p.events {
			switch {
			case e.Kind == "copy":
				db, dl, dn := p.span(e.Args[0])
				if db != b {
					continue
				}
				xb, xl, _ := p.span(e.Args[1])
				if !p.eq(dl, at) || !p.le(p.add(dl, dn), p.ex.lenOf(p.State, b)) {
					c.bad("read", "where", e.Pos, p, "websocket.Conn.Read does not put the bytes one after the other from the start of the buffer")
					bad = true
				}
				if xb != sb || !p.eq(xl, p.add(sl, at)) {
					c.bad("read", "what", e.Pos, p, "websocket.Conn.Read hands out other bytes than the next ones of the message")
					bad = true
				}
				if e.Res != nil {
					at = p.add(at, e.Res)
				}
			case e.Kind == "store" && e.Args[0].op == "idx" && sliceBase(e.Args[0].args[0]) == b:
				c.bad("read", "where", e.Pos, p, "websocket.Conn.Read changes single bytes of the buffer")
				bad = true
			}
		}
		if bad {
			continue
		}
		c.ob("bytes handed out")
		if !p.eq(n, at) {
			c.bad("read", "count", ret.Pos, p, "websocket.Conn.Read does not return the number of bytes it copied")
			continue
		}
		if !p.eq(n, sn) && !p.eq(n, p.ex.lenOf(p.State, b)) && n.op != "copyn" {
			if lo, _ := p.rng(n); lo < 1 {
				c.bad("read", "progress", ret.Pos, p, "websocket.Conn.Read returns nothing although there are bytes and room for them")
			}
		}
		if nl, kn := p.isNil(er); !kn || !nl {
			if !p.eq(n, zero) {
				c.bad("read", "error", ret.Pos, p, "websocket.Conn.Read returns bytes together with an error")
			} else {
				c.bad("read", "error", ret.Pos, p, "websocket.Conn.Read returns an error although no message failed")
			}
		}
		left := p.loadF(self, buf)
		lb, ll, ln := p.span(left)
		if p.isNull(left) || p.eq(ln, zero) {
			if !p.eq(n, sn) {
				c.bad("read", "lost", ret.Pos, p, "websocket.Conn.Read drops bytes that did not fit")
			}
		} else if lb != sb || !p.eq(ll, p.add(sl, n)) || !p.eq(ln, p.sub(sn, n)) {
			c.bad("read", "rest", ret.Pos, p, "websocket.Conn.Read does not keep exactly the bytes it has not handed out")
		}
	}
}

func (c *Check) wsWrite(fn *ssa.Function, under *types.Var) {
	ex := c.explore("websocket.Conn.Write", fn, c.adaptOpts())
	ps := ex.ParamTerms(fn)
	self, b := ps[0], ps[1]
	zero := ex.tt.Int(0)
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		if p.done != "return" || len(retOf(p).Args) != 2 {
			c.bad("write", "panic", fn.Pos(), p, "websocket.Conn.Write can panic")
			continue
		}
		c.ob("writes")
		ret := retOf(p)
		at := zero
		firstAt := -1
		failed := false
		for i, e := range p.events {
			if isCall(e, "websocket.Conn).NextWriter") || isCall(e, "websocket.Conn).WritePreparedMessage") {
				c.bad("write", "messages", e.Pos, p, "websocket.Conn.Write writes messages in a way this rule cannot follow")
			}
			if !isCall(e, "websocket.Conn).WriteMessage") {
				continue
			}
			if !onTransport(e.Args[0], self, under) {
				c.bad("write", "messages", e.Pos, p, "websocket.Conn.Write writes to something other than its connection")
			}
			if k, ok := e.Args[1].IntVal(); !ok || k != 2 {
				c.bad("write", "kind", e.Pos, p, "websocket.Conn.Write sends arbitrary bytes as something other than a binary message")
			}
			if !exclusive(p, i, self) || firstAt >= 0 && !sameSection(p, firstAt, i, self) {
				c.bad("write", "lock", e.Pos, p, "websocket.Conn.Write writes without holding the connection's lock: concurrent writes mix or fail")
			}
			if firstAt < 0 {
				firstAt = i
			}
			xb, xl, xn := p.span(e.Args[2])
			if xb != b || !p.eq(xl, at) {
				c.bad("write", "what", e.Pos, p, "websocket.Conn.Write does not write its argument from where the last message ended")
			}
			nl, kn := p.isNil(e.Res)
			if !kn {
				if ret.Args[1] != e.Res {
					c.bad("write", "failure", e.Pos, p, "websocket.Conn.Write does not look at the error of writing a message")
				}
				continue
			}
			if !nl {
				failed = true
			} else {
				at = p.add(at, xn)
			}
		}
		if failed {
			if nl, kn := p.isNil(ret.Args[1]); !kn || nl {
				c.bad("write", "failure", ret.Pos, p, "websocket.Conn.Write does not return the error of writing a message")
			}
		} else if nl, kn := p.isNil(ret.Args[1]); (!kn || nl) && !p.eq(at, p.ex.lenOf(p.State, b)) {
			c.bad("write", "all", ret.Pos, p, "websocket.Conn.Write returns without error before everything was written")
		}
		if !p.eq(ret.Args[0], at) {
			c.bad("write", "count", ret.Pos, p, "websocket.Conn.Write does not report exactly the bytes that were accepted")
		}
	}
}

// wraps: the value is a new connection object over the given transport.
func wraps(p *Path, t *Term, under *types.Var, tr *Term) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t.op == "alloc" && p.loadF(t, under) == tr
}

func (c *Check) wsListener() {
	ct, lt := c.w.Type(wsPkg, "Conn"), c.w.Type(wsPkg, "Listener")
	if ct == nil || lt == nil {
		return
	}
	under := embedded(ct, "websocket.Conn")
	hd, acc, cl, listen, dial := c.w.Fn(wsPkg, "Listener.Handler"), c.w.Fn(wsPkg, "Listener.Accept"), c.w.Fn(wsPkg, "Listener.Close"), c.w.Fn(wsPkg, "Listen"), c.w.Fn(wsPkg, "Dial")
	if under == nil || !c.need(hd, "websocket.Listener.Handler") || !c.need(acc, "websocket.Listener.Accept") || !c.need(cl, "websocket.Listener.Close") || !c.need(listen, "websocket.Listen") || !c.need(dial, "websocket.Dial") {
		return
	}
	// the channel Close closes
	var done *types.Var
	cx := c.explore("websocket.Listener.Close", cl, c.adaptOpts())
	self := cx.ParamTerms(cl)[0]
	for _, p := range cx.paths {
		c.ob("listener closes")
		closes := 0
		for i, e := range p.events {
			if e.Kind == "close" && loadBase(e.Args[0]) == self {
				done = loadField(e.Args[0])
				closes++
				if !first(p, i) {
					c.bad("close", "twice", e.Pos, p, "closing the websocket listener a second time closes its channel again")
				}
			}
		}
		if closes > 1 {
			c.bad("close", "twice", cl.Pos(), p, "websocket.Listener.Close closes a channel twice")
		}
		if closes == 0 && !repeated(p) || p.done != "return" {
			c.bad("close", "listener", cl.Pos(), p, "websocket.Listener.Close does not release a blocked accept")
		}
	}
	if done == nil {
		c.need(nil, "what websocket.Listener.Close closes")
		return
	}
	// accept
	var q *types.Var
	ax := c.explore("websocket.Listener.Accept", acc, c.adaptOpts())
	self = ax.ParamTerms(acc)[0]
	for _, p := range ax.paths {
		if p.done != "return" {
			continue
		}
		ret := retOf(p)
		var got *Term
		c.ob("accepts")
		for _, e := range p.events {
			if e.Kind != "select" && e.Kind != "recv" {
				continue
			}
			if e.Kind == "recv" && loadField(e.Args[0]) != done {
				c.bad("accept", "blocked", e.Pos, p, "closing the websocket listener does not release an accept blocked here")
				got = e.Res
				continue
			}
			if e.Kind == "recv" {
				continue
			}
			wakes := !e.Block
			for _, cs := range e.Cases {
				wakes = wakes || !cs.Send && loadField(cs.Ch) == done && loadBase(cs.Ch) == self
			}
			if !wakes {
				c.bad("accept", "blocked", e.Pos, p, "closing the websocket listener does not release an accept blocked here")
			}
			if e.Chosen >= 0 && !e.Cases[e.Chosen].Send && loadField(e.Cases[e.Chosen].Ch) != done {
				q = loadField(e.Cases[e.Chosen].Ch)
				got = e.Res
			}
		}
		nl, kn := p.isNil(ret.Args[1])
		switch {
		case got != nil:
			if !ret.Args[0].walk(func(x *Term) bool { return x == got }) || !kn || !nl {
				c.bad("accept", "dropped", ret.Pos, p, "websocket.Listener.Accept drops the connection it received")
			}
		case !kn || nl:
			c.bad("accept", "nothing", ret.Pos, p, "websocket.Listener.Accept returns neither a connection nor an error")
		}
	}
	if q == nil {
		c.need(nil, "the queue websocket.Listener.Accept takes connections from")
		return
	}
	// handler
	hx := c.explore("websocket.Listener.Handler", hd, c.adaptOpts())
	self = hx.ParamTerms(hd)[0]
	for _, p := range hx.paths {
		if p.done != "return" {
			c.bad("accept", "handler", hd.Pos(), p, "websocket.Listener.Handler can panic")
			continue
		}
		var conn *Term
		okUp := false
		n, closed := 0, 0
		for _, e := range p.events {
			if isCall(e, "websocket.Upgrader).Upgrade") {
				conn = p.part(e.Res, 0)
				nl, kn := p.isNil(p.part(e.Res, 1))
				okUp = kn && nl
			}
			var ch, v *Term
			wakes := false
			if e.Kind == "send" {
				ch, v = e.Args[0], e.Args[1]
			}
			if e.Kind == "select" {
				wakes = !e.Block
				for _, cs := range e.Cases {
					wakes = wakes || !cs.Send && loadField(cs.Ch) == done
				}
				if e.Chosen >= 0 && e.Cases[e.Chosen].Send {
					ch, v = e.Cases[e.Chosen].Ch, e.Cases[e.Chosen].Val
				}
			}
			if ch != nil && loadField(ch) == q && loadBase(ch) == self {
				n++
				if conn == nil || !wraps(p, v, under, conn) {
					c.bad("accept", "handler", e.Pos, p, "websocket.Listener.Handler queues something other than the new connection")
				}
				if !wakes {
					c.bad("accept", "handler", e.Pos, p, "websocket.Listener.Handler waits for room in a closed listener's queue for ever, with its connection open")
				}
			}
			if conn != nil && isCall(e, "websocket.Conn).Close") && e.Args[0] == conn {
				closed++
			}
		}
		c.ob("requests")
		switch {
		case conn == nil:
		case okUp && n+closed != 1:
			c.bad("accept", "handler", hd.Pos(), p, "websocket.Listener.Handler hands its connection on %d times and closes it %d times", n, closed)
		case !okUp && n > 0:
			c.bad("accept", "handler", hd.Pos(), p, "websocket.Listener.Handler queues a connection whose upgrade was not seen to succeed")
		}
	}
	// listen
	lx := c.explore("websocket.Listen", listen, c.adaptOpts())
	for _, p := range lx.paths {
		if p.done != "return" {
			continue
		}
		ret := retOf(p)
		l := ret.Args[0]
		for l.op == "iface" {
			l = l.args[0]
		}
		if l.op != "alloc" {
			if nl, kn := p.isNil(ret.Args[1]); !kn || nl {
				c.bad("accept", "listen", ret.Pos, p, "websocket.Listen returns neither a listener nor an error")
			}
			continue
		}
		c.ob("listeners made")
		if p.loadF(l, q).op != "makechan" || p.loadF(l, done).op != "makechan" {
			c.bad("accept", "listen", ret.Pos, p, "websocket.Listen leaves a channel of the listener unmade")
		}
		for _, v := range fieldsWhere(lt, func(v *types.Var) bool { return strings.HasSuffix(typeKey(v.Type()), "websocket.Upgrader") }) {
			if nl, kn := p.isNil(p.loadF(l, v)); !kn || nl {
				c.bad("accept", "listen", ret.Pos, p, "websocket.Listen can leave the listener without an upgrader")
			}
		}
	}
	c.dialResult("websocket.Dial", dial, under, "websocket.Dialer).Dial", 0, 2)
	c.floor("accepts", 2)
	c.floor("requests", 3)
	c.floor("listener closes", 2)
	c.floor("listeners made", 2)
}

// dialResult: the result of a dial.
func (c *Check) dialResult(name string, fn *ssa.Function, under *types.Var, call string, ci, ei int) {
	ex := c.explore(name, fn, c.adaptOpts())
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("dials")
		ret := retOf(p)
		var res *Term
		for _, e := range p.events {
			if isCall(e, call) || isCall(e, call+"Context") {
				res = e.Res
			}
		}
		nl, kn := p.isNil(ret.Args[1])
		if res == nil {
			if !kn || nl {
				c.bad("dial", name, ret.Pos, p, "%s returns without having opened a connection, and without an error", name)
			}
			continue
		}
		en, ek := p.isNil(p.part(res, ei))
		switch {
		case !ek:
			c.bad("dial", name, ret.Pos, p, "%s does not look at the error of opening the connection", name)
		case !en && (!kn || nl || !p.isNull(ret.Args[0])):
			c.bad("dial", name, ret.Pos, p, "%s returns a connection, or no error, although opening it failed", name)
		case en && (!kn || !nl || !wraps(p, ret.Args[0], under, p.part(res, ci))):
			c.bad("dial", name, ret.Pos, p, "%s does not return the connection it opened", name)
		}
	}
}

func (c *Check) quicConn() {
	ct, lt := c.w.Type(quicPkg, "Conn"), c.w.Type(quicPkg, "Listener")
	acc, cl, dial, listen := c.w.Fn(quicPkg, "Listener.Accept"), c.w.Fn(quicPkg, "Conn.Close"), c.w.Fn(quicPkg, "Dial"), c.w.Fn(quicPkg, "Listen")
	if ct == nil || lt == nil || !c.need(acc, "quic.Listener.Accept") || !c.need(cl, "quic.Conn.Close") || !c.need(dial, "quic.Dial") || !c.need(listen, "quic.Listen") {
		return
	}
	sess, str := embedded(ct, "quic-go.Connection"), embedded(ct, "quic-go.Stream")
	if sess == nil || str == nil {
		c.need(nil, "the session and the stream of quic.Conn")
		return
	}
	for _, m := range []string{"Read", "Write", "SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		fn := c.w.Fn(quicPkg, "Conn."+m)
		if !c.need(fn, "quic.Conn."+m) {
			continue
		}
		rule := map[bool]string{true: "deadline", false: strings.ToLower(m)}[strings.HasPrefix(m, "Set")]
		ex := c.explore("quic.Conn."+m, fn, c.adaptOpts())
		ps := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			c.ob("stream operations")
			ret := retOf(p)
			ok, r, w := false, false, false
			for _, e := range p.events {
				if e.Kind != "call" || len(e.Args) != 2 || !onTransport(e.Args[0], ps[0], str) || e.Args[1] != ps[1] {
					continue
				}
				if isCall(e, "."+m) || isCall(e, "SetDeadline") && rule == "deadline" {
					good := true
					for i, a := range ret.Args {
						x := e.Res
						if len(ret.Args) > 1 {
							x = p.part(e.Res, i)
						}
						if a != x && !(i == len(ret.Args)-1 && p.isNull(a) && p.isNull(x)) {
							good = false
						}
					}
					ok = ok || good
				}
				r = r || isCall(e, "SetReadDeadline")
				w = w || isCall(e, "SetWriteDeadline")
			}
			if m == "SetDeadline" && r && w {
				ok = true
			}
			if nl, kn := p.isNil(ret.Args[len(ret.Args)-1]); kn && !nl && rule == "deadline" {
				ok = true
			}
			if !ok {
				c.bad(rule, "quic.Conn."+m, ret.Pos, p, "quic.Conn.%s does not reach the stream", m)
			}
		}
	}
	ex := c.explore("quic.Conn.Close", cl, c.adaptOpts())
	self := ex.ParamTerms(cl)[0]
	for _, p := range ex.paths {
		c.ob("connection closes")
		w, r := false, false
		for _, e := range p.events {
			if e.Kind != "call" || len(e.Args) == 0 {
				continue
			}
			if onTransport(e.Args[0], self, str) {
				w = w || isCall(e, "Stream).Close")
				r = r || isCall(e, "Stream).CancelRead")
			}
			if onTransport(e.Args[0], self, sess) && isCall(e, "CloseWithError") {
				r, w = true, true
			}
		}
		if !(w && r) && !repeated(p) {
			c.bad("close", "quic.Conn.Close", cl.Pos(), p, "quic.Conn.Close leaves a direction of the stream open")
		}
	}
	// a new session: the stream is opened or the session is closed
	pairs := func(p *Path, name string, opened, stream string) (res *Term) {
		for i, e := range p.events {
			if !isCall(e, opened) {
				continue
			}
			if nl, kn := p.isNil(p.part(e.Res, 1)); !kn || !nl {
				if !kn {
					c.bad("accept", name, e.Pos, p, "%s does not look at the error of a new connection", name)
				}
				continue
			}
			conn := p.part(e.Res, 0)
			var st *Term
			closed := false
			for _, x := range p.events[i+1:] {
				if (isCall(x, "Connection).AcceptStream") || isCall(x, "Connection).OpenStreamSync") || isCall(x, "Connection).OpenStream")) && x.Args[0] == conn {
					if !strings.Contains(x.Name, stream) {
						c.bad("accept", name, x.Pos, p, "%s takes part in the stream on the wrong side", name)
					}
					if nl, kn := p.isNil(p.part(x.Res, 1)); kn && nl {
						st = p.part(x.Res, 0)
					}
				}
				closed = closed || isCall(x, "CloseWithError") && x.Args[0] == conn
			}
			c.ob("sessions")
			ret := retOf(p)
			handed := false
			if ret.Kind == "return" && len(ret.Args) == 2 && st != nil {
				handed = wraps(p, ret.Args[0], sess, conn) && wraps(p, ret.Args[0], str, st) && p.isNull(ret.Args[1])
				if handed {
					res = conn
				}
			}
			if handed && closed {
				c.bad("accept", name, ret.Pos, p, "%s returns a connection it has closed", name)
			}
			if !handed && !closed && p.done == "return" {
				c.bad("accept", name, e.Pos, p, "%s leaves a connection behind, neither returned nor closed", name)
			}
		}
		return
	}
	ax := c.explore("quic.Listener.Accept", acc, c.adaptOpts())
	for _, p := range ax.paths {
		if p.done == "panic" {
			c.bad("accept", "quic.Listener.Accept", acc.Pos(), p, "quic.Listener.Accept can panic")
		}
		got := pairs(p, "quic.Listener.Accept", "quic-go.Listener).Accept", "AcceptStream")
		if p.done != "return" {
			continue
		}
		c.ob("accepts")
		ret := retOf(p)
		// an error only when the listener itself has failed
		failed := false
		for _, e := range p.events {
			if isCall(e, "quic-go.Listener).Accept") {
				nl, kn := p.isNil(p.part(e.Res, 1))
				failed = kn && !nl
			}
		}
		nl, kn := p.isNil(ret.Args[1])
		switch {
		case failed && (!kn || nl):
			c.bad("accept", "quic.Listener.Accept", ret.Pos, p, "quic.Listener.Accept hides that the listener is closed")
		case !failed && got == nil:
			c.bad("accept", "quic.Listener.Accept", ret.Pos, p, "quic.Listener.Accept ends although only one connection failed: a server takes this for a failed listener")
		}
	}
	dx := c.explore("quic.Dial", dial, c.adaptOpts())
	for _, p := range dx.paths {
		if p.done != "return" {
			continue
		}
		c.ob("dials")
		got := pairs(p, "quic.Dial", "quic-go.DialAddr", "OpenStream")
		ret := retOf(p)
		if nl, kn := p.isNil(ret.Args[1]); got == nil && (!kn || nl) {
			c.bad("dial", "quic.Dial", ret.Pos, p, "quic.Dial returns neither a connection nor an error")
		}
	}
	under := embedded(lt, "quic-go.Listener")
	lx := c.explore("quic.Listen", listen, c.adaptOpts())
	for _, p := range lx.paths {
		if p.done != "return" {
			continue
		}
		c.ob("listeners made")
		ret := retOf(p)
		nl, kn := p.isNil(ret.Args[1])
		for _, e := range p.events {
			if isCall(e, "quic-go.ListenAddr") {
				en, ek := p.isNil(p.part(e.Res, 1))
				if !ek || en != nl || !kn || en && !wraps(p, ret.Args[0], under, p.part(e.Res, 0)) {
					c.bad("accept", "quic.Listen", ret.Pos, p, "quic.Listen does not return the listener it opened, or the error of opening it")
				}
			}
		}
	}
	for _, m := range []string{"Close"} {
		fn := c.w.Fn(quicPkg, "Listener."+m)
		if !c.need(fn, "quic.Listener."+m) {
			continue
		}
		mx := c.explore("quic.Listener."+m, fn, c.adaptOpts())
		for _, p := range mx.paths {
			c.ob("listener closes")
			ok := false
			for _, e := range p.events {
				ok = ok || isCall(e, "quic-go.Listener)."+m)
			}
			if !ok && !repeated(p) {
				c.bad("close", "quic.Listener.Close", fn.Pos(), p, "quic.Listener.Close leaves the listener open")
			}
		}
	}
	c.floor("connection closes", 2)
	c.floor("sessions", 3)
	c.floor("stream operations", 5)
	c.floor("dials", 4)
}
