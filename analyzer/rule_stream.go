package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = ruleC22
	checks["C23"] = ruleC23
}

type streamRoles struct {
	id, cli, method, local *types.Var
	recv, send, cnt        *types.Var // one-way state of each direction, number of closed directions
}

func (c *Check) streams() *streamRoles {
	r := c.r
	k := &streamRoles{}
	one := func(p func(*types.Var) bool) *types.Var {
		for _, v := range fieldsWhere(r.stream, p) {
			return v
		}
		return nil
	}
	k.id = one(func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	})
	k.cli = one(func(v *types.Var) bool { return types.Identical(v.Type(), types.NewPointer(r.client)) })
	k.method = one(func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	})
	k.local = one(func(v *types.Var) bool { return isBool(v.Type()) })
	if k.id == nil || k.cli == nil || k.method == nil || k.local == nil {
		c.need(nil, "stream id, client, method and side")
		return nil
	}
	first := func(name string) *types.Var {
		fn := c.w.Fn("", name)
		if !c.need(fn, name) {
			return nil
		}
		o := c.std()
		o.RunSpawned = true
		ex := c.explore("stream "+name, fn, o)
		st := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind == "atomic" && e.Name == "cas" && e.Args[0].op == "field" && e.Args[0].args[0] == st {
					return e.Args[0].fieldVar()
				}
			}
		}
		c.bad("close-once", name, fn.Pos(), nil, "%s does not claim its direction atomically: two concurrent closes both take effect", name)
		return nil
	}
	k.recv, k.send = first("Stream.CloseRecv"), first("Stream.CloseSend")
	if k.recv == nil || k.send == nil {
		return nil
	}
	if fn := c.w.Fn("", "Stream.CloseRecv"); fn != nil {
		ex := c.explore("stream Stream.CloseRecv", fn, c.std())
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind == "atomic" && e.Name == "add" && e.Args[0].op == "field" && structOf(r.stream) != nil && e.Args[0].args[0] == ex.ParamTerms(fn)[0] {
					k.cnt = e.Args[0].fieldVar()
				}
			}
		}
	}
	return k
}

// claimed: the path claimed the direction for stream s before event i.
func claimed(p *Path, v *types.Var, s *Term, i int) bool {
	for j := 0; j < i; j++ {
		e := p.events[j]
		if e.Kind == "atomic" && e.Name == "cas" && e.Chosen != 1 && e.Args[0].fieldVar() == v && (s == nil || e.Args[0].args[0] == s) && !e.Args[2].eqInt(0) && e.Args[1].eqInt(0) {
			return true
		}
	}
	return false
}

func (t *Term) eqInt(n int64) bool {
	k, ok := t.IntVal()
	return ok && k == n
}

// seenOpen: the direction's state was read as not closed before event i.
func (p *Path) seenOpen(v *types.Var, s *Term, i int) bool {
	for j := 0; j < i; j++ {
		e := p.events[j]
		if e.Kind == "atomic" && e.Name == "load" && e.Args[0].fieldVar() == v && e.Args[0].args[0] == s {
			lo, hi := p.rng(e.Res)
			if hi == 0 && lo == 0 {
				return true
			}
			if is, known := p.truth(p.ex.cmpEq(e.Res, p.ex.tt.Const(constInt(1), e.Res.typ))); known && !is {
				return true
			}
		}
	}
	return false
}

func (p *Path) seenClosed(v *types.Var, s *Term, i int) bool {
	for j := 0; j < i; j++ {
		e := p.events[j]
		if e.Kind != "atomic" || e.Args[0].fieldVar() != v || e.Args[0].args[0] != s {
			continue
		}
		if e.Name == "cas" && e.Chosen == 1 {
			return true
		}
		if e.Name == "load" {
			if is, known := p.truth(p.ex.cmpEq(e.Res, p.ex.tt.Const(constInt(1), e.Res.typ))); known && is {
				return true
			}
		}
	}
	return false
}

// dataOf: the stream whose data queue this channel is.
func (c *Check) dataOf(p *Path, ch *Term) *Term {
	if loadField(ch) == c.r.strData {
		return loadBase(ch)
	}
	for k, v := range p.State.mem {
		if v == ch && k.op == "field" && k.fieldVar() == c.r.strData {
			return k.args[0]
		}
	}
	return nil
}

// enqueued: the event offers a message to a stream's data queue.
func (c *Check) enqueued(p *Path, e *Event) (stream, msg *Term) {
	if e.Kind == "send" {
		if s := c.dataOf(p, e.Args[0]); s != nil {
			return s, e.Args[1]
		}
	}
	if e.Kind == "select" {
		for _, cs := range e.Cases {
			if cs.Send {
				if s := c.dataOf(p, cs.Ch); s != nil {
					return s, cs.Val
				}
			}
		}
	}
	return nil, nil
}

var streamSends = map[string]bool{ // operation -> carries the end mark
	"Stream.Send": false, "Stream.SendContext": false, "Stream.SendWith": false,
	"Stream.SendAndClose": true, "Stream.SendAndCloseContext": true, "Stream.SendAndCloseWith": true,
	"Stream.CloseSend": true, "Stream.CloseSendContext": true,
}

// streamOp explores a sending operation with building the message opaque.
func (c *Check) streamOp(name string) (*ssa.Function, *Ex) {
	fn := c.w.Fn("", name)
	if !c.need(fn, name) {
		return nil, nil
	}
	mk := c.w.Fn("", "newMessage")
	drop := c.w.Fn("", "Client.dropMessage")
	o := c.withCoders(c.std(), fn, 0)
	op0 := o.Opaque
	o.Opaque = func(f *ssa.Function) bool { return f == mk || f == drop || op0(f) }
	o.RunSpawned = true
	return fn, c.explore("stream send "+name, fn, o)
}

func ruleC22(c *Check) {
	r := c.r
	c.rule("data-first", "a receive that returns neither data nor the end has found the stream's queue empty and open; the end is reported exactly if the queue was found closed and drained, and every data message received is the one decoded into the caller's value")
	c.rule("in-order", "the goroutine that reads the connection itself puts a non-empty stream message into its stream's queue, waiting only for room or shutdown, and closes the receiving direction after that exactly if the message carries the end mark")
	c.rule("close-once", "the data queue is closed only after atomically claiming the receiving direction, which happens at most once per stream; nothing is put into a queue without having seen that direction open")
	c.rule("refused", "a message is handed over by a sending operation only after its direction was seen open (data) or atomically claimed (end mark); otherwise nothing is sent and the closed error is returned; the end mark is set on exactly the messages of closing operations, at most one per claim")
	c.rule("forgotten", "claiming a direction counts it closed exactly once, and the count reaching two removes the stream under its own id from the table of its own side")
	k := c.streams()
	if k == nil {
		return
	}
	c.streamRecv(k)
	c.streamState(k)
	c.streamDispatch(k)
	for name, eof := range streamSends {
		c.streamSend(k, name, eof)
	}
	if k.cnt == nil {
		c.bad("forgotten", "count", token.NoPos, nil, "closing a direction of a stream is not counted: the stream is never forgotten")
	} else {
		c.forgotten(k)
	}
	_ = r
	c.floor("receives", 6)
	c.floor("stream messages delivered", 4)
	c.floor("hand-overs by streams", 8)
	c.floor("claims", 4)
}

func (c *Check) streamRecv(k *streamRoles) {
	r := c.r
	for _, n := range []string{"Stream.Recv", "Stream.RecvContext", "Stream.RecvWith"} {
		fn := c.w.Fn("", n)
		if !c.need(fn, n) {
			continue
		}
		ex := c.explore("stream "+n, fn, c.std())
		ps := ex.ParamTerms(fn)
		st, dst := ps[0], ps[len(ps)-1]
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			c.ob("receives")
			if p.done != "return" {
				c.bad("data-first", n+" panic", fn.Pos(), p, "%s can end in a panic", n)
				continue
			}
			missed, ended := false, false
			var got []*Term
			for _, e := range p.events {
				if e.Kind == "atomic" && e.Name == "cas" && e.Args[0].fieldVar() == k.recv && e.Args[0].args[0] == st && !ended {
					c.bad("data-first", n+" closes", e.Pos, p, "%s closes the receiving direction although the queue was not found ended: data still to come is lost", n)
				}
				if e.Kind == "recv" && loadField(e.Args[0]) == r.strData && loadBase(e.Args[0]) == st {
					if e.Name == "closed" {
						ended = true
					} else {
						got = append(got, e.Res)
					}
				}
				if e.Kind != "select" {
					continue
				}
				has := -1
				for i, cs := range e.Cases {
					if !cs.Send && loadField(cs.Ch) == r.strData && loadBase(cs.Ch) == st {
						has = i
					}
				}
				if has < 0 {
					if e.Block {
						c.bad("data-first", n+" blind", e.Pos, p, "%s waits without watching the stream's queue", n)
					}
					continue
				}
				if ended || len(got) > 0 {
					c.bad("data-first", n+" again", e.Pos, p, "%s goes back to the queue after it already received something", n)
				}
				switch {
				case e.Chosen == has && e.Name == "closed":
					ended = true
				case e.Chosen == has:
					got = append(got, e.Res)
				case e.Chosen < 0:
					missed = true
				}
			}
			res := p.results[0]
			isEOF := strings.HasSuffix(strings.TrimPrefix(res.String(), "*&"), "io.EOF")
			switch {
			case ended:
				if !isEOF {
					c.bad("data-first", n+" end", fn.Pos(), p, "%s finds the stream ended and does not report the end", n)
				}
			case len(got) == 1:
				ok := false
				for _, e := range p.events {
					if isCall(e, "util.BytesToValue") && e.Args[2] == dst && c.isData(p, e.Args[1], got[0]) {
						ok = true
						if res != e.Res {
							c.bad("data-first", n+" result", e.Pos, p, "%s does not return the outcome of decoding", n)
						}
					}
				}
				if !ok {
					c.bad("data-first", n+" lost", fn.Pos(), p, "%s takes a message from the queue and does not decode its data into the caller's value", n)
				}
			case len(got) > 1:
				c.bad("data-first", n+" two", fn.Pos(), p, "%s takes more than one message from the queue", n)
			default:
				if isEOF {
					c.bad("data-first", n+" early end", fn.Pos(), p, "%s reports the end without having found the queue closed and drained", n)
				}
				if p.errIs(res) != "err" {
					c.bad("data-first", n+" nothing", fn.Pos(), p, "%s reports success without data", n)
				}
				if !missed {
					c.bad("data-first", n, fn.Pos(), p, "%s gives up (shutdown, limit) although received data or the end mark may be waiting: which one it returns is left to chance", n)
				}
			}
		}
	}
}

// isData: t is the payload of message m.
func (c *Check) isData(p *Path, t, m *Term) bool {
	b := p.buf(c.r, m)
	base := sliceBase(t)
	return base == b && t.op == "slice" && t.args[1] != nil && func() bool {
		d := toLin(t.args[1], 0).sub(toLin(p.cell(b, 7), 0))
		lo, hi := p.ex.rangeOf(p.State, d)
		return lo == 16 && hi == 16 && p.eq(t.args[2], p.ex.lenOf(p.State, b))
	}()
}

// streamState: who writes the states and closes or fills the queue.
func (c *Check) streamState(k *streamRoles) {
	r := c.r
	for _, fn := range c.w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					v := structOf(fa.X.Type()).Field(fa.Field)
					if v == k.recv || v == k.send || v == k.cnt && v != nil {
						c.bad("close-once", fnName(fn), in.Pos(), nil, "%s sets %s directly: a claimed direction can be claimed again", fnName(fn), v.Name())
					}
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || len(x.Call.Args) == 0 {
						continue
					}
					fa, ok := x.Call.Args[0].(*ssa.FieldAddr)
					if !ok {
						continue
					}
					v := structOf(fa.X.Type()).Field(fa.Field)
					if v != k.recv && v != k.send {
						continue
					}
					c.ob("uses of the direction states")
					switch {
					case strings.HasPrefix(g.Name(), "Load"):
					case strings.HasPrefix(g.Name(), "CompareAndSwap"):
						o, ok1 := constOf(x.Call.Args[1])
						n, ok2 := constOf(x.Call.Args[2])
						if !ok1 || !ok2 || o != 0 || n == 0 {
							c.bad("close-once", fnName(fn), in.Pos(), nil, "%s moves %s other than from open to closed", fnName(fn), v.Name())
						}
					default:
						c.bad("close-once", fnName(fn), in.Pos(), nil, "%s changes %s other than by claiming it", fnName(fn), v.Name())
					}
				}
			}
		}
	}
	// closes and sends on the queue, from every root that reaches one
	roots := c.rootsTouching(func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case ssa.CallInstruction:
			b, ok := x.Common().Value.(*ssa.Builtin)
			return ok && b.Name() == "close" && isFieldLoad(x.Common().Args[0], r.strData)
		case *ssa.Send:
			return isFieldLoad(x.Chan, r.strData)
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && isFieldLoad(s.Chan, r.strData) {
					return true
				}
			}
		}
		return false
	})
	for _, fn := range roots {
		o := c.withCoders(c.std(), fn, 0)
		o.RunSpawned, o.MaxLoop = true, 1
		o.NoSpawn = c.w.loopSpawn()
		ex := c.explore("stream root "+fn.String(), fn, o)
		for _, p := range ex.paths {
			nclose := map[*Term]int{}
			for i, e := range p.events {
				if e.Kind == "close" {
					if s := c.dataOf(p, e.Args[0]); s != nil {
						c.ob("closes of a stream queue")
						nclose[s]++
						if !claimed(p, k.recv, s, i) {
							c.bad("close-once", "unclaimed close", e.Pos, p, "a stream's data queue is closed without having claimed its receiving direction")
						}
						if nclose[s] > 1 {
							c.bad("close-once", "twice", e.Pos, p, "a stream's data queue is closed twice")
						}
					}
				}
				if s, m := c.enqueued(p, e); s != nil {
					c.ob("offers to a stream queue")
					if !p.seenOpen(k.recv, s, i) {
						c.bad("close-once", "unseen", e.Pos, p, "a message is put into a stream's queue without having looked whether it is closed")
					}
					_ = m
				}
			}
		}
	}
	c.floor("closes of a stream queue", 1)
	c.floor("offers to a stream queue", 1)
	c.floor("uses of the direction states", 4)
}

func constOf(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	return k.Int64(), true
}

type streamMsg struct {
	p        *Path
	msg, buf *Term
	cl       *Term
	num      *Term
	local    bool // opened by the side that sent it
	lknown   bool
	eof      bool
	eknown   bool
	invalid  bool
}

// streamMsgs: the dispatch paths of stream messages.
func (c *Check) streamMsgs() []*streamMsg {
	fn := c.w.HFn("OnMessage")
	ex := c.onMessageN(0)
	if ex == nil {
		return nil
	}
	args := ex.ParamTerms(fn)
	msg, cl := args[2], args[1]
	var out []*streamMsg
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		cmd, known := p.cmdOf(c.r, msg)
		if !known || cmd != 6 {
			for _, e := range p.events {
				if known && cmd != 6 {
					if s, _ := c.enqueued(p, e); s != nil {
						c.bad("in-order", "kind", e.Pos, p, "a message that is not a stream message (command %d) is put into a stream", cmd)
					}
				}
			}
			continue
		}
		m := &streamMsg{p: p, msg: msg, cl: cl, buf: p.buf(c.r, msg)}
		m.num = p.u64(m.buf, 8)
		bs := p.ex.tt.bitsOf(p.cell(m.buf, 5), 8)
		m.local, m.lknown = p.bitVal(bs[7])
		m.eof, m.eknown = p.bitVal(bs[6])
		ml := p.cell(m.buf, 7)
		lo, hi := p.rng(ml)
		_, rh := p.ex.rangeOf(p.State, toLin(p.ex.lenOf(p.State, m.buf), 0).sub(toLin(ml, 0)))
		m.invalid = hi < 1 || lo > 127 || rh < 16
		out = append(out, m)
	}
	return out
}

func (c *Check) streamDispatch(k *streamRoles) {
	r := c.r
	for _, m := range c.streamMsgs() {
		p := m.p
		if m.invalid {
			continue
		}
		var target *Term
		for _, e := range p.events {
			if e.Kind == "mapget" && (loadField(e.Args[0]) == r.streamsL || loadField(e.Args[0]) == r.streamsR) && e.Chosen != 1 && !e.Res.IsNil() {
				target = e.Res
			}
			if e.Kind == "mapset" && (loadField(e.Args[0]) == r.streamsL || loadField(e.Args[0]) == r.streamsR) {
				target = e.Args[2]
			}
		}
		if target == nil {
			continue
		}
		c.ob("stream messages delivered")
		_, hi := p.ex.rangeOf(p.State, toLin(p.ex.lenOf(p.State, m.buf), 0).sub(toLin(p.cell(m.buf, 7), 0)))
		empty := hi <= 16
		enq := -1
		for i, e := range p.events {
			s, v := c.enqueued(p, e)
			if s == nil {
				continue
			}
			if enq >= 0 {
				c.bad("in-order", "twice", e.Pos, p, "a stream message is put into a queue twice")
			}
			enq = i
			if s != target || v != m.msg {
				c.bad("in-order", "wrong", e.Pos, p, "a stream message is put into the queue of another stream, or another message is")
			}
			if e.G != 0 {
				c.bad("in-order", "goroutine", e.Pos, p, "a stream message is put into its queue by another goroutine than the reading one: messages can overtake each other and the end mark")
			}
			if e.Kind == "select" {
				if !e.Block {
					c.bad("in-order", "dropped", e.Pos, p, "a stream message is dropped when its queue is full")
				}
				for _, cs := range e.Cases {
					if !cs.Send && !r.onClose(cs.Ch) && !r.onStop(cs.Ch) {
						c.bad("in-order", "abandoned", e.Pos, p, "putting a stream message into its queue can be abandoned for something other than shutdown")
					}
				}
			}
		}
		claim, first := -1, -1
		for i, e := range p.events {
			if e.Kind == "atomic" && e.Name == "cas" && e.Args[0].fieldVar() == k.recv && e.Args[0].args[0] == target && e.GKind == "" {
				claim = i
				if first < 0 {
					first = i
				}
			}
		}
		// only somebody else's closing excuses a message that is not queued
		upto := len(p.events)
		if first >= 0 {
			upto = first
		}
		if enq < 0 && !empty && !p.seenClosed(k.recv, target, upto) {
			c.bad("in-order", "lost", m.pos(c), p, "a non-empty stream message is not put into its stream's queue")
		}
		if !m.eknown {
			if claim >= 0 || true {
				c.bad("in-order", "mark unread", m.pos(c), p, "a stream message is dispatched without looking at its end mark")
			}
			continue
		}
		if m.eof && (claim < 0 || first < enq) {
			c.bad("in-order", "end", m.pos(c), p, "the end mark of a stream message does not close the receiving direction after its data was queued")
		}
		if !m.eof && claim >= 0 {
			c.bad("in-order", "early end", p.events[claim].Pos, p, "a stream message without end mark closes the receiving direction")
		}
	}
}

func (m *streamMsg) pos(c *Check) token.Pos { return c.w.HFn("OnMessage").Pos() }

func (c *Check) streamSend(k *streamRoles, name string, wantEOF bool) {
	r := c.r
	fn, ex := c.streamOp(name)
	if ex == nil {
		return
	}
	st := ex.ParamTerms(fn)[0]
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		sent := 0
		for i, e := range p.events {
			m := r.queued(e)
			if cn, b := r.written(e); cn != nil {
				m = msgOfBuf(p, r, b)
			}
			if m == nil {
				continue
			}
			sent++
			c.ob("hand-overs by streams")
			eof, known := p.bitVal(p.ex.tt.bitsOf(p.cell(p.buf(r, m), 5), 8)[6])
			if !known || eof != wantEOF {
				c.bad("refused", name+" mark", e.Pos, p, "%s sends a message whose end mark is not %v", name, wantEOF)
			}
			if wantEOF {
				if !claimed(p, k.send, st, i) {
					c.bad("refused", name+" claim", e.Pos, p, "%s sends the end mark without having claimed the sending direction: it can be sent twice", name)
				}
			} else if !p.seenOpen(k.send, st, i) {
				c.bad("refused", name+" unseen", e.Pos, p, "%s sends data without having looked whether the sending direction is closed", name)
			}
			if p.seenClosed(k.send, st, i) {
				c.bad("refused", name, e.Pos, p, "%s sends although it found the sending direction closed", name)
			}
		}
		if sent > 1 {
			c.bad("refused", name+" twice", fn.Pos(), p, "%s sends %d messages", name, sent)
		}
		if p.seenClosed(k.send, st, len(p.events)) && len(p.results) == 1 {
			if g := errGlobal(p.results[0]); g != "ErrStreamClosedSend" {
				c.bad("refused", name+" error", fn.Pos(), p, "%s on a closed sending direction does not return the closed error", name)
			}
		}
		if wantEOF && sent == 0 && claimed(p, k.send, st, len(p.events)) && p.done == "return" {
			// only a state error keeps the mark from being offered
			refused := false
			for _, e := range p.events {
				if e.Kind == "select" || isCall(e, "net.Conn).Close") {
					refused = true
				}
			}
			for t, v := range p.State.facts {
				if t.op == "ver" && len(t.args) == 1 {
					f := t.args[0].fieldVar()
					if f == r.running && !v || f == r.reconnecting && v {
						refused = true
					}
				}
			}
			if !refused {
				c.bad("refused", name+" no mark", fn.Pos(), p, "%s closes the sending direction without telling the peer", name)
			}
		}
	}
}

// forgotten: counting closed directions and dropping the stream.
func (c *Check) forgotten(k *streamRoles) {
	r := c.r
	names := []string{"Stream.CloseRecv", "Stream.CloseRecvContext"}
	for n, eof := range streamSends {
		if eof {
			names = append(names, n)
		}
	}
	for _, n := range names {
		var fn *ssa.Function
		var ex *Ex
		if strings.Contains(n, "Recv") {
			if fn = c.w.Fn("", n); !c.need(fn, n) {
				continue
			}
			o := c.std()
			o.RunSpawned = true
			ex = c.explore("stream "+n+" all", fn, o)
		} else {
			fn, ex = c.streamOp(n)
		}
		if ex == nil {
			continue
		}
		st := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			claims, adds := 0, 0
			for i, e := range p.events {
				if e.Kind != "atomic" || e.Args[0].op != "field" || e.Args[0].args[0] != st {
					continue
				}
				if e.Name == "cas" && e.Chosen != 1 {
					claims++
				}
				if e.Name != "load" && e.Args[0].fieldVar() == k.cnt {
					adds++
					if d, ok := constDelta(e); !ok || d != 1 {
						c.bad("forgotten", n+" step", e.Pos, p, "%s does not count one closed direction", n)
					}
					two, known := p.truth(p.ex.cmpEq(e.Res, p.ex.tt.Const(constInt(2), e.Res.typ)))
					if !known {
						c.bad("forgotten", n+" blind", e.Pos, p, "%s does not look whether both directions are closed", n)
						continue
					}
					c.forgets(k, n, p, st, i, two)
				}
			}
			c.ob("claims")
			if claims != adds {
				c.bad("forgotten", n, fn.Pos(), p, "%s claims %d directions and counts %d", n, claims, adds)
			}
		}
	}
	_ = r
}

func (c *Check) forgets(k *streamRoles, n string, p *Path, st *Term, i int, both bool) {
	r := c.r
	dels := 0
	stopped := false
	for t, v := range p.State.facts {
		if t.op == "ver" && len(t.args) == 1 && t.args[0].fieldVar() == r.running && !v {
			stopped = true
		}
	}
	for _, e := range p.events[i+1:] {
		if e.Kind != "mapdel" {
			continue
		}
		f := loadField(e.Args[0])
		if f != r.streamsL && f != r.streamsR {
			continue
		}
		dels++
		loc, known := p.truth(p.loadF(st, k.local))
		if !known || loc != (f == r.streamsL) {
			c.bad("forgotten", n+" side", e.Pos, p, "%s forgets a stream of the other side", n)
		}
		if e.Args[1] != p.loadF(st, k.id) {
			c.bad("forgotten", n+" id", e.Pos, p, "%s forgets a stream with another id", n)
		}
	}
	if both && dels != 1 && !(dels == 0 && stopped) {
		c.bad("forgotten", n+" kept", p.events[i].Pos, p, "%s closes the second direction and the stream is not forgotten", n)
	}
	if !both && dels > 0 {
		c.bad("forgotten", n+" early", p.events[i].Pos, p, "%s forgets the stream although only one direction is closed", n)
	}
}

// C23 -------------------------------------------------------------------------

func ruleC23(c *Check) {
	r := c.r
	c.rule("by-side-and-id", "an incoming stream message is looked up exactly once, under its sequence number, in the table of streams opened here if it was not opened by its sender and in the other table if it was; it is put into the stream found there and nowhere else")
	c.rule("open-once", "only a message of a stream its sender opened, with an id not in the table and a registered stream method, opens a stream: one, registered under that id on the peer's side, with the method of the message, and the handler of that entry runs once with it - inline or through the executor as registered; any other unmatched message is released and starts nothing")
	c.rule("stamped", "every message a stream sends is a stream message with the stream's own id, method and side mark")
	c.rule("new", "opening a stream here takes a fresh sequence number as its id and registers it under that id among the streams opened here")
	k := c.streams()
	if k == nil {
		return
	}
	var async, sh *types.Var
	if m, ok := r.streamRoutes.Type().Underlying().(*types.Map); ok {
		for _, v := range fieldsWhere(deref(m.Elem()), func(*types.Var) bool { return true }) {
			if isBool(v.Type()) {
				async = v
			}
			if _, ok := v.Type().Underlying().(*types.Signature); ok {
				sh = v
			}
		}
	}
	if async == nil || sh == nil {
		c.need(nil, "stream handler record")
		return
	}
	for _, m := range c.streamMsgs() {
		if !m.invalid {
			c.routed(k, m, async, sh)
		}
	}
	c.newStreams(k)
	for name := range streamSends {
		fn, ex := c.streamOp(name)
		if ex == nil {
			continue
		}
		st := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			for _, e := range p.events {
				m := r.queued(e)
				if cn, b := r.written(e); cn != nil {
					m = msgOfBuf(p, r, b)
					if m == nil {
						c.bad("stamped", name+" bytes", e.Pos, p, "%s writes something other than a message", name)
					}
				}
				if m == nil {
					continue
				}
				c.ob("stamped messages")
				c.stamped(k, name, p, e, m, st)
			}
		}
	}
	c.floor("stream messages routed", 6)
	c.floor("streams opened by a message", 2)
	c.floor("unmatched stream messages", 2)
	c.floor("stamped messages", 8)
	c.floor("streams opened here", 1)
}

func (c *Check) stamped(k *streamRoles, name string, p *Path, at *Event, m, st *Term) {
	r := c.r
	var mkE *Event
	for _, e := range p.events {
		if e.Kind == "call" && e.Res == m && strings.HasSuffix(e.Name, ".newMessage") {
			mkE = e
		}
	}
	if mkE == nil {
		c.bad("stamped", name+" origin", at.Pos, p, "%s sends a message it did not build", name)
		return
	}
	if mkE.Args[0].eqInt(6) == false {
		c.bad("stamped", name+" kind", mkE.Pos, p, "%s builds something other than a stream message", name)
	}
	if mkE.Args[1] != p.loadF(st, k.method) {
		c.bad("stamped", name+" method", mkE.Pos, p, "%s builds a message with another method than the stream's", name)
	}
	if mkE.Args[5] != p.loadF(st, k.id) {
		c.bad("stamped", name+" id", mkE.Pos, p, "%s builds a message with another id than the stream's", name)
	}
	loc, known := p.truth(p.loadF(st, k.local))
	bit := p.ex.tt.bitsOf(p.cell(p.buf(r, m), 5), 8)[7]
	b, bk := p.bitVal(bit)
	if known && bk && b == loc {
		return
	}
	if p.boolIs(p.loadF(st, k.local), bit) {
		return
	}
	c.bad("stamped", name+" side", at.Pos, p, "%s sends a message whose side mark is not the stream's side", name)
}

func (c *Check) newStreams(k *streamRoles) {
	r := c.r
	fn := c.w.Fn("", "Client.NewStream")
	if !c.need(fn, "Client.NewStream") {
		return
	}
	ex := c.explore("NewStream", fn, c.std())
	ps := ex.ParamTerms(fn)
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("streams opened here")
		s := p.results[0]
		id := p.loadF(s, k.id)
		fresh := false
		for _, e := range p.events {
			if e.Kind == "atomic" && e.Name == "add" && e.Res == id && e.Args[0].fieldVar() == r.seq && e.Args[0].args[0] == ps[0] && e.Args[1].eqInt(1) {
				fresh = true
			}
		}
		if !fresh {
			c.bad("new", "id", fn.Pos(), p, "NewStream's id is not a fresh sequence number")
		}
		if p.loadF(s, k.method) != ps[1] || p.loadF(s, k.cli) != ps[0] {
			c.bad("new", "fields", fn.Pos(), p, "NewStream's stream does not carry the given method and client")
		}
		if b, ok := p.loadF(s, k.local).BoolVal(); !ok || !b {
			c.bad("new", "side", fn.Pos(), p, "NewStream's stream is not marked as opened here")
		}
		n := 0
		for _, e := range p.events {
			if e.Kind == "mapset" {
				if loadField(e.Args[0]) == r.streamsL && e.Args[1] == id && e.Args[2] == s {
					n++
				} else {
					c.bad("new", "table", e.Pos, p, "NewStream registers something else than its stream under its id")
				}
			}
		}
		if n != 1 {
			c.bad("new", "registered", fn.Pos(), p, "NewStream registers its stream %d times", n)
		}
	}
}

func (c *Check) routed(k *streamRoles, m *streamMsg, async, sh *types.Var) {
	r := c.r
	p := m.p
	c.ob("stream messages routed")
	isT := func(t *Term) bool { return loadField(t) == r.streamsL || loadField(t) == r.streamsR }
	looks := 0
	var found *Term
	for _, e := range p.events {
		if e.Kind != "mapget" || !isT(e.Args[0]) {
			continue
		}
		looks++
		if e.Args[1] != m.num {
			c.bad("by-side-and-id", "key", e.Pos, p, "a stream message is looked up under something other than its id")
		}
		if !m.lknown || (loadField(e.Args[0]) == r.streamsR) != m.local {
			c.bad("by-side-and-id", "table", e.Pos, p, "a stream message is looked up in the table of the wrong side")
		}
		if e.Chosen != 1 && !e.Res.IsNil() {
			found = e.Res
		}
	}
	if looks != 1 {
		c.bad("by-side-and-id", "lookups", m.pos(c), p, "a stream message is looked up %d times: a known stream is taken for an unknown one", looks)
		return
	}
	var opened *Term
	for i, e := range p.events {
		switch {
		case e.Kind == "mapset" && isT(e.Args[0]):
			if opened != nil || found != nil {
				c.bad("open-once", "again", e.Pos, p, "a message for a known stream opens another one")
			}
			opened = e.Args[2]
			if loadField(e.Args[0]) != r.streamsR || e.Args[1] != m.num {
				c.bad("open-once", "table", e.Pos, p, "a stream opened by the peer is registered under another id or side")
			}
			if !m.lknown || !m.local {
				c.bad("open-once", "reply", e.Pos, p, "a message for a stream opened here that is gone opens a new stream")
			}
		case e.Kind == "mapdel" && isT(e.Args[0]):
			// the stream found is the one registered under its own id on its own side
			own := found != nil && loadField(e.Args[1]) == k.id && loadBase(e.Args[1]) == found
			if !own && (e.Args[1] != m.num || (loadField(e.Args[0]) == r.streamsR) != m.local) {
				c.bad("by-side-and-id", "forgets", e.Pos, p, "a stream message removes another stream than its own")
			}
			if !m.eknown || !m.eof {
				c.bad("by-side-and-id", "forgets open", e.Pos, p, "a stream message without end mark removes its stream")
			}
		}
		if s, _ := c.enqueued(p, e); s != nil && s != found && s != opened {
			c.bad("by-side-and-id", "foreign", e.Pos, p, "a stream message is put into a stream it does not belong to")
		}
		_ = i
	}
	// the registered entry
	var entry *Term
	for _, e := range p.events {
		if e.Kind == "mapget" && loadField(e.Args[0]) == r.streamRoutes {
			if !c.methodKey(p, e.Args[1], m.buf) {
				c.bad("open-once", "method", e.Pos, p, "the stream handler is looked up under something other than the message's method")
			}
			if e.Chosen != 1 && !e.Res.IsNil() {
				entry = e.Res
			}
		}
	}
	runs, inl, exec := 0, 0, 0
	for _, e := range p.events {
		if e.Kind == "exec" {
			exec++
		}
		if e.Kind == "dyn" && loadField(e.Args[0]) == sh {
			runs++
			if loadBase(e.Args[0]) != entry || len(e.Args) != 2 || e.Args[1] != opened || opened == nil {
				c.bad("open-once", "handler", e.Pos, p, "a stream handler runs with something other than the stream opened for it")
			}
			if e.GKind == "" {
				inl++
			}
		}
	}
	if opened == nil {
		if runs+exec > 0 {
			c.bad("open-once", "no stream", m.pos(c), p, "a stream handler runs although no stream was opened")
		}
		if found == nil {
			c.ob("unmatched stream messages")
			if entry != nil && m.lknown && m.local {
				c.bad("open-once", "not opened", m.pos(c), p, "the first message of a registered stream method opens no stream")
			}
			done := 0
			for _, e := range p.events {
				if r.isHook(e, "HandleMessageDone") {
					done++
				}
			}
			if nl, known := p.isNil(c.hookTerm(p, "HandleMessageDone")); done != 1 && !(known && nl) {
				c.bad("open-once", "leak", m.pos(c), p, "an unmatched stream message is released %d times", done)
			}
		}
		return
	}
	c.ob("streams opened by a message")
	if entry == nil {
		c.bad("open-once", "unregistered", m.pos(c), p, "a stream is opened without a registered handler")
		return
	}
	if p.loadF(opened, k.id) != m.num || p.loadF(opened, k.cli) != m.cl || !c.methodKey(p, p.loadF(opened, k.method), m.buf) {
		c.bad("open-once", "fields", m.pos(c), p, "a stream opened by the peer does not carry the message's id and method")
	} else if mm := p.loadF(opened, k.method); c.r.msgAlias(mm) != nil {
		c.bad("open-once", "method view", m.pos(c), p, "a stream opened by the peer keeps a view of the message's bytes as its method: it changes when the message is released")
	}
	if b, ok := p.loadF(opened, k.local).BoolVal(); !ok || b {
		c.bad("open-once", "side", m.pos(c), p, "a stream opened by the peer is marked as opened here")
	}
	as, known := p.truth(p.loadF(entry, async))
	if !known {
		c.bad("open-once", "mode", m.pos(c), p, "a stream handler is started without looking how it was registered")
		return
	}
	if runs != 1 {
		c.bad("open-once", "runs", m.pos(c), p, "the handler of an opened stream runs %d times", runs)
	}
	if as != (exec == 1) || !as && inl != 1 {
		c.bad("open-once", "mode", m.pos(c), p, "the handler of an opened stream is not run as registered (inline or through the executor)")
	}
}

// hookTerm: the current value of a hook of the dispatching handler.
func (c *Check) hookTerm(p *Path, setter string) *Term {
	fn := c.w.HFn("OnMessage")
	return p.loadF(p.ex.ParamTerms(fn)[0], c.r.hook[setter])
}
