package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = ruleC07
	checks["C08"] = ruleC08
	checks["C09"] = ruleC09
}

// ---- C07 ---------------------------------------------------------------------

// hbits: header bits by byte and position.
func (p *Path) hbits(buf *Term, from, n int) []bit {
	var out []bit
	for i := 0; i < n; i++ {
		k := from + i
		out = append(out, p.ex.tt.bitsOf(p.cell(buf, int64(k/8)), 8)[k%8])
	}
	return out
}

func sameBits(a, b []bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func zeros(n int) []bit { return make([]bit, n) }

type field struct {
	get, set string
	from, n  int // bit range in the header
}

var headerFields = []field{
	{"BodyLen", "SetBodyLen", 0, 32},
	{"Cmd", "SetCmd", 40, 6},
	{"IsStreamEOF", "SetStreamEOF", 46, 1},
	{"IsStreamLocal", "SetStreamLocal", 47, 1},
	{"IsError", "SetError", 48, 1},
	{"IsAsync", "SetAsync", 49, 1},
	{"MethodLen", "SetMethodLen", 56, 8},
	{"Seq", "SetSeq", 64, 64},
}

// boolIs: under every way the header bit can be, the boolean result equals it.
func (p *Path) boolIs(res *Term, b bit) bool {
	if v, ok := p.bitVal(b); ok {
		r, known := p.truth(res)
		return known && r == v
	}
	t := p.ex.tt.Bits([]bit{b, {}, {}, {}, {}, {}, {}, {}}, types.Typ[types.Uint8])
	one := p.ex.tt.Const(constInt(1), types.Typ[types.Uint8])
	for _, v := range []bool{true, false} {
		s := p.State.clone()
		if !p.ex.assume(s, p.ex.cmpEq(t, one), v) {
			continue
		}
		r, known := p.ex.decide(s, res)
		if !known || r != v {
			return false
		}
	}
	return true
}

// stored: the memory cells of objects that existed before which a path changed.
func (p *Path) stored(skip func(*Event) bool) []*Event {
	var out []*Event
	for _, e := range p.events {
		switch e.Kind {
		case "store":
			if op := e.Args[0].root().op; op == "alloc" {
				continue
			}
		case "copy", "mapset", "mapdel", "send", "close", "dyn", "go", "exec":
		default:
			continue
		}
		if skip == nil || !skip(e) {
			out = append(out, e)
		}
	}
	return out
}

func ruleC07(c *Check) {
	r := c.r
	c.rule("accessor", "the value returned by each header accessor consists of exactly the documented bits of the header, for every header content")
	c.rule("setter", "each header setter writes exactly its own bits: all other 128 bits of the header, and everything outside it, are left as they were")
	c.rule("fresh", "in a newly built message each of the 128 header bits is defined by the arguments (nothing is inherited from the buffer's previous content), the buffer is 16+len(method)+len(body) bytes, and method and body are copied behind the header")
	u8 := types.Typ[types.Uint8]
	for _, f := range headerFields {
		get, set := c.w.Fn("", "Message."+f.get), c.w.Fn("", "Message."+f.set)
		if c.need(get, "Message."+f.get) {
			ex := c.explore("Message."+f.get, get, c.std())
			for _, p := range ex.paths {
				if p.done != "return" {
					c.bad("accessor", f.get+" ends", get.Pos(), p, "Message.%s does not return on every path", f.get)
					continue
				}
				buf := p.buf(r, ex.ParamTerms(get)[0])
				want := p.hbits(buf, f.from, f.n)
				c.ob("accessor paths")
				ok := false
				if isBool(get.Signature.Results().At(0).Type()) {
					ok = p.boolIs(p.results[0], want[0])
				} else {
					w, _ := intSize(get.Signature.Results().At(0).Type())
					ok = sameBits(p.ex.tt.bitsOf(p.results[0], w), append(append([]bit{}, want...), zeros(w-f.n)...))
				}
				if !ok {
					c.bad("accessor", f.get, get.Pos(), p, "Message.%s does not return header bits %d..%d: it returns %s", f.get, f.from, f.from+f.n-1, p.results[0])
				}
				if ev := p.stored(nil); len(ev) > 0 {
					c.bad("accessor", f.get+" writes", ev[0].Pos, p, "Message.%s changes something", f.get)
				}
			}
		}
		if c.need(set, "Message."+f.set) {
			args := c.w.paramTerms(set)
			at := set.Params[1].Type()
			var want []bit
			if !isBool(at) {
				w, _ := intSize(at)
				want = c.w.tt.bitsOf(args[1], w)[:f.n]
				if f.n < 8 { // a command is at most 6 bits wide
					args[1] = c.w.tt.Bits(append(append([]bit{}, want...), zeros(w-f.n)...), at)
				}
			}
			o := c.std()
			o.Args = args
			ex := c.explore("Message."+f.set, set, o)
			for _, p := range ex.paths {
				if p.done != "return" {
					c.bad("setter", f.set+" ends", set.Pos(), p, "Message.%s does not return on every path", f.set)
					continue
				}
				w := want
				if isBool(at) {
					v, known := p.truth(args[1])
					if !known {
						w = nil
					} else {
						w = []bit{{one: v}}
					}
				}
				c.headerIs(p, f.set, set, args[0], func(old []bit) []bit {
					if w == nil {
						return nil
					}
					return append(append(append([]bit{}, old[:f.from]...), w...), old[f.from+f.n:]...)
				})
			}
		}
	}
	// numbered flag bits
	if get, set := c.w.Fn("", "Message.IsFlagBitSet"), c.w.Fn("", "Message.SetFlagBit"); c.need(get, "Message.IsFlagBitSet") && c.need(set, "Message.SetFlagBit") {
		for i := int64(-1); i <= 9; i++ {
			in := i >= 0 && i <= 7
			ga := c.w.paramTerms(get)
			ga[1] = c.w.tt.Int(i)
			o := c.std()
			o.Args = ga
			ex := c.explore(fmt.Sprintf("Message.IsFlagBitSet(%d)", i), get, o)
			for _, p := range ex.paths {
				c.ob("accessor paths")
				ok := p.done == "return"
				if ok && in {
					ok = p.boolIs(p.results[0], p.hbits(p.buf(r, ga[0]), 32+int(i), 1)[0])
				} else if ok {
					v, known := p.truth(p.results[0])
					ok = known && !v
				}
				if !ok || len(p.stored(nil)) > 0 {
					c.bad("accessor", "IsFlagBitSet", get.Pos(), p, "Message.IsFlagBitSet(%d) does not report bit %d of the flag byte (false outside 0-7)", i, i)
				}
			}
			sa := c.w.paramTerms(set)
			sa[1] = c.w.tt.Int(i)
			o = c.std()
			o.Args = sa
			ex = c.explore(fmt.Sprintf("Message.SetFlagBit(%d)", i), set, o)
			for _, p := range ex.paths {
				if p.done != "return" {
					c.bad("setter", "SetFlagBit ends", set.Pos(), p, "Message.SetFlagBit(%d) does not return", i)
					continue
				}
				err := p.errIs(p.results[0])
				if in && err != "nil" || !in && err != "err" {
					c.bad("setter", "SetFlagBit result", set.Pos(), p, "Message.SetFlagBit(%d) reports the wrong result", i)
				}
				v, known := p.truth(sa[2])
				c.headerIs(p, "SetFlagBit", set, sa[0], func(old []bit) []bit {
					if !in {
						return old
					}
					if !known {
						return nil
					}
					k := 32 + int(i)
					return append(append(append([]bit{}, old[:k]...), bit{one: v}), old[k+1:]...)
				})
			}
		}
	}
	if fn := c.w.Fn("", "Message.ResetAttrs"); c.need(fn, "Message.ResetAttrs") {
		ex := c.explore("Message.ResetAttrs", fn, c.std())
		for _, p := range ex.paths {
			c.headerIs(p, "ResetAttrs", fn, ex.ParamTerms(fn)[0], func(old []bit) []bit {
				return append(append(append([]bit{}, old[:32]...), zeros(32)...), old[64:]...)
			})
		}
	}
	if fn := c.w.Fn("", "Header.BodyLen"); c.need(fn, "Header.BodyLen") {
		ex := c.explore("Header.BodyLen", fn, c.std())
		for _, p := range ex.paths {
			c.ob("accessor paths")
			w, _ := intSize(types.Typ[types.Int])
			if p.done != "return" || !sameBits(p.ex.tt.bitsOf(p.results[0], w), append(p.hbits(ex.ParamTerms(fn)[0], 0, 32), zeros(w-32)...)) {
				c.bad("accessor", "Header.BodyLen", fn.Pos(), p, "Header.BodyLen does not return the first four bytes, little-endian")
			}
		}
	}
	c.bodyAccessors()
	// construction
	for _, name := range []string{"NewMessage"} {
		fn := c.w.Fn("", name)
		if !c.need(fn, name) {
			continue
		}
		c.freshMessage(name, fn)
	}
	if fn := c.w.HFn("NewMessage"); c.need(fn, "Handler.NewMessage") {
		c.freshMessage("Handler.NewMessage", fn)
	}
	_ = u8
	c.floor("accessor paths", 16)
	c.floor("setter paths", 20)
	c.floor("new messages", 2)
}

func (w *World) paramTerms(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		out = append(out, w.ParamTerm(fn, i, p.Type()))
	}
	return out
}

// headerIs: after the path the header of m equals want(old header), nothing else was written.
func (c *Check) headerIs(p *Path, name string, fn *ssa.Function, m *Term, want func([]bit) []bit) {
	c.ob("setter paths")
	if p.done != "return" {
		c.bad("setter", name+" ends", fn.Pos(), p, "Message.%s does not return on every path", name)
		return
	}
	r := c.r
	bf := p.ex.tt.mk("init", "", r.buffer.Type(), nil, p.ex.field(m, r.buffer))
	if p.buf(r, m) != bf {
		c.bad("setter", name+" buffer", fn.Pos(), p, "Message.%s replaces the buffer", name)
		return
	}
	var old []bit
	for i := 0; i < 16; i++ {
		cell := p.ex.idx(bf, p.ex.tt.Int(int64(i)), types.Typ[types.Uint8])
		old = append(old, p.ex.tt.bitsOf(p.ex.tt.mk("init", "", types.Typ[types.Uint8], nil, cell), 8)...)
	}
	now := p.hbits(bf, 0, 128)
	w := want(old)
	if w == nil {
		c.bad("setter", name+" value", fn.Pos(), p, "Message.%s does not depend on its argument", name)
		return
	}
	for i := range now {
		if now[i] != w[i] {
			nv, nk := p.bitVal(now[i])
			wv, wk := p.bitVal(w[i])
			if nk && wk && nv == wv {
				continue
			}
			c.bad("setter", name, fn.Pos(), p, "Message.%s changes header bit %d of byte %d it must not, or sets it to the wrong value", name, i%8, i/8)
			return
		}
	}
	for _, e := range p.stored(nil) {
		if e.Kind == "store" && e.Args[0].op == "idx" && e.Args[0].args[0] == bf {
			if n, ok := e.Args[0].args[1].IntVal(); ok && n >= 0 && n < 16 {
				continue
			}
		}
		c.bad("setter", name+" outside", e.Pos, p, "Message.%s changes something outside the header", name)
	}
}

func (c *Check) bodyAccessors() {
	r := c.r
	u8 := types.Typ[types.Uint8]
	_ = u8
	for _, name := range []string{"Method", "Data", "Len"} {
		fn := c.w.Fn("", "Message."+name)
		if !c.need(fn, "Message."+name) {
			continue
		}
		ex := c.explore("Message."+name, fn, c.std())
		for _, p := range ex.paths {
			c.ob("accessor paths")
			if p.done != "return" {
				c.bad("accessor", name+" ends", fn.Pos(), p, "Message.%s does not return", name)
				continue
			}
			buf := p.buf(r, ex.ParamTerms(fn)[0])
			ml := p.cell(buf, 7)
			t := p.results[0]
			lo, hi := int64(0), int64(0)
			ok := true
			switch name {
			case "Len":
				ok = t == p.ex.lenOf(p.State, buf)
			default:
				for t.op == "conv" || t.op == "b2s" {
					t = t.args[0]
				}
				lo, ok = p.linDiff(t.argOr(1), ml)
				ok = ok && t.op == "slice" && t.args[0] == buf && lo == 16
				if name == "Method" {
					lo, ok = p.linDiff(t.argOr(1), nil)
					hi2, ok2 := p.linDiff(t.argOr(2), ml)
					ok = ok && ok2 && t.op == "slice" && t.args[0] == buf && lo == 16 && hi2 == 16
				} else if ok {
					ok = t.args[2] == p.ex.lenOf(p.State, buf)
				}
			}
			_ = hi
			if !ok {
				c.bad("accessor", name, fn.Pos(), p, "Message.%s returns %s", name, p.results[0])
			}
			if len(p.stored(nil)) > 0 {
				c.bad("accessor", name+" writes", fn.Pos(), p, "Message.%s changes something", name)
			}
		}
	}
}

func (t *Term) argOr(i int) *Term {
	if i < len(t.args) {
		return t.args[i]
	}
	return t
}

// linDiff: t - o as a constant.
func (p *Path) linDiff(t, o *Term) (int64, bool) {
	l := toLin(t, 0)
	if o != nil {
		l = l.sub(toLin(o, 0))
	}
	lo, hi, _ := p.ex.rng(p.State, l)
	return lo, lo == hi
}

func (c *Check) freshMessage(name string, fn *ssa.Function) {
	r := c.r
	args := c.w.paramTerms(fn)
	by := map[string]*Term{}
	idx := map[string]int{}
	for i, p := range fn.Params {
		by[p.Name()] = args[i]
		idx[p.Name()] = i
	}
	pick := func(t string, nth int) *Term {
		for i, p := range fn.Params {
			if typeKey(p.Type()) == t {
				if nth == 0 {
					return args[i]
				}
				nth--
			}
		}
		return nil
	}
	cmd, method, seq, isErr, isAsync := pick("uint8", 0), pick("string", 0), pick("uint64", 0), pick("bool", 0), pick("bool", 1)
	if cmd == nil || method == nil || seq == nil || isErr == nil || isAsync == nil {
		c.bad("anchor", name+" signature", fn.Pos(), nil, "%s does not take a command, a method, two flags and a sequence number any more", name)
		return
	}
	cb := c.w.tt.bitsOf(cmd, 8)[:6]
	for i := range args {
		if args[i] == cmd {
			args[i] = c.w.tt.Bits(append(append([]bit{}, cb...), zeros(2)...), cmd.typ)
		}
	}
	o := c.std()
	o.Args = args
	ex := c.explore(name, fn, o)
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("new messages")
		m := p.results[0]
		buf := p.buf(r, m)
		var data *Term
		for _, e := range p.events {
			if isCall(e, "util.ValueToBytes") {
				data = e.Res
			}
		}
		if data == nil {
			c.bad("fresh", name+" body", fn.Pos(), p, "%s does not convert its value", name)
			continue
		}
		ml, dl := p.ex.lenOf(p.State, method), p.ex.lenOf(p.State, data)
		total := p.ex.arith(token.ADD, ml, dl, types.Typ[types.Int])
		if d, ok := p.linDiff(p.ex.lenOf(p.State, buf), total); !ok || d != 16 {
			c.bad("fresh", name+" size", fn.Pos(), p, "%s builds a buffer of %s bytes instead of 16+len(method)+len(body)", name, p.ex.lenOf(p.State, buf))
		}
		e1, k1 := p.truth(isErr)
		e2, k2 := p.truth(isAsync)
		if !k1 || !k2 {
			c.bad("fresh", name+" flags", fn.Pos(), p, "%s ignores its error or async argument", name)
			continue
		}
		var want []bit
		want = append(want, c.w.tt.bitsOf(total, 64)[:32]...)
		want = append(want, zeros(8)...)
		want = append(want, cb...)
		want = append(want, zeros(2)...)
		want = append(want, bit{one: e1}, bit{one: e2})
		want = append(want, zeros(6)...)
		want = append(want, c.w.tt.bitsOf(ml, 64)[:8]...)
		want = append(want, c.w.tt.bitsOf(seq, 64)...)
		now := p.hbits(buf, 0, 128)
		for i := range now {
			if now[i] != want[i] {
				c.bad("fresh", fmt.Sprintf("%s byte %d", name, i/8), fn.Pos(), p, "%s leaves bit %d of header byte %d undefined or wrong (%v)", name, i%8, i/8, now[i])
				break
			}
		}
		gotM, gotD := false, false
		for _, e := range p.events {
			if e.Kind != "copy" || sliceBase(e.Args[0]) != buf {
				continue
			}
			lo := p.ex.tt.Int(0)
			if e.Args[0].op == "slice" {
				lo = e.Args[0].args[1]
			}
			src := e.Args[1]
			for src.op == "conv" || src.op == "s2b" {
				src = src.args[0]
			}
			hi := p.ex.lenOf(p.State, buf)
			if e.Args[0].op == "slice" && len(e.Args[0].args) > 2 {
				hi = e.Args[0].args[2]
			}
			need := ml
			if src == data {
				need = total
			}
			if room, _, _ := p.ex.rng(p.State, toLin(hi, 0).sub(toLin(need, 0))); room < 16 {
				c.bad("fresh", name+" room", e.Pos, p, "%s leaves less room for the method or body than they have bytes", name)
			}
			if d, ok := p.linDiff(lo, nil); ok && d == 16 && src == method {
				gotM = true
				continue
			}
			if d, ok := p.linDiff(lo, ml); ok && d == 16 && src == data {
				gotD = true
				continue
			}
			c.bad("fresh", name+" copy", e.Pos, p, "%s copies something else into the message", name)
		}
		if !gotM || !gotD {
			c.bad("fresh", name+" content", fn.Pos(), p, "%s does not place method and body behind the header", name)
		}
	}
}

// ---- C08 ---------------------------------------------------------------------

func readFull(e *Event) (*Term, *Term) {
	if e.Kind == "call" && strings.HasSuffix(e.Name, "io.ReadFull") && len(e.Args) == 2 {
		return e.Args[0], e.Args[1]
	}
	if e.Kind == "call" && strings.HasSuffix(e.Name, "io.ReadAtLeast") && len(e.Args) == 3 {
		return e.Args[0], e.Args[1]
	}
	return nil, nil
}

func ruleC08(c *Check) {
	r := c.r
	c.rule("bounded", "receiving allocates the message only where the announced length is known not to exceed the configured maximum, and allocates exactly 16 bytes more than announced")
	c.rule("exact", "receiving reads the 4 length bytes, then exactly the rest of the 16+announced bytes, into the message whose first 4 bytes are the announced length; it reports success only if both reads succeeded")
	c.rule("fail-ends", "in the goroutine that reads a connection a message is dispatched once, right after the receive that produced it succeeded; after a failed receive nothing is received again before the connection was closed and replaced")
	fn := c.w.HFn("Recv")
	if c.need(fn, "Handler.Recv") {
		ex := c.explore("Handler.Recv", fn, c.std())
		for _, p := range ex.paths {
			c.recvPath(fn, p)
		}
	}
	// the length buffer is four bytes wherever a client is built
	heads := 0
	for _, f := range c.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != r.head {
					continue
				}
				heads++
				n := int64(-1)
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				switch x := v.(type) {
				case *ssa.MakeSlice:
					if k, ok := x.Len.(*ssa.Const); ok {
						n = k.Int64()
					}
				case *ssa.Slice:
					if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok && x.Low == nil {
							n = a.Len()
							if x.High != nil {
								n = -1
								if k, ok := x.High.(*ssa.Const); ok {
									n = k.Int64()
								}
							}
						}
					}
				}
				c.ob("length buffers")
				if n != 4 {
					c.bad("exact", "head "+fnName(f), st.Pos(), nil, "a client is built in %s with a length buffer that is not 4 bytes", fnName(f))
				}
			}
		}
	}
	recv, _ := r.loops()
	if len(recv) == 0 {
		c.need(nil, "goroutine reading a connection")
	}
	for _, fn := range recv {
		for _, p := range c.recvLoop(fn).paths {
			c.recvLoopPath(p)
		}
	}
	c.floor("allocations", 1)
	c.floor("length buffers", 1)
	c.floor("dispatches", 4)
	c.floor("failed receives", 4)
}

// recvLoop explores a reading goroutine with receive and dispatch kept as single steps.
func (c *Check) recvLoop(fn *ssa.Function) *Ex {
	o := c.std()
	op0 := o.Opaque
	rf, mf := c.w.HFn("Recv"), c.w.HFn("OnMessage")
	memo := map[*ssa.Function]bool{}
	o.Opaque = func(f *ssa.Function) bool {
		if f == rf || f == mf || op0(f) {
			return true
		}
		v, ok := memo[f]
		if !ok {
			v = !c.w.touches(f, c.r.conn, c.r.reader) && !callsParam(f)
			memo[f] = v
		}
		return v
	}
	o.NoSpawn = c.w.loopSpawn()
	return c.explore("reader "+fnName(fn), fn, o)
}

func (c *Check) isRecvCall(e *Event) bool {
	return e.Kind == "call" && e.Name == c.w.HFn("Recv").String()
}

func (c *Check) isDispatch(e *Event) bool {
	return e.Kind == "call" && e.Name == c.w.HFn("OnMessage").String()
}

func (c *Check) recvLoopPath(p *Path) {
	r := c.r
	var last *Event
	used := false
	closed, replaced := false, false
	var cur *Term
	for _, e := range p.events {
		if e.G != 0 {
			continue
		}
		switch {
		case c.isRecvCall(e):
			if last != nil && p.errIs(p.ex.extract(last.Res, 1, nil)) != "nil" {
				c.ob("failed receives")
				if p.errIs(p.ex.extract(last.Res, 1, nil)) == "?" {
					c.bad("fail-ends", "unchecked", last.Pos, p, "the reading goroutine does not look at the error of a receive")
				} else if !closed || !replaced {
					c.bad("fail-ends", "again", e.Pos, p, "after a failed receive the reading goroutine receives again on the same connection")
				}
			}
			last, used, closed, replaced = e, false, false, false
		case c.isDispatch(e):
			c.ob("dispatches")
			if last == nil || e.Args[2] != p.ex.extract(last.Res, 0, nil) {
				c.bad("fail-ends", "other message", e.Pos, p, "the reading goroutine dispatches something other than the message just received")
				continue
			}
			if p.errIs(p.ex.extract(last.Res, 1, nil)) != "nil" {
				c.bad("fail-ends", "partial", e.Pos, p, "the reading goroutine dispatches a message although receiving it failed")
			}
			if used {
				c.bad("fail-ends", "twice", e.Pos, p, "the reading goroutine dispatches a message twice")
			}
			used = true
		case e.Kind == "call" && strings.HasSuffix(e.Name, "net.Conn).Close"):
			if loadField(e.Args[0]) == r.conn || cur != nil && e.Args[0] == cur {
				closed = true
			}
		case e.Kind == "store" && e.Args[0].fieldVar() == r.conn:
			replaced = true
			cur = e.Args[1]
		}
	}
	if p.done == "return" && last != nil && p.errIs(p.ex.extract(last.Res, 1, nil)) == "nil" && !used {
		c.bad("fail-ends", "lost", last.Pos, p, "a received message is not dispatched")
	}
}

func (c *Check) recvPath(fn *ssa.Function, p *Path) {
	r := c.r
	if p.done != "return" {
		if p.done == "panic" {
			c.bad("exact", "panics", fn.Pos(), p, "receiving can panic")
		}
		return
	}
	args := p.ex.ParamTerms(fn)
	cl := args[1]
	var reads []*Event
	for i, e := range p.events {
		if rd, b := readFull(e); b != nil {
			if loadField(rd) != r.reader || loadBase(rd) != cl {
				c.bad("exact", "reader", e.Pos, p, "receiving reads from something other than the client's reader")
			}
			reads = append(reads, e)
			continue
		}
		if e.Kind == "call" && (strings.HasSuffix(e.Name, ").Read") || strings.HasSuffix(e.Name, "io.ReadAll")) {
			c.bad("exact", "plain read", e.Pos, p, "receiving uses a read that may return fewer bytes than asked for")
		}
		if e.Kind == "call" && c.isMalloc(e) || e.Kind == "makeslice" {
			c.ob("allocations")
			size := e.Args[len(e.Args)-1]
			if e.Kind == "makeslice" {
				size = e.Args[0]
			}
			if len(reads) != 1 {
				c.bad("bounded", "order", e.Pos, p, "memory is allocated before the length was read")
				continue
			}
			_, hb := readFull(reads[0])
			ann := c.announced(p, hb)
			if d, ok := p.linDiff(size, ann); !ok || d != 16 {
				c.bad("bounded", "size", e.Pos, p, "receiving allocates %s bytes, not 16 more than announced", size)
			}
			max := p.loadF(args[0], c.maxBody())
			lo, _, _ := p.ex.rng(p.State, toLin(max, 0).sub(toLin(ann, 0)))
			if lo < 0 {
				c.bad("bounded", "limit", e.Pos, p, "memory for a frame is allocated although its announced length may exceed the configured maximum")
			}
			_ = i
		}
	}
	if p.errIs(p.results[1]) != "nil" {
		for _, e := range reads {
			_ = e
		}
		if p.errIs(p.results[1]) == "err" {
			return
		}
	}
	// success (or unknown): both reads done and nil
	c.ob("received frames")
	if len(reads) != 2 {
		c.bad("exact", "reads", fn.Pos(), p, "receiving succeeds after %d complete reads instead of 2 (length, rest)", len(reads))
		return
	}
	_, hb := readFull(reads[0])
	if loadField(hb) != r.head && !(hb.op == "slice" && loadField(hb.args[0]) == r.head && hb.args[1] == p.ex.tt.Int(0) && hb.args[2] == p.ex.lenOf(p.State, hb.args[0])) {
		if n, ok := p.ex.lenOf(p.State, hb).IntVal(); !ok || n != 4 {
			c.bad("exact", "length bytes", reads[0].Pos, p, "the length of a frame is not read from exactly its first 4 bytes")
		}
	}
	for k, e := range reads {
		if st := p.errIs(p.ex.extract(e.Res, 1, nil)); st != "nil" && !(k == 1 && p.results[1] == p.ex.extract(e.Res, 1, nil)) {
			c.bad("exact", "error", e.Pos, p, "receiving can report success although a read failed")
		}
	}
	m := p.results[0]
	buf := p.buf(r, m)
	_, rest := readFull(reads[1])
	ann := c.announced(p, hb)
	if d, ok := p.linDiff(p.ex.lenOf(p.State, buf), ann); !ok || d != 16 {
		c.bad("exact", "buffer", fn.Pos(), p, "the received message has %s bytes, not 16 more than announced", p.ex.lenOf(p.State, buf))
	}
	if !(rest.op == "slice" && rest.args[0] == buf && rest.args[1] == p.ex.tt.Int(4) && rest.args[2] == p.ex.lenOf(p.State, buf)) {
		c.bad("exact", "rest", reads[1].Pos, p, "the second read does not fill exactly the rest of the message (%s)", rest)
	}
	if !sameBits(p.hbits(buf, 0, 32), p.ex.tt.bitsOf(ann, 64)[:32]) {
		c.bad("exact", "length kept", fn.Pos(), p, "the received message's length field is not the announced length")
	}
}

// announced: the length in the bytes read into hb, as the path last read them.
func (c *Check) announced(p *Path, hb *Term) *Term {
	var bs []bit
	for i := int64(0); i < 4; i++ {
		bs = append(bs, p.ex.tt.bitsOf(p.cell(hb, i), 8)...)
	}
	return p.ex.tt.Bits(append(bs, zeros(32)...), types.Typ[types.Int])
}

func (c *Check) isMalloc(e *Event) bool {
	return e.Kind == "call" && e.Name == c.w.HFn("Malloc").String()
}

// maxBody: the handler field SetMaxBodyLen sets.
func (c *Check) maxBody() *types.Var {
	fn := c.w.HFn("SetMaxBodyLen")
	var v *types.Var
	if fn != nil {
		visitFns(c.w, fn, 2, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.r.handler) {
							v = structOf(fa.X.Type()).Field(fa.Field)
						}
					}
				}
			}
		})
	}
	return v
}

// ---- C09 ---------------------------------------------------------------------

func ruleC09(c *Check) {
	r := c.r
	c.rule("outgoing", "on every path of a call or notification on which a message is queued or written, the method name is known to be 1 to 127 bytes long; a name outside that range makes it return an error")
	c.rule("registered", "a name enters the table of methods or stream methods only where it is known to be at most 127 bytes long")
	c.rule("incoming", "an incoming message reaches a method, stream, pending call or callback only where its method length is known to be 1 to 127 and to fit into its body")
	c.rule("no more", "and no other name is refused: names of 1 and of 127 bytes are sent, registered and dispatched, and a message may consist of nothing but its method")
	span := map[string][3]int64{}
	at := map[string]token.Pos{}
	note := func(what string, pos token.Pos, lo, hi, room int64) {
		at[what] = pos
		s, ok := span[what]
		if !ok {
			s = [3]int64{lo, hi, room}
		}
		span[what] = [3]int64{min(s[0], lo), max(s[1], hi), min(s[2], room)}
	}
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext", "Client.CallAsync", "Client.Notify", "Client.NotifyWith", "Client.NotifyContext") {
		ex := c.exploreOp(op)
		var method *Term
		for i, pr := range op.fn.Params {
			if typeKey(pr.Type()) == "string" {
				method = ex.ParamTerms(op.fn)[i]
				break
			}
		}
		for _, p := range ex.paths {
			for _, e := range p.events {
				cn, _ := r.written(e)
				if r.queued(e) == nil && cn == nil {
					continue
				}
				c.ob("messages handed over")
				lo, hi := p.rng(p.ex.lenOf(p.State, method))
				note(op.name, op.fn.Pos(), lo, hi, 16)
				if lo < 1 || hi > 127 {
					c.bad("outgoing", op.name, e.Pos, p, "%s sends a message although its method name may be empty or longer than 127 bytes", op.name)
				}
			}
			if p.done == "return" {
				lo, hi := p.rng(p.ex.lenOf(p.State, method))
				if (hi < 1 || lo > 127) && p.errIs(p.results[0]) != "err" {
					c.bad("outgoing", op.name+" result", op.fn.Pos(), p, "%s with an invalid method name does not return an error", op.name)
				}
			}
		}
	}
	for _, n := range []string{"Handle", "HandleNotFound", "HandleStream"} {
		fn := c.w.HFn(n)
		if !c.need(fn, "Handler."+n) {
			continue
		}
		o := c.std()
		ex := c.explore("Handler."+n, fn, o)
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind != "mapset" {
					continue
				}
				f := loadField(e.Args[0])
				mt, _ := e.Args[0].typeUnder().(*types.Map)
				if f == nil && mt != nil { // a table that was just made
					if f2 := r.streamRoutes; types.Identical(mt, f2.Type().Underlying()) {
						f = f2
					} else if types.Identical(mt, r.routes.Type().Underlying()) {
						f = r.routes
					}
				}
				if f != r.routes && f != r.streamRoutes {
					continue
				}
				c.ob("registrations")
				if n != "HandleNotFound" {
					lo, hi := p.rng(p.ex.lenOf(p.State, e.Args[1]))
					note("Handler."+n, fn.Pos(), lo, hi, 16)
				}
				if _, hi := p.rng(p.ex.lenOf(p.State, e.Args[1])); hi > 127 {
					c.bad("registered", n, e.Pos, p, "Handler.%s registers a name that may be longer than 127 bytes", n)
				}
			}
		}
	}
	ex := c.onMessagePaths()
	if ex == nil {
		return
	}
	for _, p := range ex.paths {
		msg := c.dispatched(p)
		buf := p.buf(r, msg)
		for _, e := range p.events {
			hit := false
			if e.Kind == "mapget" {
				f := loadField(e.Args[0])
				hit = f == r.routes || f == r.streamRoutes || f == r.sessions || f == r.asyncs || f == r.streamsL || f == r.streamsR
			}
			if e.Kind == "dyn" {
				hit = true
				for _, v := range r.hook {
					if loadField(e.Args[0]) == v {
						hit = false
					}
				}
			}
			if !hit {
				continue
			}
			c.ob("incoming messages")
			ml := p.cell(buf, 7)
			lo, hi := p.rng(ml)
			room, _, _ := p.ex.rng(p.State, toLin(p.ex.lenOf(p.State, buf), 0).sub(toLin(ml, 0)))
			if cmdKind(p, r, msg) != "other" {
				note("an incoming "+cmdKind(p, r, msg), c.w.HFn("OnMessage").Pos(), lo, hi, room)
			}
			if lo < 1 || hi > 127 || room < 16 {
				c.bad("incoming", cmdKind(p, r, msg), e.Pos, p, "an incoming message is acted on although its method length may be 0, above 127 or longer than its body (known: %d..%d, room %d)", lo, hi, room)
			}
		}
	}
	for what, sp := range span {
		c.ob("accepted ranges")
		if sp[0] > 1 || sp[1] < 127 || sp[2] > 16 {
			c.bad("no more", what, at[what], nil, "%s accepts only names of %d to %d bytes followed by at least %d bytes of body", what, sp[0], sp[1], sp[2]-16)
		}
	}
	c.floor("accepted ranges", 12)
	c.floor("messages handed over", 10)
	c.floor("registrations", 3)
	c.floor("incoming messages", 8)
}

func cmdKind(p *Path, r *Roles, msg *Term) string {
	n, ok := p.cmdOf(r, msg)
	if !ok {
		return "other"
	}
	return cmdName(n)
}
