package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C40"] = ruleC40
}

// ruleC40: buffers of the allocators.
func ruleC40(c *Check) {
	c.rule("size", "an allocation returns a buffer of exactly the requested length, and slices no buffer beyond its capacity to do so")
	c.rule("contents", "growing keeps the bytes held; appending returns the bytes held followed by exactly the appended ones")
	c.rule("owner", "memory given back to the pool is given back once, whole, and is no part of what the operation returns")
	c.rule("delegate", "the package functions and a handler pass size, buffer and bytes on unchanged, and allocate plainly where nothing is registered")
	for _, t := range []string{"BufferPool", "NativeAllocator"} {
		for _, m := range []string{"Malloc", "Realloc", "Append", "AppendString", "Free"} {
			fn := c.w.Fn("", t+"."+m)
			if fn == nil && t == "NativeAllocator" {
				continue
			}
			if !c.need(fn, t+"."+m) {
				continue
			}
			c.poolOp(t+"."+m, m, fn)
		}
	}
	c.poolNew()
	for _, m := range []string{"Malloc", "Realloc", "Append", "AppendString", "Free"} {
		if fn := c.w.Fn("", m); c.need(fn, m) {
			c.poolDelegate(m, m, fn)
		}
		if m == "Malloc" || m == "Append" || m == "Free" {
			if fn := c.w.HFn(m); c.need(fn, "handler."+m) {
				c.poolDelegate("handler."+m, m, fn)
			}
		}
	}
	c.poolSwitch()
	c.floor("operations", 12)
	c.floor("allocations", 2)
	c.floor("grown buffers", 3)
	c.floor("appended buffers", 4)
	c.floor("buffers given back", 2)
	c.floor("delegations", 6)
	c.floor("pools made", 1)
}

func (c *Check) poolOpts() Opts {
	return Opts{KeepLoads: true, Summ: func(ex *Ex, st *State, name string, dyn *Term, args []*Term, rt types.Type) *Term {
		if strings.HasSuffix(name, "sync.Pool).Put") {
			// the pool keeps what it is given as it is
			return ex.fresh(st, "call", name, rt, args...)
		}
		return nil
	}}
}

// memRoots: whose memory a slice may be.
func memRoots(t *Term, out map[*Term]bool) {
	for t.op == "slice" || t.op == "b2s" || t.op == "s2b" {
		t = t.args[0]
	}
	if t.op == "append" {
		memRoots(t.args[0], out)
	}
	out[t] = true
}

func (p *Path) debugMode() bool {
	for f, v := range p.facts {
		if v && f.op == "init" && f.args[0].fieldVar() != nil && isBool(f.args[0].fieldVar().Type()) {
			return true
		}
	}
	return false
}

func (c *Check) poolOp(name, m string, fn *ssa.Function) {
	ex := c.explore(name, fn, c.poolOpts())
	a := ex.ParamTerms(fn)
	tt := ex.tt
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		if p.done != "return" {
			if !p.debugMode() {
				c.bad("size", name+" panic", fn.Pos(), p, "%s can panic", name)
			}
			continue
		}
		c.ob("operations")
		// what goes back to a pool
		given := map[*Term]int{}
		for _, e := range p.events {
			if !isCall(e, "sync.Pool).Put") {
				continue
			}
			obj := e.Args[1]
			for obj.op == "iface" {
				obj = obj.args[0]
			}
			if _, ok := obj.typ.Underlying().(*types.Pointer); !ok {
				c.bad("owner", name+" kind", e.Pos, p, "%s puts something other than a pointer to a buffer into the pool", name)
				continue
			}
			c.ob("buffers given back")
			b := p.ex.load(p.State, obj, deref(obj.typ))
			rs := map[*Term]bool{}
			memRoots(b, rs)
			for r := range rs {
				given[r]++
				if given[r] > 1 {
					c.bad("owner", name+" twice", e.Pos, p, "%s gives the same buffer back twice: it will be handed out to two users", name)
				}
			}
		}
		if m == "Free" {
			if !strings.HasPrefix(name, "Native") && given[a[1]] == 0 {
				// not pooling an unusable buffer is fine
				if n, ok := p.linDiff(p.capOf(a[1]), nil); !ok || n != 0 {
					c.ob("buffers dropped")
				}
			}
			continue
		}
		res := p.results[0]
		rs := map[*Term]bool{}
		memRoots(res, rs)
		for r := range rs {
			if given[r] > 0 && !p.eq(p.ex.lenOf(p.State, r), tt.Int(0)) {
				c.bad("owner", name, fn.Pos(), p, "%s returns a buffer it has given back to the pool", name)
			}
		}
		if !p.debugMode() {
			for _, e := range p.events {
				if e.Kind != "slice" || len(e.Args) < 3 || e.Args[2] == nil {
					continue
				}
				b, hi := e.Args[0], e.Args[2]
				if _, ok := b.typ.Underlying().(*types.Slice); !ok {
					continue
				}
				c.ob("slices")
				if !p.le(hi, p.ex.lenOf(p.State, b)) && !p.le(hi, p.capOf(b)) && hi != p.capOf(b) {
					c.bad("size", name+" capacity", e.Pos, p, "%s slices a buffer to a length its capacity was not seen to reach", name)
				}
			}
		}
		_, lo, n := p.span(res)
		switch m {
		case "Malloc":
			c.ob("allocations")
			if !p.eq(n, a[1]) {
				c.bad("size", name, fn.Pos(), p, "%s returns a buffer whose length is not the requested one", name)
			}
		case "Realloc":
			c.ob("grown buffers")
			if !p.eq(n, a[2]) {
				c.bad("size", name, fn.Pos(), p, "%s returns a buffer whose length is not the requested one", name)
			}
			if !p.eq(lo, tt.Int(0)) || !c.keepsHead(p, res, a[1]) {
				c.bad("contents", name, fn.Pos(), p, "%s loses bytes of the buffer", name)
			}
		case "Append", "AppendString":
			c.ob("appended buffers")
			if !c.appends(p, res, a[1], a[2]) {
				c.bad("contents", name, fn.Pos(), p, "%s does not return the buffer followed by exactly the appended bytes", name)
			}
		}
	}
}

func (p *Path) capOf(t *Term) *Term { return p.ex.tt.mk("cap", "", types.Typ[types.Int], nil, t) }

// bytesOf: the byte slice or string behind a view.
func bytesOf(t *Term) *Term {
	for t.op == "b2s" || t.op == "s2b" || t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// keepsHead: the result starts with the bytes of buf (as many as fit).
func (c *Check) keepsHead(p *Path, res, buf *Term) bool {
	base, _, n := p.span(res)
	if base == buf {
		return true
	}
	if base.op == "append" {
		hb, hl, hn := p.span(base.args[0])
		if hb == buf && p.eq(hl, p.ex.tt.Int(0)) && (hn == p.capOf(buf) || p.le(p.ex.lenOf(p.State, buf), hn)) {
			return true
		}
	}
	ok := false
	for _, e := range p.events {
		if e.Kind != "copy" {
			continue
		}
		db, dl, _ := p.span(e.Args[0])
		if db != base {
			continue
		}
		sb, sl, _ := p.span(e.Args[1])
		zero := p.ex.tt.Int(0)
		ok = sb == buf && p.eq(sl, zero) && p.eq(dl, zero) && !given(p, e, buf) && e.Res != nil && (p.eq(e.Res, p.ex.lenOf(p.State, buf)) || p.eq(e.Res, n) || p.eq(e.Res, p.capOf(buf)) || e.Res.op == "copyn")
	}
	return ok
}

func (c *Check) appends(p *Path, res, buf, more *Term) bool {
	ln := func(t *Term) *Term { return p.ex.lenOf(p.State, t) }
	total := p.add(ln(buf), ln(more))
	base, lo, n := p.span(res)
	zero := p.ex.tt.Int(0)
	if base == buf && p.eq(lo, zero) && p.eq(n, ln(buf)) {
		return p.eq(ln(more), zero)
	}
	if base.op == "append" && p.eq(lo, zero) && p.eq(n, total) {
		// everything the chain of appends put together
		var ps []*Term
		b := base
		for b.op == "append" {
			ps = append([]*Term{bytesOf(b.args[1])}, ps...)
			h, hl, hn := p.span(b.args[0])
			if !p.eq(hl, zero) {
				ps = nil
				break
			}
			if p.eq(hn, zero) {
				b = nil
				break
			}
			if !p.eq(hn, ln(h)) {
				ps = nil
				break
			}
			b = h
		}
		if b != nil && ps != nil {
			ps = append([]*Term{b}, ps...)
		}
		var rest []*Term
		for _, x := range ps {
			if !p.eq(ln(x), zero) {
				rest = append(rest, x)
			}
		}
		want := []*Term{}
		for _, x := range []*Term{buf, more} {
			if !p.eq(ln(x), zero) {
				want = append(want, x)
			}
		}
		if len(rest) == len(want) {
			same := true
			for i := range rest {
				same = same && rest[i] == want[i]
			}
			if same {
				return true
			}
		}
	}
	if !p.eq(lo, zero) || !p.eq(n, total) {
		return false
	}
	head, tail := base == buf, false // a longer view of the buffer holds its bytes already
	for _, e := range p.events {
		switch {
		case e.Kind == "copy":
			db, dl, _ := p.span(e.Args[0])
			if db != base || e.Res == nil {
				continue
			}
			src := bytesOf(e.Args[1])
			sb, sl, _ := p.span(src)
			switch {
			case sb == buf && p.eq(sl, zero) && p.eq(dl, zero) && p.eq(e.Res, ln(buf)) && !given(p, e, buf):
				head = true
			case sb == more && p.eq(sl, zero) && p.eq(dl, ln(buf)) && p.eq(e.Res, ln(more)) && !given(p, e, more):
				tail = true
			default:
				return false
			}
		case e.Kind == "store" && e.Args[0].op == "idx" && sliceBase(e.Args[0].args[0]) == base:
			return false
		}
	}
	return head && tail
}

// given: the buffer went back to the pool before the event.
func given(p *Path, at *Event, buf *Term) bool {
	for _, e := range p.events {
		if e == at {
			return false
		}
		if isCall(e, "sync.Pool).Put") {
			obj := e.Args[1]
			for obj.op == "iface" {
				obj = obj.args[0]
			}
			rs := map[*Term]bool{}
			memRoots(p.ex.load(p.State, obj, deref(obj.typ)), rs)
			if rs[buf] {
				return true
			}
		}
	}
	return false
}

// poolNew: an empty pool makes new buffers.
func (c *Check) poolNew() {
	fn := c.w.Fn("", "New")
	if !c.need(fn, "New") {
		return
	}
	ex := c.explore("New", fn, c.poolOpts())
	for _, p := range ex.paths {
		if p.done != "return" {
			c.bad("size", "New", fn.Pos(), p, "New can panic")
			continue
		}
		c.ob("pools made")
		n := p.results[0]
		for n.op == "iface" {
			n = n.args[0]
		}
		t := c.w.Type("", "BufferPool")
		if t == nil || n.op != "alloc" {
			continue
		}
		for _, v := range fieldsWhere(t, func(v *types.Var) bool { return strings.HasSuffix(typeKey(v.Type()), "sync.Pool") }) {
			pool := p.loadF(n, v)
			if pool.op != "alloc" {
				c.bad("size", "New "+v.Name(), fn.Pos(), p, "New leaves a pool unmade")
				continue
			}
			var mk *Term
			st := structOf(deref(v.Type()))
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					mk = p.loadF(pool, st.Field(i))
				}
			}
			if mk == nil || mk.op != "closure" && mk.op != "fn" {
				c.bad("size", "New "+v.Name(), fn.Pos(), p, "an empty pool has no way to make a buffer")
			}
		}
	}
	// what they make
	for _, f := range fn.AnonFuncs {
		if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !types.IsInterface(f.Signature.Results().At(0).Type()) {
			continue
		}
		fx := c.explore("pool maker "+f.Name(), f, c.poolOpts())
		for _, p := range fx.paths {
			if p.done != "return" {
				continue
			}
			c.ob("pool makers")
			o := p.results[0]
			for o.op == "iface" {
				o = o.args[0]
			}
			ok := o.op == "alloc" && typeKey(deref(o.typ)) == "[]uint8"
			if ok {
				b := p.ex.load(p.State, o, deref(o.typ))
				ok = sliceBase(b).op == "makeslice" || p.isNull(b)
			}
			if !ok {
				c.bad("owner", "pool maker", f.Pos(), p, "an empty pool makes something other than a new buffer")
			}
		}
	}
}

// poolDelegate: functions that pass the work on.
func (c *Check) poolDelegate(name, m string, fn *ssa.Function) {
	o := c.poolOpts()
	ex := c.explore("delegate "+name+" "+fn.Name(), fn, o)
	a := ex.ParamTerms(fn)
	if fn.Signature.Recv() != nil {
		a = a[1:]
	}
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		c.ob("delegations")
		var got *Event
		for _, e := range p.events {
			if e.Kind == "dyn" || e.Kind == "call" && strings.HasSuffix(e.Name, "Allocator)."+m) {
				got = e
			}
		}
		if got != nil {
			args := got.Args[1:]
			ok := len(args) == len(a)
			for i := range args {
				ok = ok && args[i] == a[i]
			}
			if len(p.results) == 1 && p.results[0] != got.Res {
				ok = false
			}
			if !ok {
				c.bad("delegate", name, got.Pos, p, "%s does not pass its arguments on, or its result back, unchanged", name)
			}
			continue
		}
		switch m {
		case "Malloc":
			if r := p.results[0]; sliceBase(r).op != "makeslice" || !p.eq(p.ex.lenOf(p.State, r), a[0]) {
				c.bad("delegate", name, fn.Pos(), p, "%s does not return a new buffer of the requested length", name)
			}
		case "Append", "AppendString":
			if !c.appends(p, p.results[0], a[0], a[1]) {
				c.bad("delegate", name, fn.Pos(), p, "%s does not append the bytes to the buffer", name)
			}
		case "Realloc":
			if !c.keepsHead(p, p.results[0], a[0]) {
				c.bad("delegate", name, fn.Pos(), p, "%s loses bytes of the buffer", name)
			}
		}
	}
}

// poolSwitch: the functions EnablePool installs.
func (c *Check) poolSwitch() {
	fn := c.w.HFn("EnablePool")
	if fn == nil {
		return
	}
	ex := c.explore("EnablePool", fn, c.poolOpts())
	self := ex.ParamTerms(fn)[0]
	impl := deref(c.w.handlerImpl)
	kinds := map[*types.Var]string{}
	for _, m := range []string{"Malloc", "Append", "Free"} {
		h := c.w.HFn(m)
		if h == nil {
			continue
		}
		hx := c.explore("delegate handler."+m+" "+h.Name(), h, c.poolOpts())
		for _, p := range hx.paths {
			for _, e := range p.events {
				if e.Kind == "dyn" && loadField(e.Args[0]) != nil {
					kinds[loadField(e.Args[0])] = m
				}
			}
		}
	}
	_ = impl
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		for v, m := range kinds {
			f := p.loadF(self, v)
			c.ob("functions installed")
			cl := p.ex.resolveTerm(f)
			g := cl.fn
			if g == nil || len(g.Blocks) == 0 {
				continue
			}
			if strings.HasSuffix(g.Name(), "$bound") || g.Parent() == nil {
				if !strings.Contains(g.String(), m) {
					c.bad("delegate", "EnablePool "+m, fn.Pos(), p, "EnablePool installs %s as the function to %s", g.Name(), strings.ToLower(m))
				}
				continue
			}
			c.poolDelegate("EnablePool's "+m, m, g)
		}
	}
}
