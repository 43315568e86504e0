package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C35"] = ruleC35
}

func ruleC35(c *Check) {
	c.rule("raw-out", "a value becomes bytes by its type: nil becomes no bytes; byte slices, strings, errors and pointers to them become their own bytes; every other value what the codec makes of it")
	c.rule("raw-in", "bytes become a value by the type of the destination: a byte slice, a string or an error is filled with exactly the bytes, everything else is left to the codec, whose outcome is returned")
	c.rule("copy", "what the caller of a call or a stream receive is handed is a copy: it shares no memory with the message")
	c.rule("built", "every operation that builds a message converts exactly the value it was given, with the codec of its client")
	c.rule("view", "the string and byte views convert without changing the bytes or their number")
	if fn := c.w.Fn("util", "ValueToBytes"); c.need(fn, "util.ValueToBytes") {
		c.convOut(fn)
	}
	if fn := c.w.Fn("util", "BytesToValue"); c.need(fn, "util.BytesToValue") {
		ex := c.explore("BytesToValue", fn, c.convOpts())
		a := ex.ParamTerms(fn)
		for _, p := range ex.paths {
			if p.done != "return" {
				c.bad("raw-in", "BytesToValue", fn.Pos(), p, "BytesToValue can panic")
				continue
			}
			c.convIn("BytesToValue", fn, p, a[0], func(t *Term) bool { return p.sameSpan(t, a[1]) }, a[2], p.results[0], true, true)
		}
	}
	c.convViews()
	// the callers
	r := c.r
	codec := embedded(r.client, "codec.Codec")
	if codec == nil {
		c.need(nil, "the codec of a client")
		return
	}
	for _, op := range c.ops("Client.Call", "Client.CallWith", "Client.CallContext") {
		ex := c.exploreOp(op)
		args := ex.ParamTerms(op.fn)
		rsp := nthAny(op.fn, args, 2)
		if rsp == nil {
			c.need(nil, "the result parameter of "+op.name)
			continue
		}
		for _, p := range ex.paths {
			if p.done != "return" {
				continue
			}
			var m *Term
			for _, e := range p.events {
				if e.G == 0 && (e.Kind == "recv" || e.Kind == "select" && e.Chosen >= 0 && !e.Cases[e.Chosen].Send) && c.ownDone(p, e.waitedCh()) && e.Res != nil && e.Name != "closed" {
					m = e.Res
				}
			}
			if m == nil {
				continue
			}
			if cmd, known := p.cmdOf(r, m); !known || cmd != 2 {
				continue
			}
			if mark, mk := p.bitVal(p.hbits(p.buf(r, m), 48, 1)[0]); !mk || mark {
				continue
			}
			c.ob("responses decoded")
			c.convIn(op.name, op.fn, p, p.loadF(args[0], codec), func(t *Term) bool { return c.isData(p, t, m) }, rsp, p.results[0], false, true)
		}
	}
	k := c.w.Type("", "Context")
	if fn := c.w.Fn("", "Context.Bind"); k != nil && c.need(fn, "Context.Bind") {
		ex := c.explore("Context.Bind", fn, c.std())
		args := ex.ParamTerms(fn)
		cm, cc := embedded(k, "arpc.Message"), embedded(k, "arpc.Client")
		for _, p := range ex.paths {
			if p.done != "return" || cm == nil || cc == nil {
				continue
			}
			m := p.loadF(args[0], cm)
			if mark, mk := p.bitVal(p.hbits(p.buf(r, m), 48, 1)[0]); !mk || mark {
				continue
			}
			c.ob("requests decoded")
			c.convIn("Context.Bind", fn, p, p.loadF(p.loadF(args[0], cc), codec), func(t *Term) bool { return c.isData(p, t, m) }, args[1], p.results[0], false, false)
		}
	}
	c.convBuilt(codec)
	c.floor("values converted", 8)
	c.floor("destinations filled", 10)
	c.floor("responses decoded", 6)
	c.floor("requests decoded", 3)
	c.floor("messages built", 15)
}

func (c *Check) convOpts() Opts {
	o := c.std()
	o.Opaque = nil
	o.KeepLoads = true
	return o
}

func nthAny(fn *ssa.Function, args []*Term, n int) *Term {
	for i, pr := range fn.Params {
		if types.IsInterface(pr.Type()) && (typeKey(pr.Type()) == "interface{}" || typeKey(pr.Type()) == "any") {
			if n--; n == 0 {
				return args[i]
			}
		}
	}
	return nil
}

// isA: whether the path knows the dynamic type of v.
func (p *Path) isA(v *Term, t types.Type) (bool, bool) {
	if v.op == "iface" {
		ct, _ := v.aux.(types.Type)
		if ct == nil {
			return false, false
		}
		if types.IsInterface(t) {
			return types.Implements(ct, t.Underlying().(*types.Interface)), true
		}
		return types.Identical(ct, t), true
	}
	if nl, kn := p.isNil(v); kn && nl {
		return false, true
	}
	if b, k := p.truth(p.ex.tt.mk("istype", typeKey(t), types.Typ[types.Bool], t, v)); k {
		return b, true
	}
	// another concrete type excludes this one
	for f, val := range p.facts {
		if val && f.op == "istype" && f.args[0] == v {
			if o, ok := f.aux.(types.Type); ok && !types.IsInterface(o) {
				if types.IsInterface(t) {
					return types.Implements(o, t.Underlying().(*types.Interface)), true
				}
				return types.Identical(o, t), true
			}
		}
	}
	return false, false
}

var (
	tBytes  = types.NewSlice(types.Typ[types.Uint8])
	tString = types.Typ[types.String]
	tError  = types.Universe.Lookup("error").Type()
)

// sameSpan: both denote the same memory, whole.
func (p *Path) sameSpan(a, b *Term) bool {
	if a == b {
		return true
	}
	ab, al, an := p.span(a)
	bb, bl, bn := p.span(b)
	return ab == bb && p.eq(al, bl) && p.eq(an, bn)
}

func (c *Check) convOut(fn *ssa.Function) {
	ex := c.explore("ValueToBytes", fn, c.convOpts())
	a := ex.ParamTerms(fn)
	codec, v := a[0], a[1]
	un := func(p *Path, t types.Type) *Term { return p.ex.tt.mk("unwrap", typeKey(t), t, nil, v) }
	ptr := func(p *Path, t types.Type) *Term {
		return p.ex.load(p.State, un(p, types.NewPointer(t)), t)
	}
	isErrText := func(p *Path, t, e *Term) bool {
		s := strView(t)
		return s != nil && isCallTerm(s, "(error).Error") && len(s.args) > 0 && s.args[0] == e
	}
	for _, p := range ex.paths {
		if p.done != "return" {
			c.bad("raw-out", "ValueToBytes", fn.Pos(), p, "ValueToBytes can panic")
			continue
		}
		c.ob("values converted")
		r := p.results[0]
		if nl, kn := p.isNil(v); kn && nl {
			if !p.isNull(r) && !p.eq(p.ex.lenOf(p.State, r), p.ex.tt.Int(0)) {
				c.bad("raw-out", "nil", fn.Pos(), p, "a nil value is converted into something")
			}
			continue
		}
		type kind struct {
			n  string
			t  types.Type
			ok func() bool
		}
		kinds := []kind{
			{"byte slice", tBytes, func() bool { return r == un(p, tBytes) || p.copyOf(r, un(p, tBytes)) }},
			{"pointer to a byte slice", types.NewPointer(tBytes), func() bool { return r == ptr(p, tBytes) || p.copyOf(r, ptr(p, tBytes)) }},
			{"string", tString, func() bool { return strView(r) == un(p, tString) }},
			{"pointer to a string", types.NewPointer(tString), func() bool { return strView(r) == ptr(p, tString) }},
			{"error", tError, func() bool { return isErrText(p, r, v) }},
			{"pointer to an error", types.NewPointer(tError), func() bool { return isErrText(p, r, ptr(p, tError)) }},
		}
		decided := false
		unknown := ""
		for _, k := range kinds {
			is, kn := p.isA(v, k.t)
			if !kn {
				unknown = k.n
				continue
			}
			if is {
				decided = true
				if !k.ok() {
					c.bad("raw-out", k.n, fn.Pos(), p, "a %s is not converted into its own bytes", k.n)
				}
				break
			}
		}
		if decided {
			continue
		}
		if unknown != "" {
			c.bad("raw-out", unknown, fn.Pos(), p, "a value that may be a %s is converted like any other", unknown)
			continue
		}
		// any other value
		var call *Event
		for _, e := range p.events {
			if isCall(e, "codec.Codec).Marshal") {
				call = e
			}
		}
		if call == nil || r != p.part(call.Res, 0) || call.Args[1] != v {
			if call != nil && call.Args[1] == v {
				// a failed conversion may give nothing
				if nl, kn := p.isNil(p.part(call.Res, 1)); kn && !nl && p.isNull(r) {
					continue
				}
			}
			c.bad("raw-out", "codec", fn.Pos(), p, "a value of another type is not converted by the codec")
			continue
		}
		c.rightCodec("raw-out", "ValueToBytes", p, call, codec)
	}
}

// rightCodec: the call uses the given codec, or the default one where there is none.
func (c *Check) rightCodec(rule, name string, p *Path, call *Event, codec *Term) {
	if call.Args[0] == codec {
		// the conversion functions are documented to take no codec for the default one
		if name == "ValueToBytes" || name == "BytesToValue" {
			if nl, kn := p.isNil(codec); !kn || nl {
				c.bad(rule, name+" codec", call.Pos, p, "%s without a codec does not fall back to the default one", name)
			}
		}
		return
	}
	if nl, kn := p.isNil(codec); kn && nl && call.Args[0].walk(func(x *Term) bool { return x.op == "global" && strings.HasSuffix(x.s, "DefaultCodec") || x.op == "gval" && strings.HasSuffix(x.s, "DefaultCodec") }) {
		return
	}
	if strings.Contains(call.Args[0].String(), "DefaultCodec") {
		if nl, kn := p.isNil(codec); kn && nl {
			return
		}
	}
	c.bad(rule, name+" codec", call.Pos, p, "%s uses another codec than the one it was given", name)
}

// strView: the string whose bytes the slice holds.
func strView(t *Term) *Term {
	switch {
	case t.op == "s2b":
		return t.args[0]
	case t.op == "conv" && t.args[0].typ != nil && isStringType(t.args[0].typ):
		return t.args[0]
	case t.op == "append" && (t.args[0].op == "nil" || emptySlice(t.args[0])):
		x := t.args[1]
		if x.typ != nil && isStringType(x.typ) {
			return x
		}
		return strView(x)
	}
	return nil
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func emptySlice(t *Term) bool {
	if t.op == "slice" {
		lo, ok1 := t.args[1].IntVal()
		hi, ok2 := t.args[2].IntVal()
		return ok1 && ok2 && lo == hi
	}
	if t.op == "makeslice" {
		n, ok := t.args[0].IntVal()
		return ok && n == 0
	}
	return false
}

// copyOf: t is new memory holding exactly the bytes of src.
func (p *Path) copyOf(t, src *Term) bool {
	return p.freshBytes(t, func(x *Term) bool { return p.sameSpan(x, src) })
}

func (p *Path) freshBytes(t *Term, isSrc func(*Term) bool) bool {
	if t.op == "conv" && len(t.args) == 1 {
		x := t.args[0]
		if isSrc(x) {
			return isStringType(t.typ) != isStringTerm(x)
		}
		if (x.op == "b2s" || x.op == "conv") && isSrc(x.args[0]) {
			return true
		}
		return false
	}
	if t.op == "call" && (strings.HasPrefix(t.s, "bytes.Clone#") || strings.HasPrefix(t.s, "slices.Clone") || strings.HasPrefix(t.s, "strings.Clone#")) {
		x := t.args[0]
		if x.op == "b2s" {
			x = x.args[0]
		}
		return isSrc(x)
	}
	base := t
	for base.op == "append" || base.op == "slice" {
		base = base.args[0]
	}
	own := base.op == "init" && base.args[0].op == "unwrap" // the caller's own memory
	if base.op != "alloc" && base.op != "makeslice" && base.op != "nil" && !own {
		return false
	}
	seq := p.seqOf(t)
	return len(seq) == 1 && seq[0].whole != nil && isSrc(seq[0].whole)
}

func isStringTerm(x *Term) bool { return x.typ != nil && isStringType(x.typ) }

// convIn: how a path fills the destination from the bytes.
func (c *Check) convIn(name string, fn *ssa.Function, p *Path, codec *Term, isSrc func(*Term) bool, dst, res *Term, errs, copies bool) {
	c.ob("destinations filled")
	var call *Event
	stores := 0
	for _, e := range p.events {
		if isCall(e, "util.BytesToValue") && len(e.Args) == 3 && e.Args[2] == dst {
			if !isSrc(e.Args[1]) {
				c.bad("raw-in", name+" bytes", e.Pos, p, "%s decodes something other than the body", name)
			}
			c.rightCodec("raw-in", name, p, e, codec)
			if res != e.Res {
				c.bad("raw-in", name+" outcome", e.Pos, p, "%s does not return the outcome of decoding", name)
			}
			return
		}
		if isCall(e, "codec.Codec).Unmarshal") && len(e.Args) == 3 && e.Args[2] == dst {
			call = e
		}
		if e.Kind == "store" && c.storesInto(e, dst) {
			stores++
		}
	}
	if nl, kn := p.isNil(dst); kn && nl {
		if call != nil || stores > 0 {
			c.bad("raw-in", name+" nil", fn.Pos(), p, "%s decodes into nothing", name)
		}
		return
	}
	fill := func(t types.Type) *Term {
		pt := types.NewPointer(t)
		return p.ex.load(p.State, p.ex.tt.mk("unwrap", typeKey(pt), pt, nil, dst), t)
	}
	type kind struct {
		n        string
		t        types.Type
		required bool
	}
	unknown := ""
	for _, k := range []kind{{"byte slice", tBytes, true}, {"string", tString, true}, {"error", tError, errs}} {
		is, kn := p.isA(dst, types.NewPointer(k.t))
		if !kn {
			if k.required {
				unknown = k.n
			}
			continue
		}
		if !is {
			continue
		}
		if call != nil {
			if k.required {
				c.bad("raw-in", name+" "+k.n, call.Pos, p, "%s decodes a raw %s with the codec", name, k.n)
				return
			}
			break
		}
		v := fill(k.t)
		ok, fresh := false, false
		switch k.n {
		case "byte slice":
			ok = isSrc(v)
			fresh = p.freshBytes(v, isSrc)
		case "string":
			ok = v.op == "b2s" && isSrc(v.args[0])
			fresh = p.freshBytes(v, isSrc)
		case "error":
			if v.op == "iface" {
				v = v.args[0]
			}
			if v.op == "call" && strings.HasPrefix(v.s, "errors.New#") {
				ok = v.args[0].op == "b2s" && isSrc(v.args[0].args[0])
				fresh = p.freshBytes(v.args[0], isSrc)
			}
		}
		switch {
		case !ok && !fresh:
			c.bad("raw-in", name+" "+k.n, fn.Pos(), p, "%s does not fill a %s with exactly the bytes of the body", name, k.n)
		case copies && !fresh:
			c.bad("copy", name+" "+k.n, fn.Pos(), p, "%s hands out a %s that shares memory with the message, which is reused", name, k.n)
		}
		if p.errIs(res) == "err" || !p.isNull(res) {
			c.bad("raw-in", name+" outcome", fn.Pos(), p, "%s reports an error for a raw %s", name, k.n)
		}
		return
	}
	if unknown != "" {
		c.bad("raw-in", name+" "+unknown, fn.Pos(), p, "%s treats a destination that may be a %s like any other", name, unknown)
		return
	}
	if call == nil || !isSrc(call.Args[1]) {
		c.bad("raw-in", name+" codec", fn.Pos(), p, "%s does not decode the body with the codec", name)
		return
	}
	c.rightCodec("raw-in", name, p, call, codec)
	if res != call.Res {
		if nl, kn := p.isNil(call.Res); !(kn && nl && p.isNull(res)) && !(kn && !nl && p.errIs(res) == "err") {
			c.bad("raw-in", name+" outcome", call.Pos, p, "%s does not return the outcome of decoding", name)
		}
	}
}

// convBuilt: what the operations put into their messages.
func (c *Check) convBuilt(codec *types.Var) {
	r := c.r
	names := []string{"Client.NewMessage"}
	for _, n := range sendOps {
		if n != "Client.PushMsg" {
			names = append(names, n)
		}
	}
	sc := embedded(r.server, "codec.Codec")
	names = append(names, "Server.NewMessage", "Server.Broadcast", "Server.BroadcastWithFilter")
	for _, op := range c.ops(names...) {
		o := c.std()
		name := op.name
		if strings.HasPrefix(name, "Server.") {
			// the message is built before it is sent to anybody
			o.MaxLoop = 1
			name += " (one round)"
		}
		ex := c.explore(name, op.fn, o)
		args := ex.ParamTerms(op.fn)
		v := nthAny(op.fn, args, 1)
		if v == nil {
			c.need(nil, "the value parameter of "+op.name)
			continue
		}
		for _, p := range ex.paths {
			if p.done == "cut" {
				continue
			}
			conv := map[*Term]bool{}
			for _, e := range p.events {
				if !isCall(e, "util.ValueToBytes") {
					continue
				}
				c.ob("messages built")
				x := e.Args[1]
				for x.op == "iface" {
					x = x.args[0]
				}
				if x != v && !conv[x] {
					c.bad("built", op.name, e.Pos, p, "%s sends something other than the value it was given", op.name)
				}
				f := loadField(e.Args[0])
				if x == v && f != codec && f != sc {
					c.bad("built", op.name+" codec", e.Pos, p, "%s converts its value with another codec than its client's", op.name)
				}
				conv[e.Res] = true
			}
		}
	}
}

// convViews: the two views, in the forms they are written in.
func (c *Check) convViews() {
	if fn := c.w.Fn("util", "BytesToStr"); fn != nil {
		ex := c.explore("BytesToStr", fn, c.convOpts())
		b := ex.ParamTerms(fn)[0]
		for _, p := range ex.paths {
			c.ob("views")
			r := p.results
			if p.done != "return" || !((r[0].op == "b2s" || r[0].op == "conv") && r[0].args[0] == b) && !strings.Contains(r[0].String(), "unsafe") {
				c.bad("view", "BytesToStr", fn.Pos(), p, "BytesToStr does not give the bytes it was given")
			}
		}
	}
	fn := c.w.Fn("util", "StrToBytes")
	if fn == nil {
		return
	}
	ex := c.explore("StrToBytes", fn, c.convOpts())
	s := ex.ParamTerms(fn)[0]
	for _, p := range ex.paths {
		c.ob("views")
		if p.done != "return" {
			c.bad("view", "StrToBytes", fn.Pos(), p, "StrToBytes can panic")
			continue
		}
		words := map[int64]*Term{}
		for _, e := range p.events {
			if e.Kind == "store" && e.Args[0].op == "idx" {
				if i, ok := e.Args[0].args[1].IntVal(); ok {
					words[i] = e.Args[1]
				}
			}
		}
		for i, w := range words {
			want := int64(0)
			if i > 0 {
				want = 1
			}
			n := int64(-1)
			if w.op == "word" && w.args[0] == s {
				n = int64(w.s[0] - '0')
			}
			if n != want {
				c.bad("view", "StrToBytes", fn.Pos(), p, "StrToBytes builds a slice whose %s is not the string's", [...]string{"start", "length", "capacity"}[i%3])
			}
		}
	}
}
