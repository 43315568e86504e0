package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = ruleC30
}

// ---- byte layout -------------------------------------------------------------

// seg: n bytes at position lo of a buffer, taken from src[off:off+n], one known byte, or zeros.
type seg struct {
	lo, n *Term
	src   *Term
	off   *Term
	elem  *Term
}

// bytesBehind: the bytes a string or slice was converted from.
func bytesBehind(t *Term) *Term {
	for t != nil {
		switch {
		case t.op == "b2s" || t.op == "s2b":
		case t.op == "conv" && t.typ != nil && t.args[0].typ != nil && !isIntType(t.typ) && !isIntType(t.args[0].typ):
		default:
			return t
		}
		t = t.args[0]
	}
	return t
}

func (p *Path) add(a, b *Term) *Term { return p.ex.arith(token.ADD, a, b, types.Typ[types.Int]) }
func (p *Path) sub(a, b *Term) *Term { return p.ex.arith(token.SUB, a, b, types.Typ[types.Int]) }
func (p *Path) le(a, b *Term) bool   { l, _ := p.rng(p.sub(b, a)); return l >= 0 }
func (p *Path) eq(a, b *Term) bool   { d, ok := p.linDiff(a, b); return ok && d == 0 }

// layout: where the bytes of buffer t come from after the first upto events of the path.
func (p *Path) layout(t *Term, upto, depth int) ([]seg, bool) {
	tt := p.ex.tt
	zero := tt.Int(0)
	t = bytesBehind(t)
	if t == nil || depth > 10 {
		return nil, false
	}
	var segs []seg
	birth := -1
	switch t.op {
	case "nil":
		return nil, true
	case "slice":
		in, ok := p.layout(t.args[0], upto, depth+1)
		if !ok {
			return nil, false
		}
		return p.cut(in, t.args[1], t.args[2])
	case "append":
		for i := upto - 1; i >= 0; i-- {
			if e := p.events[i]; e.Kind == "append" && e.Res == t {
				birth = i
				break
			}
		}
		if birth < 0 {
			return nil, false
		}
		a, ok1 := p.layout(t.args[0], birth, depth+1)
		b, ok2 := p.layout(t.args[1], birth, depth+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		at := p.ex.lenOf(p.State, t.args[0])
		segs = append(segs, a...)
		for _, s := range b {
			s.lo = p.add(s.lo, at)
			segs = append(segs, s)
		}
	case "makeslice":
		segs = []seg{{lo: zero, n: t.args[0]}}
	case "alloc":
		a, ok := deref(t.typ).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		segs = []seg{{lo: zero, n: tt.Int(a.Len())}}
	default:
		segs = []seg{{lo: zero, n: p.ex.lenOf(p.State, t), src: t, off: zero}}
	}
	total := p.segEnd(segs)
	for i := birth + 1; i < upto; i++ {
		e := p.events[i]
		var in []seg
		var at, n *Term
		switch {
		case e.Kind == "copy" && sliceBase(e.Args[0]) == t:
			at = zero
			if e.Args[0].op == "slice" {
				at = e.Args[0].args[1]
			}
			room, have := p.ex.lenOf(p.State, e.Args[0]), p.ex.lenOf(p.State, e.Args[1])
			src, ok := p.layout(e.Args[1], i, depth+1)
			if !ok {
				return nil, false
			}
			switch {
			case p.le(have, room):
				n = have
			case p.le(room, have):
				n = room
			default:
				return nil, false
			}
			if in, ok = p.cut(src, zero, n); !ok {
				return nil, false
			}
		case e.Kind == "store" && e.Args[0].op == "idx" && e.Args[0].args[0] == t:
			at, n = e.Args[0].args[1], tt.Int(1)
			in = []seg{{lo: zero, n: n, elem: e.Args[1]}}
		default:
			continue
		}
		before, ok1 := p.cut(segs, zero, at)
		after, ok2 := p.cut(segs, p.add(at, n), total)
		if !ok1 || !ok2 {
			return nil, false
		}
		out := before
		for _, s := range in {
			s.lo = p.add(s.lo, at)
			out = append(out, s)
		}
		for _, s := range after {
			s.lo = p.add(s.lo, p.add(at, n))
			out = append(out, s)
		}
		segs = out
	}
	return segs, true
}

func (p *Path) segEnd(in []seg) *Term {
	if len(in) == 0 {
		return p.ex.tt.Int(0)
	}
	l := in[len(in)-1]
	return p.add(l.lo, l.n)
}

// cut: the part [lo,hi) of a layout, counted from lo.
func (p *Path) cut(in []seg, lo, hi *Term) ([]seg, bool) {
	var out []seg
	for _, s := range in {
		end := p.add(s.lo, s.n)
		if p.le(end, lo) || p.le(hi, s.lo) {
			continue
		}
		a, b := s.lo, end
		switch {
		case p.le(lo, s.lo):
		case p.le(s.lo, lo):
			a = lo
		default:
			return nil, false
		}
		switch {
		case p.le(end, hi):
		case p.le(hi, end):
			b = hi
		default:
			return nil, false
		}
		n := seg{lo: p.sub(a, lo), n: p.sub(b, a), src: s.src, elem: s.elem}
		if s.src != nil {
			n.off = p.add(s.off, p.sub(a, s.lo))
		}
		if l := len(out) - 1; l >= 0 && n.src != nil && out[l].src == n.src && p.eq(p.add(out[l].off, out[l].n), n.off) {
			out[l].n = p.add(out[l].n, n.n)
			continue
		}
		out = append(out, n)
	}
	return out, true
}

// from: the layout is exactly src[off:off+n].
func (p *Path) from(in []seg, src, off, n *Term) bool {
	if len(in) == 0 {
		return p.eq(n, p.ex.tt.Int(0))
	}
	return len(in) == 1 && in[0].src == src && p.eq(in[0].off, off) && p.eq(in[0].n, n)
}

// sameAs: the layout is exactly the bytes of t as they were before the path.
func (p *Path) whole(in []seg, t *Term) bool {
	t = bytesBehind(t)
	if t.op == "slice" {
		return p.from(in, t.args[0], t.args[1], p.sub(t.args[2], t.args[1]))
	}
	return p.from(in, t, p.ex.tt.Int(0), p.ex.lenOf(p.State, t))
}

func segString(in []seg) string {
	var out []string
	for _, s := range in {
		switch {
		case s.elem != nil:
			out = append(out, "byte "+s.elem.String())
		case s.src != nil:
			out = append(out, s.src.String()+"["+s.off.String()+"; "+s.n.String()+"]")
		default:
			out = append(out, s.n.String()+" zeros")
		}
	}
	return strings.Join(out, " ++ ")
}

// ---- C30 ---------------------------------------------------------------------

type coderRun struct {
	c        *Check
	p        *Path
	where    string
	fn       *ssa.Function
	enc      bool
	msg      *Term
	b0, b1   *Term
	n0, n1   *Term
	segs     []seg
	hdr      []seg // bytes 0..3
	flag     []seg // byte 4
	rest     []seg // bytes 5..
	changed  bool
	flag0    *Term
	flagBits []bit // of byte 4 before
	vals     *types.Var
}

func ruleC30(c *Check) {
	c.rule("frame", "after Encode or Decode of a bundled coder the message it was given is returned, its header announces exactly the bytes behind it, and a buffer that was not transformed is untouched")
	c.rule("flag", "Encode sets the coder's flag bit, and no other, on exactly the paths on which it transformed the message; Decode transforms only a flagged message, clears the bit, and leaves a flagged message alone only if it cannot be decoded")
	c.rule("content", "the transformed buffer is the unchanged part of the message followed by the library's output for the rest; appended values end in name, value and their length, and exactly these bytes are removed again")
	c.rule("failure", "bytes of a library or conversion call whose error is not known to be nil never enter the message")
	c.rule("bounds", "every index, slice and fixed-width access is in range whatever bytes the message holds")
	w := c.w
	var mc *types.Interface
	if t := w.Type("", "MessageCoder"); t != nil {
		mc, _ = t.Underlying().(*types.Interface)
	}
	if mc == nil {
		c.bad("anchor", "MessageCoder", token.NoPos, nil, "the interface MessageCoder does not exist any more")
		return
	}
	for _, pkg := range []string{"extension/middleware/coder", "extension/middleware/coder/gzip", "extension/middleware/coder/msgpack"} {
		sp := w.spkg[modPath+"/"+pkg]
		if sp == nil {
			c.bad("anchor", pkg, token.NoPos, nil, "the package %s does not exist any more", pkg)
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), mc) {
				continue
			}
			for _, m := range []string{"Encode", "Decode"} {
				fn := w.Fn(pkg, n+"."+m)
				if c.need(fn, pkg+"."+n+"."+m) {
					c.coder(pkg, n+"."+m, fn, m == "Encode")
				}
			}
		}
	}
	c.floor("coder paths", 60)
	c.floor("transformations", 20)
	c.floor("accesses", 100)
	c.floor("kept as they were", 20)
}

func (c *Check) coder(pkg, where string, fn *ssa.Function, enc bool) {
	gz := strings.HasSuffix(pkg, "/gzip")
	r := c.r
	o := c.std()
	o.KeepLoads = true
	lm := o.LenMin
	o.LenMin = func(t *Term) int64 {
		// a closed gzip stream has at least its 10 byte header and 8 byte trailer
		if gz && enc && t.op == "len" && isCallTerm(t.args[0], "bytes.Buffer).Bytes") {
			return 18
		}
		return lm(t)
	}
	sm := o.Summ
	o.Summ = func(ex *Ex, st *State, name string, dyn *Term, args []*Term, rt types.Type) *Term {
		// compressing into memory cannot fail
		if len(args) > 0 && args[0].walk(func(t *Term) bool { return t.op == "iface" && t.args[0].typ != nil && t.args[0].typ.String() == "*bytes.Buffer" }) {
			switch {
			case strings.HasSuffix(name, "gzip.Writer).Write") && len(args) == 2:
				return ex.tt.mk("tuple", "", rt, nil, ex.lenOf(st, args[1]), ex.tt.Nil())
			case strings.HasSuffix(name, "gzip.Writer).Close"), strings.HasSuffix(name, "gzip.Writer).Flush"):
				return ex.tt.Nil()
			}
		}
		return sm(ex, st, name, dyn, args, rt)
	}
	var vals *types.Var
	for _, v := range fieldsWhere(r.message, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Map); return ok }) {
		vals = v
	}
	if vals == nil {
		c.bad("anchor", "values", token.NoPos, nil, "a message carries no values any more")
		return
	}
	runs := []int64{0}
	var idx *types.Var
	if pkg == "extension/middleware/coder" {
		for _, v := range fieldsWhere(deref(fn.Params[0].Type()), func(v *types.Var) bool { return isIntType(v.Type()) }) {
			if v.Exported() {
				idx = v
			}
		}
		if idx == nil {
			c.bad("anchor", where+" flag index", fn.Pos(), nil, "the appender's flag bit index does not exist any more")
			return
		}
		runs = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, -1}
	}
	for _, k := range runs {
		name := where
		bit := int64(-1)
		if idx != nil {
			k := k
			o.Init = func(ex *Ex, st *State) {
				ex.store(st, ex.field(ex.ParamTerms(fn)[0], idx), ex.tt.Int(k), idx.Type())
			}
			name += " flag bit " + fmt.Sprint(k)
			if bit = k; k < 0 || k > 7 {
				bit = -2
			}
		} else if gz {
			bit = 7
		}
		ex := c.explore(pkg+"."+name, fn, o)
		for _, p := range ex.paths {
			if p.done == "cut" {
				c.bounds(p, pkg, "bounds", where)
				continue
			}
			c.ob("coder paths")
			if p.done != "return" {
				c.bad("frame", where+" ends", fn.Pos(), p, "%s does not return on every path", where)
				continue
			}
			c.bounds(p, pkg, "bounds", where)
			c.bounds(p, "", "bounds", where)
			q := &coderRun{c: c, p: p, where: where, fn: fn, enc: enc, msg: ex.ParamTerms(fn)[2], vals: vals}
			ret := p.events[len(p.events)-1]
			if ret.Kind != "return" || len(ret.Args) != 1 || ret.Args[0] != q.msg {
				c.bad("frame", where+" result", ret.Pos, p, "%s returns something else than the message it was given", where)
				continue
			}
			if !q.read(r) {
				c.bad("frame", where+" layout", ret.Pos, p, "the bytes of the message after %s cannot be accounted for", where)
				continue
			}
			q.frame(ret.Pos)
			q.flags(ret.Pos, bit)
			if !q.changed {
				c.ob("kept as they were")
				if !enc {
					q.skipped(ret.Pos, pkg, bit)
				}
				continue
			}
			c.ob("transformations")
			q.sources(ret.Pos)
			switch {
			case gz:
				q.gzip(ret.Pos)
			case idx != nil:
				q.appender(ret.Pos)
			default:
				q.packed(ret.Pos)
			}
		}
	}
}

func (q *coderRun) read(r *Roles) bool {
	p, tt := q.p, q.p.ex.tt
	q.b0 = tt.mk("init", "", r.buffer.Type(), nil, p.ex.field(q.msg, r.buffer))
	q.b1 = p.buf(r, q.msg)
	q.n0, q.n1 = p.ex.lenOf(p.State, q.b0), p.ex.lenOf(p.State, q.b1)
	segs, ok := p.layout(q.b1, len(p.events), 0)
	if !ok {
		return false
	}
	q.segs = segs
	var ok1, ok2, ok3 bool
	q.hdr, ok1 = p.cut(segs, tt.Int(0), tt.Int(4))
	q.flag, ok2 = p.cut(segs, tt.Int(4), tt.Int(5))
	q.rest, ok3 = p.cut(segs, tt.Int(5), q.n1)
	q.changed = !p.from(q.rest, q.b0, tt.Int(5), p.sub(q.n0, tt.Int(5)))
	cell := p.ex.idx(q.b0, tt.Int(4), types.Typ[types.Uint8])
	q.flag0 = tt.mk("init", "", types.Typ[types.Uint8], nil, cell)
	q.flagBits = tt.bitsOf(q.flag0, 8)
	return ok1 && ok2 && ok3
}

// frame: the announced length equals the bytes that follow the header.
func (q *coderRun) frame(pos token.Pos) {
	c, p, tt := q.c, q.p, q.p.ex.tt
	c.ob("announced lengths")
	if l, _ := p.rng(q.n1); l < 16 {
		c.bad("frame", q.where+" header", pos, p, "%s may leave a message shorter than its header", q.where)
		return
	}
	if p.from(q.hdr, q.b0, tt.Int(0), tt.Int(4)) {
		if !p.eq(q.n0, q.n1) {
			c.bad("frame", q.where+" length", pos, p, "%s changes the size of the message without announcing it", q.where)
		}
		return
	}
	var bs []bit
	for _, s := range q.hdr {
		if s.elem == nil {
			c.bad("frame", q.where+" length", pos, p, "%s overwrites the announced length with %s", q.where, segString(q.hdr))
			return
		}
		bs = append(bs, tt.bitsOf(s.elem, 8)...)
	}
	body := p.sub(q.n1, tt.Int(16))
	got := tt.Bits(bs, types.Typ[types.Uint32])
	if p.lowBits(got, body, 32) || sameBits(tt.bitsOf(got, 32), tt.bitsOf(body, 32)) || sameBits(tt.bitsOf(got, 32), tt.bitsOf(p.ex.convert(body, types.Typ[types.Uint32]), 32)) {
		return
	}
	c.bad("frame", q.where+" length", pos, p, "%s announces %s bytes but leaves %s", q.where, got, body)
}

// flags: byte 4 changes in the coder's own bit only, and exactly with the transformation.
func (q *coderRun) flags(pos token.Pos, own int64) {
	c, p, tt := q.c, q.p, q.p.ex.tt
	c.ob("flag bits")
	now := q.flagBits
	if !p.from(q.flag, q.b0, tt.Int(4), tt.Int(1)) {
		if len(q.flag) != 1 || q.flag[0].elem == nil {
			c.bad("flag", q.where, pos, p, "%s overwrites the flag byte with %s", q.where, segString(q.flag))
			return
		}
		now = tt.bitsOf(q.flag[0].elem, 8)
	}
	is := func(b bit, v bool) bool { x, ok := p.bitVal(b); return ok && x == v }
	for i := range now {
		same := now[i] == q.flagBits[i]
		if v, ok := p.bitVal(now[i]); ok {
			same = same || is(q.flagBits[i], v)
		}
		if int64(i) != own || !q.changed {
			if !same {
				c.bad("flag", q.where+" others", pos, p, "%s changes flag bit %d of a message although it did not transform it with that mark", q.where, i)
			}
			continue
		}
		if !is(now[i], q.enc) {
			c.bad("flag", q.where+" own", pos, p, "%s transforms the message without %s its flag bit", q.where, map[bool]string{true: "setting", false: "clearing"}[q.enc])
		}
	}
	if !q.changed {
		return
	}
	if own == -2 {
		c.bad("flag", q.where+" index", pos, p, "%s transforms a message although its flag bit does not exist", q.where)
	}
	if own >= 0 && !q.enc && !is(q.flagBits[own], true) {
		c.bad("flag", q.where+" unmarked", pos, p, "%s transforms a message that is not marked", q.where)
	}
	if own == 7 && q.enc && strings.Contains(q.fn.String(), "gzip") && !is(q.flagBits[own], false) {
		c.bad("flag", q.where+" twice", pos, p, "%s transforms a message that is marked as transformed already", q.where)
	}
}

// sources: only results of calls that did not fail.
func (q *coderRun) sources(pos token.Pos) {
	c, p := q.c, q.p
	for _, s := range q.rest {
		if s.src == nil || s.src == q.b0 {
			continue
		}
		s.src.walk(func(t *Term) bool {
			if t.op == "call" && t.typ != nil {
				if tu, ok := t.typ.(*types.Tuple); ok && tu.Len() > 0 && isErrorType(tu.At(tu.Len()-1).Type()) {
					c.ob("results used")
					if !p.isNull(p.part(t, tu.Len()-1)) {
						c.bad("failure", q.where, pos, p, "%s puts the result of %s into the message without having seen that it succeeded", q.where, shortName(t.s))
					}
				}
			}
			return false
		})
	}
}

func (q *coderRun) bad(pos token.Pos, what string) {
	q.c.bad("content", q.where, pos, q.p, "%s leaves %s: %s", q.where, segString(q.segs), what)
}

// gzip: B[5:] is exchanged for its compressed / uncompressed form.
func (q *coderRun) gzip(pos token.Pos) {
	p, tt := q.p, q.p.ex.tt
	if len(q.rest) != 1 || q.rest[0].src == nil || !p.whole(q.rest, q.rest[0].src) {
		q.bad(pos, "not all of the converted bytes")
		return
	}
	x := q.rest[0].src
	five := tt.Int(5)
	orig := func(d *Term, at int) bool {
		in, ok := p.layout(d, at, 0)
		return ok && p.from(in, q.b0, five, p.sub(q.n0, five))
	}
	if q.enc {
		var buf *Term
		end := -1
		for i, e := range p.events {
			if e.Kind == "call" && e.Res == x && strings.HasSuffix(e.Name, "bytes.Buffer).Bytes") {
				buf, end = e.Args[0], i
			}
		}
		if buf == nil {
			q.bad(pos, "they are not the bytes collected from a compressor")
			return
		}
		var wr *Term
		wrote, closed := -1, -1
		for i, e := range p.events[:end] {
			if e.Kind != "call" || len(e.Args) == 0 {
				continue
			}
			switch {
			case strings.HasSuffix(e.Name, "gzip.Writer).Write"):
				if wrote >= 0 || !orig(e.Args[1], i) {
					q.bad(e.Pos, "something else than the bytes behind the flag byte is compressed")
					return
				}
				wr, wrote = e.Args[0], i
			case strings.HasSuffix(e.Name, "gzip.Writer).Close") && e.Args[0] == wr:
				closed = i
			}
		}
		if wrote < 0 || closed < wrote {
			q.bad(pos, "the compressed stream is taken before it is complete")
			return
		}
		if !wr.contains(buf) && !q.reset(wr, buf, wrote) {
			q.bad(pos, "the compressor writes elsewhere")
		}
		return
	}
	var rd *Term
	for i, e := range p.events {
		if e.Kind != "call" {
			continue
		}
		all := strings.HasSuffix(e.Name, ".ReadAll") && x == p.part(e.Res, 0)
		cp := (strings.HasSuffix(e.Name, "io.Copy") || strings.HasSuffix(e.Name, "bytes.Buffer).ReadFrom")) && q.bytesOf(x, e.Args[0])
		if all || cp {
			rd = e.Args[len(e.Args)-1]
			if cp && !p.isNull(p.part(e.Res, 1)) {
				q.bad(e.Pos, "reading them may have failed")
			}
		}
		if rd == nil || !(all || cp) {
			continue
		}
		ok := false
		rd.walk(func(t *Term) bool {
			if isCallTerm(t, "bytes.NewReader") || isCallTerm(t, "bytes.NewBuffer") {
				ok = ok || orig(t.args[0], i)
			}
			return false
		})
		gz := false
		rd.walk(func(t *Term) bool { gz = gz || isCallTerm(t, "compress/gzip.NewReader"); return false })
		if !ok || !gz {
			q.bad(e.Pos, "something else than the bytes behind the flag byte is uncompressed")
		}
	}
	if rd == nil {
		q.bad(pos, "they are not what the decompressor returned")
	}
}

func (q *coderRun) reset(wr, buf *Term, before int) bool {
	ok := false
	for _, e := range q.p.events[:before] {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "gzip.Writer).Reset") && e.Args[0] == wr {
			ok = e.Args[1].contains(buf)
		}
	}
	return ok
}

func (q *coderRun) bytesOf(x, dst *Term) bool {
	if dst.op == "iface" {
		dst = dst.args[0]
	}
	return isCallTerm(x, "bytes.Buffer).Bytes") && x.args[0] == dst
}

// appender: name, value and their length behind the message.
func (q *coderRun) appender(pos token.Pos) {
	p, tt := q.p, q.p.ex.tt
	ap := p.ex.ParamTerms(q.fn)[0]
	var key *Term
	for _, v := range fieldsWhere(deref(q.fn.Params[0].Type()), func(v *types.Var) bool { return isString(v.Type()) }) {
		key = tt.mk("init", "", v.Type(), nil, p.ex.field(ap, v))
	}
	if key == nil {
		q.bad(pos, "the appender has no name")
		return
	}
	kl := p.ex.lenOf(p.State, key)
	var conv *Event
	for _, e := range p.events {
		if e.Kind == "dyn" && loadBase(e.Args[0]) == ap {
			if conv != nil {
				q.bad(e.Pos, "a value is converted twice")
				return
			}
			conv = e
		}
	}
	if conv == nil {
		q.bad(pos, "no value was converted")
		return
	}
	if q.enc {
		// the value stored in the message under the name
		got := false
		for _, e := range p.events {
			if e.Kind == "mapget" && e.Args[1].op == "iface" && e.Args[1].args[0] == key && loadField(e.Args[0]) == q.vals && loadBase(e.Args[0]) == q.msg {
				got = got || e.Res == conv.Args[1] || p.part(e.Res, 0) == conv.Args[1]
			}
		}
		if !got {
			q.bad(conv.Pos, "another value than the one stored under the name is appended")
		}
		val := p.part(conv.Res, 0)
		vl := p.ex.lenOf(p.State, val)
		a := p.sub(q.n0, tt.Int(5))
		b := p.add(a, kl)
		d := p.add(b, vl)
		s1, ok1 := p.cut(q.rest, tt.Int(0), a)
		s2, ok2 := p.cut(q.rest, a, b)
		s3, ok3 := p.cut(q.rest, b, d)
		s4, ok4 := p.cut(q.rest, d, p.sub(q.n1, tt.Int(5)))
		if !ok1 || !ok2 || !ok3 || !ok4 {
			q.bad(pos, "the parts cannot be told apart")
			return
		}
		switch {
		case !p.from(s1, q.b0, tt.Int(5), a):
			q.bad(pos, "the message itself is changed")
		case !p.whole(s2, key):
			q.bad(pos, "the name does not follow the message")
		case !p.whole(s3, val):
			q.bad(pos, "the value does not follow the name")
		case len(s4) != 2 || s4[0].elem == nil || s4[1].elem == nil:
			q.bad(pos, "the length does not follow the value")
		default:
			bs := append(append([]bit{}, tt.bitsOf(s4[1].elem, 8)...), tt.bitsOf(s4[0].elem, 8)...)
			if !p.lowBits(tt.Bits(bs, types.Typ[types.Uint16]), p.add(p.add(kl, vl), tt.Int(2)), 16) {
				q.bad(pos, "the length stored is not that of name, value and length")
			}
		}
		return
	}
	al := q.trailer()
	keep := p.sub(q.n0, al)
	if !p.from(q.rest, q.b0, tt.Int(5), p.sub(keep, tt.Int(5))) {
		q.bad(pos, "not exactly the appended bytes are removed")
	}
	in, ok := p.layout(conv.Args[1], len(p.events), 0)
	lo := p.add(keep, kl)
	if !ok || !p.from(in, q.b0, lo, p.sub(p.sub(q.n0, tt.Int(2)), lo)) {
		q.bad(conv.Pos, "another part than the appended value is converted")
	}
	if !q.nameSeen(key, keep, true) {
		q.bad(pos, "bytes that were appended under another name are removed")
	}
	// the value becomes visible exactly if the conversion succeeded
	set := false
	for _, e := range p.events {
		if e.Kind != "mapset" {
			continue
		}
		if e.Args[1].op == "iface" && e.Args[1].args[0] == key && e.Args[2] == p.part(conv.Res, 0) && p.isNull(p.part(conv.Res, 1)) {
			set = true
			continue
		}
		q.bad(e.Pos, "something else than the converted value is stored")
	}
	if p.isNull(p.part(conv.Res, 1)) && !set && !p.isNull(p.part(conv.Res, 0)) {
		q.bad(pos, "the converted value is not stored in the message")
	}
}

// trailer: the length in the last two bytes.
func (q *coderRun) trailer() *Term {
	p, tt := q.p, q.p.ex.tt
	u8 := types.Typ[types.Uint8]
	at := func(d int64) *Term {
		return tt.mk("init", "", u8, nil, p.ex.idx(q.b0, p.add(q.n0, tt.Int(-d)), u8))
	}
	bs := append(append([]bit{}, tt.bitsOf(at(1), 8)...), tt.bitsOf(at(2), 8)...)
	return p.ex.convert(tt.Bits(bs, types.Typ[types.Uint16]), types.Typ[types.Int])
}

// nameSeen: the path compared the appended name with the appender's own, with this result.
func (q *coderRun) nameSeen(key, keep *Term, want bool) bool {
	p := q.p
	kl := p.ex.lenOf(p.State, key)
	for t, v := range p.facts {
		for t.op == "not" {
			t, v = t.args[0], !v
		}
		if (!(t.op == "cmp" && t.s == "==") && t.op != "call") || v != want {
			continue
		}
		if t.op == "call" && !isCallTerm(t, "bytes.Equal") {
			continue
		}
		a, b := t.args[0], t.args[1]
		for _, x := range [][2]*Term{{a, b}, {b, a}} {
			if bytesBehind(x[0]) != key {
				continue
			}
			if in, ok := p.layout(x[1], len(p.events), 0); ok && p.from(in, q.b0, keep, kl) {
				return true
			}
		}
	}
	return false
}

// skipped: a marked message is left alone only if it cannot be decoded.
func (q *coderRun) skipped(pos token.Pos, pkg string, own int64) {
	c, p, tt := q.c, q.p, q.p.ex.tt
	for _, e := range p.events {
		if e.Kind == "mapset" {
			c.bad("content", q.where+" values", e.Pos, p, "%s stores values of a message it did not decode", q.where)
		}
	}
	failed := false
	short := int64(16 - 5)
	for _, e := range p.events {
		if e.Kind != "call" && e.Kind != "dyn" || e.Res == nil || e.Res.typ == nil {
			continue
		}
		if tu, ok := e.Res.typ.(*types.Tuple); ok && tu.Len() > 0 && isErrorType(tu.At(tu.Len()-1).Type()) {
			if n, known := p.isNil(p.part(e.Res, tu.Len()-1)); known && !n {
				failed = true
			}
			if sl, ok := tu.At(0).Type().Underlying().(*types.Slice); ok && sl != nil {
				if _, hi := p.rng(p.ex.lenOf(p.State, p.part(e.Res, 0))); hi < short {
					failed = true
				}
			}
		} else if isErrorType(e.Res.typ) {
			if n, known := p.isNil(e.Res); known && !n {
				failed = true
			}
		}
	}
	if failed {
		return
	}
	ml := tt.mk("init", "", types.Typ[types.Uint8], nil, p.ex.idx(q.b0, tt.Int(7), types.Typ[types.Uint8]))
	switch {
	case pkg == "extension/middleware/coder":
		if own < 0 {
			return
		}
		if v, ok := p.bitVal(q.flagBits[own]); ok && !v {
			return
		}
		ap := p.ex.ParamTerms(q.fn)[0]
		var key *Term
		for _, v := range fieldsWhere(deref(q.fn.Params[0].Type()), func(v *types.Var) bool { return isString(v.Type()) }) {
			key = tt.mk("init", "", v.Type(), nil, p.ex.field(ap, v))
		}
		for _, v := range fieldsWhere(deref(q.fn.Params[0].Type()), func(v *types.Var) bool {
			s, ok := v.Type().Underlying().(*types.Signature)
			return ok && s.Params().Len() == 1 && !types.IsInterface(s.Params().At(0).Type())
		}) {
			if p.isNull(p.loadF(ap, v)) {
				return
			}
		}
		if key == nil {
			return
		}
		al, kl := q.trailer(), p.ex.lenOf(p.State, key)
		if p.le(p.add(al, tt.Int(1)), p.add(kl, tt.Int(2))) || p.le(p.add(p.sub(q.n0, tt.Int(16)), tt.Int(1)), al) {
			return
		}
		if q.nameSeen(key, p.sub(q.n0, al), false) {
			return
		}
	case own == 7:
		if v, ok := p.bitVal(q.flagBits[own]); ok && !v {
			return
		}
	default:
		if p.le(p.add(q.n0, tt.Int(1)), p.add(p.ex.convert(ml, types.Typ[types.Int]), tt.Int(16))) {
			return
		}
	}
	c.bad("flag", q.where+" left", pos, p, "%s leaves a message undecoded that it could decode", q.where)
}

// packed: the body behind the method is exchanged for the packed body and values.
func (q *coderRun) packed(pos token.Pos) {
	p, tt := q.p, q.p.ex.tt
	u8 := types.Typ[types.Uint8]
	ml := p.ex.convert(tt.mk("init", "", u8, nil, p.ex.idx(q.b0, tt.Int(7), u8)), types.Typ[types.Int])
	head := p.add(ml, tt.Int(16))
	s1, ok1 := p.cut(q.rest, tt.Int(0), p.sub(head, tt.Int(5)))
	s2, ok2 := p.cut(q.rest, p.sub(head, tt.Int(5)), p.sub(q.n1, tt.Int(5)))
	if !ok1 || !ok2 {
		q.bad(pos, "header, method and body cannot be told apart")
		return
	}
	if !p.from(s1, q.b0, tt.Int(5), p.sub(head, tt.Int(5))) {
		q.bad(pos, "header or method is changed")
		return
	}
	isBody := func(t *Term, at int) bool {
		in, ok := p.layout(t, at, 0)
		return ok && p.from(in, q.b0, head, p.sub(q.n0, head))
	}
	vals := tt.mk("init", "", q.vals.Type(), nil, p.ex.field(q.msg, q.vals))
	if q.enc {
		for i, e := range p.events {
			if e.Kind != "call" || len(s2) == 0 || p.part(e.Res, 0) != s2[0].src {
				continue
			}
			if !p.whole(s2, s2[0].src) {
				q.bad(pos, "not all of the packed bytes")
			}
			body, values := false, false
			p.contents(e.Args, i, 0, func(t *Term) {
				body = body || isBody(t, i)
				values = values || t == vals
			})
			if !body || !values {
				q.bad(e.Pos, "body and values are not both packed")
			}
			return
		}
		q.bad(pos, "the body is not what the packing returned")
		return
	}
	for i, e := range p.events {
		if e.Kind != "call" || !strings.HasSuffix(e.Name, ".Unmarshal") {
			continue
		}
		if !isBody(e.Args[0], i) {
			q.bad(e.Pos, "something else than the body is unpacked")
		}
		if !p.isNull(e.Res) {
			q.bad(e.Pos, "the body may not have been unpacked")
		}
		obj := e.Args[1]
		for obj.op == "iface" {
			obj = obj.args[0]
		}
		if len(s2) > 0 && !(s2[0].src != nil && s2[0].src.contains(obj) && p.whole(s2, s2[0].src)) {
			q.bad(pos, "the body is not the unpacked one")
		}
		// every unpacked value is stored
		ranged := false
		for j, r := range p.events {
			if r.Kind == "rangeend" && r.Args[0].contains(obj) {
				ranged = true
			}
			if r.Kind != "range" || !r.Args[0].contains(obj) {
				continue
			}
			set := p.isNull(r.Args[1]) || p.isNull(r.Args[2])
			for _, s := range p.events[j:] {
				if s.Kind == "range" && s != r {
					break
				}
				set = set || s.Kind == "mapset" && s.Args[1] == r.Args[1] && s.Args[2] == r.Args[2]
			}
			if !set {
				q.bad(r.Pos, "an unpacked value is dropped")
			}
		}
		if !ranged {
			q.bad(pos, "the unpacked values are dropped")
		}
		return
	}
	q.bad(pos, "nothing was unpacked")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Path) isNull(t *Term) bool { v, k := p.isNil(t); return v && k }

func (p *Path) part(t *Term, i int) *Term { return p.ex.extract(t, i, nil) }

// contents: every term reachable from the arguments, through objects made on the path, at event at.
func (p *Path) contents(in []*Term, at, d int, f func(*Term)) {
	if d > 6 {
		return
	}
	for _, t := range in {
		if t == nil {
			continue
		}
		f(t)
		switch t.op {
		case "iface", "struct":
			p.contents(t.args, at, d+1, f)
		case "alloc":
			last := map[*Term]*Term{}
			for _, e := range p.events[:at] {
				if e.Kind == "store" && e.Args[0].root() == t {
					last[e.Args[0]] = e.Args[1]
				}
			}
			for _, v := range last {
				p.contents([]*Term{v}, at, d+1, f)
			}
		}
	}
}
