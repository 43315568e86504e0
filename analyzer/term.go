package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value. Two program values are known to be the
// same exactly when their terms are the same pointer.
type Term struct {
	id   int
	op   string
	args []*Term
	s    string      // discriminator (name, site, number)
	typ  types.Type  // Go type, may be nil
	aux  interface{} // *ssa.Function, constant.Value, *types.Var, []bit ...
	key  string
}

type TermTab struct {
	tab  map[string]*Term
	next int
}

func newTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

func (tt *TermTab) mk(op, s string, typ types.Type, aux interface{}, args ...*Term) *Term {
	return tt.mkK("", op, s, typ, aux, args...)
}

// mkK is mk with an extra part of the identity: terms numbered per exploration
// are kept apart by their type, so that one exploration's object never
// inherits the type of another's.
func (tt *TermTab) mkK(extra, op, s string, typ types.Type, aux interface{}, args ...*Term) *Term {
	var b strings.Builder
	if extra != "" {
		b.WriteString(extra)
		b.WriteByte('!')
	}
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, args: args, s: s, typ: typ, aux: aux, key: k}
	tt.tab[k] = t
	return t
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if strings.Contains(k, "byte") {
		k = byteWord.ReplaceAllString(k, "uint8")
	}
	return k
}

var byteWord = regexp.MustCompile(`\bbyte\b`)

func (tt *TermTab) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tt.mk("nil", "", typ, nil)
	}
	k := "v"
	switch v.Kind() {
	case constant.Int, constant.Float:
		k = "n"
	case constant.String:
		k = "s"
	case constant.Bool:
		k = "b"
	}
	return tt.mk("const", k+v.ExactString(), typ, v)
}

func (tt *TermTab) Int(n int64) *Term {
	return tt.Const(constant.MakeInt64(n), types.Typ[types.Int])
}
func (tt *TermTab) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *TermTab) Nil() *Term { return tt.mk("nil", "", nil, nil) }

func (t *Term) IsConst() bool { return t.op == "const" }
func (t *Term) IsNil() bool   { return t.op == "nil" }
func (t *Term) BoolVal() (bool, bool) {
	if t.op == "const" {
		if v := t.aux.(constant.Value); v.Kind() == constant.Bool {
			return constant.BoolVal(v), true
		}
	}
	return false, false
}
func (t *Term) IntVal() (int64, bool) {
	if t.op == "const" {
		v := t.aux.(constant.Value)
		if v.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v); ok {
				return n, true
			}
			if u, ok := constant.Uint64Val(v); ok {
				return int64(u), true
			}
		}
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.op == "const" {
		v := t.aux.(constant.Value)
		if v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

// zero value of a type.
func (tt *TermTab) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return tt.Const(constant.MakeInt64(0), typ)
		case u.Info()&types.IsFloat != 0:
			return tt.Const(constant.MakeInt64(0), typ)
		case u.Info()&types.IsString != 0:
			return tt.Const(constant.MakeString(""), typ)
		}
		return tt.Nil()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, tt.Zero(u.Field(i).Type()))
		}
		return tt.mk("struct", typeKey(typ), typ, nil, fs...)
	case *types.Array:
		return tt.mk("zeroarr", typeKey(typ), typ, nil)
	}
	return tt.Nil()
}

func (t *Term) fieldVar() *types.Var {
	if t.op == "field" || t.op == "fieldv" {
		if v, ok := t.aux.(*types.Var); ok {
			return v
		}
	}
	return nil
}

// root of an address term
func (t *Term) root() *Term {
	for t.op == "field" || t.op == "idx" {
		t = t.args[0]
	}
	return t
}

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case "const":
		return t.aux.(constant.Value).String()
	case "nil":
		return "nil"
	case "param":
		return t.s
	case "global":
		return "&" + t.s
	case "alloc":
		return "obj" + strings.TrimPrefix(t.s, "#")
	case "field":
		return a(0) + "." + t.fieldVar().Name()
	case "fieldv":
		return a(0) + "." + t.fieldVar().Name()
	case "idx":
		return a(0) + "[" + a(1) + "]"
	case "init":
		return "*" + a(0)
	case "ver":
		return "*" + a(0) + "'" + t.s
	case "gval":
		return t.s
	case "fn":
		return t.s
	case "closure":
		return "func " + t.aux.(*ssa.Function).Name()
	case "bits":
		if len(t.aux.([]bit)) > 8 {
			return fmt.Sprintf("bits#%d", t.id)
		}
		return "bits" + t.s
	}
	var as []string
	for i := range t.args {
		as = append(as, a(i))
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) walk(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.walk(f) {
			return true
		}
	}
	return false
}

// ---- linear forms -------------------------------------------------------

type lin struct {
	c     int64
	coeff map[*Term]int64
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func toLin(t *Term, depth int) lin {
	r := lin{coeff: map[*Term]int64{}}
	if n, ok := t.IntVal(); ok {
		r.c = n
		return r
	}
	if depth < 12 {
		switch t.op {
		case "bin":
			switch t.s {
			case "+", "-":
				a, b := toLin(t.args[0], depth+1), toLin(t.args[1], depth+1)
				sg := int64(1)
				if t.s == "-" {
					sg = -1
				}
				for k, v := range b.coeff {
					a.coeff[k] += sg * v
					if a.coeff[k] == 0 {
						delete(a.coeff, k)
					}
				}
				a.c += sg * b.c
				return a
			case "*":
				if n, ok := t.args[0].IntVal(); ok {
					return toLin(t.args[1], depth+1).scale(n)
				}
				if n, ok := t.args[1].IntVal(); ok {
					return toLin(t.args[0], depth+1).scale(n)
				}
			}
		case "conv":
			if widening(t) {
				return toLin(t.args[0], depth+1)
			}
		}
	}
	r.coeff[t] = 1
	return r
}

func intSize(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int64, types.Int, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func widening(t *Term) bool {
	if t.typ == nil || t.args[0].typ == nil {
		return false
	}
	to, tu := intSize(t.typ)
	from, fu := intSize(t.args[0].typ)
	if to == 0 || from == 0 {
		return false
	}
	if tu == fu {
		return to >= from
	}
	return fu && to > from // unsigned into a wider signed type; the rest may change the value
}

func (l lin) scale(n int64) lin {
	r := lin{c: l.c * n, coeff: map[*Term]int64{}}
	for k, v := range l.coeff {
		if v*n != 0 {
			r.coeff[k] = v * n
		}
	}
	return r
}

func (l lin) sub(o lin) lin {
	r := lin{c: l.c - o.c, coeff: map[*Term]int64{}}
	for k, v := range l.coeff {
		r.coeff[k] = v
	}
	for k, v := range o.coeff {
		r.coeff[k] -= v
		if r.coeff[k] == 0 {
			delete(r.coeff, k)
		}
	}
	return r
}

// canon returns key of the linear form without its constant, with a positive
// leading coefficient, and the sign that was applied.
func (l lin) canon() (string, int64) {
	if len(l.coeff) == 0 {
		return "", 1
	}
	ids := make([]*Term, 0, len(l.coeff))
	for k := range l.coeff {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	sg := int64(1)
	if l.coeff[ids[0]] < 0 {
		sg = -1
	}
	var b strings.Builder
	for _, k := range ids {
		fmt.Fprintf(&b, "%d*%d;", sg*l.coeff[k], k.id)
	}
	return b.String(), sg
}

func (l lin) terms() []*Term {
	ids := make([]*Term, 0, len(l.coeff))
	for k := range l.coeff {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	return ids
}

const (
	negInf = int64(-1) << 62
	posInf = int64(1) << 62
)

type interval struct {
	lo, hi int64
	ne     map[int64]bool
}

// ---- bit vectors --------------------------------------------------------

// bit is one bit of a value: constant 0/1 (src==nil) or bit idx of term src.
type bit struct {
	src *Term
	idx int
	one bool
	neg bool
}

func (b bit) String() string {
	if b.src == nil {
		if b.one {
			return "1"
		}
		return "0"
	}
	n := ""
	if b.neg {
		n = "~"
	}
	return fmt.Sprintf("%s%d.%d", n, b.src.id, b.idx)
}

func (tt *TermTab) bitsOf(t *Term, width int) []bit {
	out := make([]bit, width)
	switch {
	case t.op == "bits":
		bs := t.aux.([]bit)
		for i := range out {
			if i < len(bs) {
				out[i] = bs[i]
			}
		}
		return out
	case t.op == "const":
		v := t.aux.(constant.Value)
		var u uint64
		if n, ok := constant.Int64Val(constant.ToInt(v)); ok {
			u = uint64(n)
		} else if n, ok := constant.Uint64Val(constant.ToInt(v)); ok {
			u = n
		}
		for i := range out {
			if i < 64 {
				out[i] = bit{one: u>>uint(i)&1 == 1}
			}
		}
		return out
	case t.op == "bin" && t.s == ">>" && t.typ != nil && len(t.args) == 2:
		n, ok := t.args[1].IntVal()
		if w, _ := intSize(t.typ); ok && n >= 0 && w > 0 {
			in := tt.bitsOf(t.args[0], w)
			for i := range out {
				if j := i + int(n); j < w {
					out[i] = in[j]
				} else {
					out[i] = in[w-1]
				}
			}
			return out
		}
	case t.op == "conv" && t.typ != nil && t.args[0].typ != nil:
		fw, fu := intSize(t.args[0].typ)
		tw, _ := intSize(t.typ)
		if fw > 0 && tw > 0 {
			in := tt.bitsOf(t.args[0], fw)
			for i := range out {
				if i < tw {
					if i < len(in) {
						out[i] = in[i]
					} else if !fu {
						out[i] = in[len(in)-1]
					}
				}
			}
			return out
		}
	}
	w := 64
	if t.typ != nil {
		if n, _ := intSize(t.typ); n > 0 {
			w = n
		}
	}
	for i := range out {
		if i < w {
			out[i] = bit{src: t, idx: i}
		}
	}
	return out
}

// Bits builds a value from bits, collapsing to the source term when it is just that.
func (tt *TermTab) Bits(bs []bit, typ types.Type) *Term {
	allc := true
	var u uint64
	for i, b := range bs {
		if b.src != nil {
			allc = false
			break
		}
		if b.one && i < 64 {
			u |= 1 << uint(i)
		}
	}
	if allc {
		return tt.Const(constant.MakeUint64(u), typ)
	}
	if bs[0].src != nil && bs[0].idx == 0 && !bs[0].neg {
		src := bs[0].src
		w := 64
		if src.typ != nil {
			if n, _ := intSize(src.typ); n > 0 {
				w = n
			}
		}
		ok := true
		for i, b := range bs {
			if i < w {
				if b.src != src || b.idx != i || b.neg {
					ok = false
					break
				}
			} else if b.src != nil || b.one {
				ok = false
				break
			}
		}
		if ok && len(bs) >= w {
			if src.typ != nil && typ != nil && types.Identical(src.typ.Underlying(), typ.Underlying()) {
				return src
			}
			if typ != nil && src.typ != nil {
				return tt.mk("conv", typeKey(typ), typ, nil, src)
			}
			return src
		}
	}
	var sb strings.Builder
	for i, b := range bs {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(b.String())
	}
	cp := append([]bit(nil), bs...)
	var srcs []*Term
	seen := map[*Term]bool{}
	for _, b := range cp {
		if b.src != nil && !seen[b.src] {
			seen[b.src] = true
			srcs = append(srcs, b.src)
		}
	}
	return tt.mk("bits", sb.String()+"/"+typeKey(typ), typ, cp, srcs...)
}

func flipBits(bs []bit) []bit {
	o := make([]bit, len(bs))
	for i, b := range bs {
		if b.src == nil {
			o[i] = bit{one: !b.one}
		} else {
			o[i] = bit{src: b.src, idx: b.idx, neg: !b.neg}
		}
	}
	return o
}

func bitAnd(a, b bit) (bit, bool) {
	if a.src == nil {
		if a.one {
			return b, true
		}
		return bit{}, true
	}
	if b.src == nil {
		return bitAnd(b, a)
	}
	if a == b {
		return a, true
	}
	return bit{}, false
}
func bitOr(a, b bit) (bit, bool) {
	if a.src == nil {
		if a.one {
			return bit{one: true}, true
		}
		return b, true
	}
	if b.src == nil {
		return bitOr(b, a)
	}
	if a == b {
		return a, true
	}
	return bit{}, false
}
func bitXor(a, b bit) (bit, bool) {
	if a.src == nil {
		if a.one {
			return flipBits([]bit{b})[0], true
		}
		return b, true
	}
	if b.src == nil {
		return bitXor(b, a)
	}
	if a == b {
		return bit{}, true
	}
	return bit{}, false
}

var _ = token.ADD

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }
