package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callee struct {
	fn    *ssa.Function // resolved function (may lack a body)
	bind  []*Term
	dyn   *Term // dynamic callee term
	name  string
	blt   string // builtin
	recvI *Term  // receiver of an unresolved interface call
}

func (ex *Ex) step(s *State) []*State {
	f := ex.top(s)
	switch f.mode {
	case 1, 2:
		return ex.stepUnwind(s, f)
	}
	if f.pc >= len(f.blk.Instrs) {
		s.done = "cut"
		return nil
	}
	in := f.blk.Instrs[f.pc]
	if ex.o.OnStep != nil {
		ex.o.OnStep(ex, s, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := ex.fresh(s, "alloc", "", x.Type())
		f.env[x] = t
		f.pc++
	case *ssa.Phi:
		// evaluate all phis of the block simultaneously
		var vals []*Term
		pi := -1
		for i, p := range f.blk.Preds {
			if p == f.prev {
				pi = i
			}
		}
		k := f.pc
		for k < len(f.blk.Instrs) {
			ph, ok := f.blk.Instrs[k].(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, ex.val(s, ph.Edges[pi]))
			k++
		}
		for i, v := range vals {
			f.env[f.blk.Instrs[f.pc+i].(*ssa.Phi)] = v
		}
		f.pc = k
	case *ssa.BinOp:
		a, b := ex.val(s, x.X), ex.val(s, x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			f.env[x] = ex.compare(x.Op, a, b)
		case token.ADD, token.SUB, token.MUL:
			if ex.wraps(s, x.Op, a, b, x.Type()) {
				f.env[x] = ex.tt.mk("wrap", x.Op.String(), x.Type(), nil, a, b)
			} else {
				f.env[x] = ex.arith(x.Op, a, b, x.Type())
			}
		default:
			f.env[x] = ex.arith(x.Op, a, b, x.Type())
		}
		f.pc++
	case *ssa.UnOp:
		return ex.stepUnOp(s, f, x)
	case *ssa.ChangeType:
		f.env[x] = ex.val(s, x.X)
		f.pc++
	case *ssa.ChangeInterface:
		f.env[x] = ex.val(s, x.X)
		f.pc++
	case *ssa.Convert:
		f.env[x] = ex.convert(ex.val(s, x.X), x.Type())
		ex.noteExact(s, f.env[x])
		f.pc++
	case *ssa.MultiConvert:
		f.env[x] = ex.convert(ex.val(s, x.X), x.Type())
		f.pc++
	case *ssa.SliceToArrayPointer:
		f.env[x] = ex.val(s, x.X)
		f.pc++
	case *ssa.MakeInterface:
		v := ex.val(s, x.X)
		f.env[x] = ex.tt.mk("iface", typeKey(x.X.Type()), x.Type(), x.X.Type(), v)
		f.pc++
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ex.val(s, b))
		}
		nm := fn.String()
		if fn.Synthetic == "" { // function literal: each evaluation is its own value
			s.n++
			nm = fmt.Sprintf("%s#%d", nm, s.n)
		}
		f.env[x] = ex.tt.mk("closure", nm, x.Type(), fn, bs...)
		f.pc++
	case *ssa.MakeMap:
		f.env[x] = ex.fresh(s, "makemap", "", x.Type())
		f.pc++
	case *ssa.MakeChan:
		f.env[x] = ex.fresh(s, "makechan", "", x.Type(), ex.val(s, x.Size))
		f.pc++
	case *ssa.MakeSlice:
		f.env[x] = ex.fresh(s, "makeslice", "", x.Type(), ex.val(s, x.Len))
		ex.emit(s, &Event{Kind: "makeslice", Args: []*Term{ex.val(s, x.Len)}, Res: f.env[x], Instr: x})
		f.pc++
	case *ssa.FieldAddr:
		base := ex.val(s, x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		if base.IsNil() {
			return ex.nilDeref(s, x)
		}
		f.env[x] = ex.field(base, st.Field(x.Field))
		f.pc++
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		f.env[x] = ex.fieldVal(ex.val(s, x.X), x.Field, st)
		f.pc++
	case *ssa.IndexAddr:
		base := ex.val(s, x.X)
		i := ex.val(s, x.Index)
		if ex.o.KeepLoads {
			ex.emit(s, &Event{Kind: "index", Args: []*Term{base, i}, Instr: x})
		}
		f.env[x] = ex.idx(base, i, deref(x.Type()))
		f.pc++
	case *ssa.Index:
		base := ex.val(s, x.X)
		i := ex.val(s, x.Index)
		if ex.o.KeepLoads {
			ex.emit(s, &Event{Kind: "index", Args: []*Term{base, i}, Instr: x})
		}
		f.env[x] = ex.tt.mk("index", "", x.Type(), nil, base, i)
		f.pc++
	case *ssa.Slice:
		ex.stepSlice(s, f, x)
	case *ssa.Lookup:
		return ex.stepLookup(s, f, x)
	case *ssa.MapUpdate:
		m, k, v := ex.val(s, x.Map), ex.val(s, x.Key), ex.val(s, x.Value)
		ex.emit(s, &Event{Kind: "mapset", Args: []*Term{m, k, v}, Instr: x})
		if m.op == "makemap" {
			s.mem[ex.tt.mk("mapempty", "", nil, nil, m)] = ex.tt.Bool(false)
			s.mem[ex.tt.mk("mapcell", "", nil, nil, m, k)] = v
		}
		f.pc++
	case *ssa.Range:
		f.env[x] = ex.tt.mk("range", fmt.Sprintf("%d", x.Pos()), nil, nil, ex.val(s, x.X))
		f.pc++
	case *ssa.Next:
		return ex.stepNext(s, f, x)
	case *ssa.TypeAssert:
		return ex.stepTypeAssert(s, f, x)
	case *ssa.Extract:
		t := ex.val(s, x.Tuple)
		f.env[x] = ex.extract(t, x.Index, x.Type())
		f.pc++
	case *ssa.Store:
		addr, v := ex.val(s, x.Addr), ex.val(s, x.Val)
		if addr.IsNil() {
			return ex.nilDeref(s, x)
		}
		et := deref(x.Addr.Type())
		ex.emit(s, &Event{Kind: "store", Args: []*Term{addr, v}, Instr: x})
		ex.store(s, addr, v, et)
		f.pc++
	case *ssa.Send:
		ch, v := ex.val(s, x.Chan), ex.val(s, x.X)
		ev := ex.emit(s, &Event{Kind: "send", Args: []*Term{ch, v}, Block: true, Instr: x})
		f.pc++
		return ex.afterEvent(s, ev)
	case *ssa.Select:
		return ex.stepSelect(s, f, x)
	case *ssa.If:
		c := ex.val(s, x.Cond)
		blk := f.blk
		if countedHere(blk) {
			if _, known := c.BoolVal(); known && f.visits[blk] > 0 && f.turns[blk] < 16 {
				// a loop counted by constants: each turn is a new one
				f.turns[blk]++
				f.visits[blk]--
				for b := range f.visits {
					if b != blk && blk.Dominates(b) {
						delete(f.visits, b)
						delete(f.lastFork, b)
					}
				}
			}
			if f.visits[blk] > ex.o.MaxLoop {
				s.done = "cut"
				s.cutPos = token.NoPos
				return []*State{s}
			}
		}
		tr, fa := ex.split(s, c)
		var out []*State
		if tr != nil {
			ex.jump(tr, blk.Succs[0], blk, &out)
		}
		if fa != nil {
			ex.jump(fa, blk.Succs[1], blk, &out)
		}
		return out
	case *ssa.Jump:
		var out []*State
		ex.jump(s, f.blk.Succs[0], f.blk, &out)
		return out
	case *ssa.Return:
		return ex.stepReturn(s, f, x)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return []*State{s}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return ex.doCall(s, d.instr, &d.instr.Call, d.c, d.args, true)
	case *ssa.Panic:
		ex.emit(s, &Event{Kind: "panic", Args: []*Term{ex.val(s, x.X)}, Instr: x})
		f.mode = 1
		return []*State{s}
	case *ssa.Go:
		c, args := ex.resolve(s, &x.Call)
		ev := ex.emit(s, &Event{Kind: "go", Name: c.name, Args: args, Res: c.dyn, Instr: x})
		f.pc++
		ex.addSpawn(s, c, args, "go", ev)
		return []*State{s}
	case *ssa.Defer:
		c, args := ex.resolve(s, &x.Call)
		f.defers = append(f.defers, deferred{x, c, args})
		f.pc++
	case *ssa.Call:
		c, args := ex.resolve(s, &x.Call)
		return ex.doCall(s, x, &x.Call, c, args, false)
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = ex.fresh(s, "opaque", fmt.Sprintf("%T", in), v.Type())
		}
		f.pc++
	}
	return []*State{s}
}

func (ex *Ex) addSpawn(s *State, c callee, args []*Term, kind string, ev *Event) {
	if c.fn == nil || ex.o.NoSpawn != nil && ex.o.NoSpawn(c.fn, args) {
		return
	}
	cnt := 0
	for _, sp := range s.spawned {
		if sp.fn == c.fn {
			cnt++
		}
	}
	if len(s.spawned) < 12 && cnt < 4 {
		s.spawned = append(s.spawned, spawn{fn: c.fn, bind: c.bind, args: args, kind: kind, ev: ev})
	}
}

func (ex *Ex) nilDeref(s *State, in ssa.Instruction) []*State {
	ex.emit(s, &Event{Kind: "nilderef", Instr: in})
	ex.top(s).mode = 1
	return []*State{s}
}

func intCompare(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		t, ok := b.X.Type().Underlying().(*types.Basic)
		return ok && t.Info()&types.IsInteger != 0
	}
	return false
}

// countedHere: the block ends by comparing a counter.
func countedHere(b *ssa.BasicBlock) bool {
	x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !intCompare(x.Cond) || len(b.Instrs) > 8 {
		return false
	}
	_, phi := b.Instrs[0].(*ssa.Phi)
	return phi
}

func (ex *Ex) jump(s *State, to, from *ssa.BasicBlock, out *[]*State) {
	f := ex.top(s)
	f.prev = from
	f.blk = to
	f.pc = 0
	if n, seen := f.lastFork[to]; seen {
		if s.forkN != n {
			f.visits[to]++
		}
	}
	f.lastFork[to] = s.forkN
	if f.visits[to] > ex.o.MaxLoop && !countedHere(to) || len(s.events) > 4000 {
		s.done = "cut"
		s.cutPos = token.NoPos
	}
	*out = append(*out, s)
}

func (ex *Ex) stepUnOp(s *State, f *Frame, x *ssa.UnOp) []*State {
	v := ex.val(s, x.X)
	switch x.Op {
	case token.MUL:
		if v.IsNil() {
			return ex.nilDeref(s, x)
		}
		r := ex.load(s, v, x.Type())
		if ex.o.KeepLoads {
			ex.emit(s, &Event{Kind: "load", Args: []*Term{v}, Res: r, Instr: x})
		}
		f.env[x] = r
		f.pc++
	case token.NOT:
		f.env[x] = ex.not(v)
		f.pc++
	case token.SUB:
		f.env[x] = ex.arith(token.SUB, ex.tt.Const(constant.MakeInt64(0), x.Type()), v, x.Type())
		f.pc++
	case token.XOR:
		if w, _ := intSize(x.Type()); w > 0 {
			if v.op == "const" {
				n, _ := v.IntVal()
				f.env[x] = ex.tt.Const(wrapConst(constant.MakeInt64(^n), x.Type()), x.Type())
			} else {
				f.env[x] = ex.tt.Bits(flipBits(ex.tt.bitsOf(v, w)), x.Type())
			}
		} else {
			f.env[x] = ex.tt.mk("compl", "", x.Type(), nil, v)
		}
		f.pc++
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		ev := ex.emit(s, &Event{Kind: "recv", Args: []*Term{v}, Block: true, Instr: x})
		f.pc++
		mk := func(st *State, ok bool) {
			var r *Term
			if ok {
				r = ex.fresh(st, "recv", "", et, v)
			} else {
				r = ex.tt.Zero(et)
			}
			ff := ex.top(st)
			if x.CommaOk {
				ff.env[x] = ex.tt.mk("tuple", "", nil, nil, r, ex.tt.Bool(ok))
			} else {
				ff.env[x] = r
			}
			e2 := *ev
			e2.Res = r
			e2.Chosen = 0
			if !ok {
				e2.Chosen = 1 // closed
			}
			if n := len(st.events); n > 0 && st.events[n-1] == ev {
				st.events = append(st.events[:n-1:n-1], &e2)
			}
		}
		if x.CommaOk || ex.mayBeClosed(v) {
			s2 := s.clone()
			s.forkN++
			s2.forkN++
			mk(s, true)
			mk(s2, false)
			return []*State{s, s2}
		}
		mk(s, true)
	default:
		f.env[x] = ex.tt.mk("un", x.Op.String(), x.Type(), nil, v)
		f.pc++
	}
	return []*State{s}
}

// mayBeClosed: the channel is a field some close() in the module targets.
func (ex *Ex) mayBeClosed(ch *Term) bool {
	if ch.op == "init" || ch.op == "ver" {
		if v := ch.args[0].fieldVar(); v != nil {
			return ex.w.closedFields[v]
		}
		return false
	}
	if ch.op == "makechan" {
		// allocated on this path: may be stored in a closable field
		if p, ok := ch.typ.Underlying().(*types.Chan); ok {
			for v := range ex.w.closedFields {
				if types.Identical(v.Type(), ch.typ) || types.Identical(v.Type().Underlying(), p) {
					return true
				}
			}
		}
		return false
	}
	return false
}

func (ex *Ex) stepSlice(s *State, f *Frame, x *ssa.Slice) {
	base := ex.val(s, x.X)
	I := types.Typ[types.Int]
	lo := ex.tt.Int(0)
	if x.Low != nil {
		lo = ex.val(s, x.Low)
		if n, ok := lo.IntVal(); ok {
			lo = ex.tt.Int(n)
		}
	}
	var full *Term
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			full = ex.tt.Int(a.Len())
		}
	}
	isPtr := full != nil
	if full == nil {
		full = ex.lenOf(s, base)
	}
	hi := full
	if x.High != nil {
		hi = ex.val(s, x.High)
		if n, ok := hi.IntVal(); ok {
			hi = ex.tt.Int(n)
		}
	}
	if ex.o.KeepLoads {
		ev := &Event{Kind: "slice", Args: []*Term{base, lo, hi, full}, Instr: x}
		if x.Max != nil {
			ev.Args = append(ev.Args, ex.val(s, x.Max))
		}
		ex.emit(s, ev)
	}
	f.pc++
	if n, ok := lo.IntVal(); ok && n == 0 && hi == full && !isPtr && x.Max == nil {
		f.env[x] = base
		return
	}
	var max *Term
	if x.Max != nil {
		max = ex.val(s, x.Max)
	}
	for base.op == "slice" {
		off := base.args[1]
		lo = ex.arith(token.ADD, off, lo, I)
		hi = ex.arith(token.ADD, off, hi, I)
		if max != nil {
			max = ex.arith(token.ADD, off, max, I)
		} else if len(base.args) > 3 {
			max = base.args[3]
		}
		base = base.args[0]
	}
	if max != nil { // the capacity is limited
		f.env[x] = ex.tt.mk("slice", "", x.Type(), nil, base, lo, hi, max)
		return
	}
	f.env[x] = ex.tt.mk("slice", "", x.Type(), nil, base, lo, hi)
}

func (ex *Ex) stepLookup(s *State, f *Frame, x *ssa.Lookup) []*State {
	m, k := ex.val(s, x.X), ex.val(s, x.Index)
	f.pc++
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		f.env[x] = ex.tt.mk("index", "", x.Type(), nil, m, k)
		return []*State{s}
	}
	vt := mt.Elem()
	set := func(st *State, v *Term, ok bool) {
		ff := ex.top(st)
		if x.CommaOk {
			ff.env[x] = ex.tt.mk("tuple", "", nil, nil, v, ex.tt.Bool(ok))
		} else {
			ff.env[x] = v
		}
		ch := 0
		if !ok {
			ch = 1
		}
		ex.emit(st, &Event{Kind: "mapget", Args: []*Term{m, k}, Res: v, Chosen: ch, Instr: x})
	}
	if m.IsNil() {
		set(s, ex.tt.Zero(vt), false)
		return []*State{s}
	}
	if m.op == "makemap" {
		if s.mem[ex.tt.mk("mapempty", "", nil, nil, m)] == nil {
			set(s, ex.tt.Zero(vt), false)
			return []*State{s}
		}
		if v := s.mem[ex.tt.mk("mapcell", "", nil, nil, m, k)]; v != nil {
			set(s, v, true)
			return []*State{s}
		}
	}
	for _, c := range s.maps {
		if c.m == m && c.k == k {
			if c.v == nil {
				set(s, ex.tt.Zero(vt), false)
			} else {
				set(s, c.v, true)
			}
			return []*State{s}
		}
	}
	s2 := s.clone()
	s.forkN++
	s2.forkN++
	set(s, ex.fresh(s, "lookup", "", vt, m, k), true)
	set(s2, ex.tt.Zero(vt), false)
	return []*State{s, s2}
}

func (ex *Ex) stepNext(s *State, f *Frame, x *ssa.Next) []*State {
	it := ex.val(s, x.Iter)
	m := it
	if it.op == "range" {
		m = it.args[0]
	}
	f.pc++
	tup := x.Type().(*types.Tuple)
	if m.IsNil() || m.op == "makemap" && s.mem[ex.tt.mk("mapempty", "", nil, nil, m)] == nil {
		f.env[x] = ex.tt.mk("tuple", "", nil, nil, ex.tt.Bool(false), ex.tt.Nil(), ex.tt.Nil())
		ex.emit(s, &Event{Kind: "rangeend", Args: []*Term{m}, Instr: x})
		return []*State{s}
	}
	s2 := s.clone()
	s.forkN++
	s2.forkN++
	var kt, vt types.Type
	if mt, ok := m.typeUnder().(*types.Map); ok {
		kt, vt = mt.Key(), mt.Elem()
	} else {
		kt, vt = tup.At(1).Type(), tup.At(2).Type()
	}
	k := ex.fresh(s, "rkey", "", kt, m)
	v := ex.fresh(s, "rval", "", vt, m, k)
	f.env[x] = ex.tt.mk("tuple", "", nil, nil, ex.tt.Bool(true), k, v)
	ex.emit(s, &Event{Kind: "range", Args: []*Term{m, k, v}, Instr: x})
	f2 := ex.top(s2)
	f2.env[x] = ex.tt.mk("tuple", "", nil, nil, ex.tt.Bool(false), ex.tt.Nil(), ex.tt.Nil())
	ex.emit(s2, &Event{Kind: "rangeend", Args: []*Term{m}, Instr: x})
	return []*State{s, s2}
}

func (t *Term) typeUnder() types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

func (ex *Ex) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	return ex.tt.mk("extract", fmt.Sprint(i), typ, nil, t)
}

func (ex *Ex) stepTypeAssert(s *State, f *Frame, x *ssa.TypeAssert) []*State {
	v := ex.val(s, x.X)
	to := x.AssertedType
	f.pc++
	set := func(st *State, r *Term, ok bool) {
		ff := ex.top(st)
		if x.CommaOk {
			ff.env[x] = ex.tt.mk("tuple", "", nil, nil, r, ex.tt.Bool(ok))
		} else {
			ff.env[x] = r
		}
	}
	unwrap := func(v *Term) *Term {
		if types.IsInterface(to) {
			return v
		}
		if v.op == "iface" {
			return v.args[0]
		}
		if v.op == "poolget" {
			return ex.tt.mkK(to.String(), "poolobj", v.s, to, nil)
		}
		return ex.tt.mk("unwrap", typeKey(to), to, nil, v)
	}
	if v.op == "iface" {
		ct := v.aux.(types.Type)
		ok := false
		if types.IsInterface(to) {
			ok = types.Implements(ct, to.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(ct, to)
		}
		if ok {
			set(s, unwrap(v), true)
			return []*State{s}
		}
		if x.CommaOk {
			set(s, ex.tt.Zero(to), false)
			return []*State{s}
		}
		ex.emit(s, &Event{Kind: "panic", Name: "type assertion", Instr: x})
		f.mode = 1
		return []*State{s}
	}
	if !x.CommaOk {
		set(s, unwrap(v), true)
		return []*State{s}
	}
	if v.IsNil() {
		set(s, ex.tt.Zero(to), false)
		return []*State{s}
	}
	atom := ex.tt.mk("istype", typeKey(to), types.Typ[types.Bool], to, v)
	tr, fa := ex.split(s, atom)
	var out []*State
	if tr != nil {
		set(tr, unwrap(v), true)
		out = append(out, tr)
	}
	if fa != nil {
		set(fa, ex.tt.Zero(to), false)
		out = append(out, fa)
	}
	return out
}

func (ex *Ex) stepSelect(s *State, f *Frame, x *ssa.Select) []*State {
	var cases []SelCase
	for _, st := range x.States {
		c := SelCase{Send: st.Dir == types.SendOnly, Ch: ex.val(s, st.Chan)}
		if c.Send {
			c.Val = ex.val(s, st.Send)
		}
		cases = append(cases, c)
	}
	f.pc++
	var out []*State
	total := len(cases)
	if !x.Blocking {
		total++
	}
	type choice struct {
		i  int
		ok bool
	}
	var chs []choice
	for i, c := range cases {
		if c.Ch.IsNil() {
			continue
		}
		chs = append(chs, choice{i, true})
		if !c.Send {
			// closed alternative: the zero value is received
			et := c.Ch.typ
			zs := false
			if et != nil {
				if ct, ok := et.Underlying().(*types.Chan); ok {
					if st, ok := ct.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
						zs = true
					}
				}
			}
			if !zs && ex.mayBeClosed(c.Ch) {
				chs = append(chs, choice{i, false})
			}
		}
	}
	if !x.Blocking {
		chs = append(chs, choice{-1, true})
	}
	for n, ch := range chs {
		st := s
		if n < len(chs)-1 {
			st = s.clone()
		}
		if len(chs) > 1 {
			st.forkN++
		}
		ff := ex.top(st)
		args := []*Term{ex.tt.Int(int64(ch.i)), ex.tt.Bool(ch.ok)}
		var res *Term
		for i, sst := range x.States {
			if sst.Dir == types.RecvOnly {
				et := sst.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == ch.i && ch.ok {
					res = ex.fresh(st, "recv", "", et, cases[i].Ch)
					args = append(args, res)
				} else {
					args = append(args, ex.tt.Zero(et))
				}
			}
		}
		ff.env[x] = ex.tt.mk("tuple", "", nil, nil, args...)
		nm := ""
		if !ch.ok {
			nm = "closed"
		}
		ev := ex.emit(st, &Event{Kind: "select", Name: nm, Cases: cases, Chosen: ch.i, Block: x.Blocking, Res: res, Instr: x})
		out = append(out, ex.afterEvent(st, ev)...)
	}
	if len(chs) == 0 {
		s.done = "cut"
	}
	return out
}

func (ex *Ex) afterEvent(s *State, ev *Event) []*State {
	if ex.o.PanicAt != nil && ex.o.PanicAt(ev) && ex.top(s).mode == 0 {
		s2 := s.clone()
		e := ex.emit(s2, &Event{Kind: "panic", Name: "user", Args: ev.Args, Instr: ev.Instr})
		e.Res = ev.Res
		ex.top(s2).mode = 1
		return []*State{s, s2}
	}
	return []*State{s}
}

func (ex *Ex) stepReturn(s *State, f *Frame, x *ssa.Return) []*State {
	var rs []*Term
	for _, r := range x.Results {
		rs = append(rs, ex.val(s, r))
	}
	return ex.popFrame(s, f, rs)
}

func (ex *Ex) popFrame(s *State, f *Frame, rs []*Term) []*State {
	if len(s.frames) == 1 {
		ex.emit(s, &Event{Kind: "return", Args: rs, Pos: f.fn.Pos()})
		s.frames = s.frames[:0]
		s.done = "return"
		if s.g == 0 {
			s.results = rs
		}
		return []*State{s}
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := ex.top(s)
	if f.isDefer {
		// continue RunDefers / unwinding of the caller at the same pc
		return []*State{s}
	}
	var r *Term
	switch len(rs) {
	case 0:
		r = ex.tt.Nil()
	case 1:
		r = rs[0]
	default:
		r = ex.tt.mk("tuple", "", nil, nil, rs...)
	}
	if v, ok := f.retTo.(ssa.Value); ok {
		c.env[v] = r
	}
	c.pc++
	return []*State{s}
}

func (ex *Ex) stepUnwind(s *State, f *Frame) []*State {
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return ex.doCall(s, d.instr, &d.instr.Call, d.c, d.args, true)
	}
	if f.mode == 2 {
		// recovered: return normally
		if f.fn.Recover != nil {
			f.mode = 0
			f.blk = f.fn.Recover
			f.pc = 0
			f.prev = nil
			return []*State{s}
		}
		var rs []*Term
		res := f.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, ex.tt.Zero(res.At(i).Type()))
		}
		f.mode = 0
		return ex.popFrame(s, f, rs)
	}
	// propagate
	if len(s.frames) == 1 {
		ex.emit(s, &Event{Kind: "escape", Pos: f.fn.Pos()})
		s.frames = s.frames[:0]
		s.done = "panic"
		return []*State{s}
	}
	s.frames = s.frames[:len(s.frames)-1]
	ex.top(s).mode = 1
	return []*State{s}
}

// ---- calls -------------------------------------------------------------------

func (ex *Ex) resolve(s *State, c *ssa.CallCommon) (callee, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := ex.val(s, c.Value)
		for _, a := range c.Args {
			args = append(args, ex.val(s, a))
		}
		if recv.op == "iface" {
			ct := recv.aux.(types.Type)
			fn := ex.w.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				return callee{fn: fn, name: fn.String()}, append([]*Term{recv.args[0]}, args...)
			}
		}
		if impl := ex.w.devirt(c.Value.Type()); impl != nil && !ex.o.NoDevirt {
			fn := ex.w.prog.LookupMethod(impl, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				r := ex.tt.mk("unwrap", typeKey(impl), impl, nil, recv)
				return callee{fn: fn, name: fn.String()}, append([]*Term{r}, args...)
			}
		}
		return callee{name: "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name(), recvI: recv}, append([]*Term{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(s, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return callee{blt: b.Name(), name: "builtin." + b.Name()}, args
	}
	v := ex.val(s, c.Value)
	return ex.resolveTerm(v), args
}

func (ex *Ex) resolveTerm(v *Term) callee {
	switch v.op {
	case "fn":
		fn := v.aux.(*ssa.Function)
		return callee{fn: fn, name: fn.String(), dyn: v}
	case "closure":
		fn := v.aux.(*ssa.Function)
		return callee{fn: fn, bind: v.args, name: fn.String(), dyn: v}
	}
	return callee{dyn: v, name: "dyn"}
}

func (ex *Ex) onStack(s *State, fn *ssa.Function) int {
	n := 0
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (ex *Ex) doCall(s *State, in ssa.Instruction, cc *ssa.CallCommon, c callee, args []*Term, isDefer bool) []*State {
	f := ex.top(s)
	setRes := func(st *State, r *Term) {
		if isDefer {
			return
		}
		if v, ok := in.(ssa.Value); ok {
			ex.top(st).env[v] = r
		}
	}
	adv := func(st *State) {
		if !isDefer {
			ex.top(st).pc++
		}
	}
	if c.blt != "" {
		return ex.builtin(s, in, cc, c.blt, args, isDefer, setRes, adv)
	}
	rt := types.Type(cc.Signature().Results())
	if cc.Signature().Results().Len() == 1 {
		rt = cc.Signature().Results().At(0).Type()
	}
	if out, ok := ex.intrinsic(s, in, c, args, rt, isDefer, setRes, adv); ok {
		return out
	}
	if c.fn != nil && len(c.fn.Blocks) > 0 && ex.w.inModule(c.fn) && !ex.w.opaquePkg(c.fn) && (ex.o.Opaque == nil || !ex.o.Opaque(c.fn)) &&
		ex.onStack(s, c.fn) < 2 && len(s.frames) < 30 {
		nf := ex.pushFrame(s, c.fn, args, c.bind, in)
		nf.isDefer = isDefer
		ex.emit(s, &Event{Kind: "enter", Name: c.name, Args: args, Instr: in})
		return []*State{s}
	}
	// opaque
	kind := "call"
	if c.fn == nil && c.recvI == nil {
		kind = "dyn"
	}
	ev := &Event{Kind: kind, Name: c.name, Args: args, Instr: in}
	if kind == "dyn" {
		ev.Args = append([]*Term{c.dyn}, args...)
		if c.dyn.IsNil() {
			adv(s)
			return ex.nilDeref(s, in)
		}
	}
	var r *Term
	if ex.o.Summ != nil {
		r = ex.o.Summ(ex, s, c.name, c.dyn, args, rt)
	}
	if r == nil {
		nm := c.name
		if kind == "dyn" {
			nm = "dyn"
		}
		r = ex.fresh(s, "call", nm, rt, ev.Args...)
		if ex.w.opaquePkg(c.fn) {
			// logging: no effect
		} else {
			ex.havocArgs(s, c.name, args)
			ex.havocWrites(s, c.fn, args)
		}
	}
	ev.Res = r
	if c.fn != nil && ex.w.isLogPkg(c.fn) {
		if ex.o.KeepLogs {
			le := &Event{Kind: "log", Name: c.name, Args: append([]*Term{}, args...), Instr: in}
			for _, a := range args {
				if a.op != "slice" || a.typ == nil || elemType(a.typ) == nil {
					continue
				}
				for i := int64(0); i < 8; i++ {
					if v, ok := s.mem[ex.idx(a.args[0], ex.tt.Int(i), elemType(a.typ))]; ok {
						le.Args = append(le.Args, v)
					}
				}
			}
			ex.emit(s, le)
		}
		setRes(s, r)
		adv(s)
		return []*State{s}
	}
	ex.emit(s, ev)
	if c.name == "time.AfterFunc" && len(args) == 2 {
		ex.addSpawn(s, ex.resolveTerm(args[1]), nil, "timer", ev)
	}
	for _, a := range args {
		if kind == "dyn" && (a.op == "closure") {
			// a function handed to unknown code (e.g. an executor): it may run it
			ex.addSpawn(s, ex.resolveTerm(a), nil, "exec", ev)
		}
	}
	setRes(s, r)
	adv(s)
	_ = f
	return ex.afterEvent(s, ev)
}

// havocWrites forgets the fields of freshly allocated structs handed to a
// library function that is not entered but may assign them.
func (ex *Ex) havocWrites(s *State, fn *ssa.Function, args []*Term) {
	if fn == nil || len(fn.Blocks) == 0 || !ex.w.inModule(fn) {
		return
	}
	for _, a := range args {
		x := a
		if x.op == "iface" {
			x = x.args[0]
		}
		if x.op != "alloc" || x.typ == nil {
			continue
		}
		st, ok := deref(x.typ).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		wr := ex.w.writesOf(fn)
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			if !wr[v] {
				continue
			}
			if _, nested := v.Type().Underlying().(*types.Struct); nested {
				continue
			}
			ex.store(s, ex.field(x, v), ex.fresh(s, "ver", "out", v.Type(), ex.field(x, v)), v.Type())
		}
	}
}

// copiedHead: the cells at the start of a byte buffer which a copy is known to fill.
func (ex *Ex) copiedHead(s *State, dst, src, dl, sl *Term) map[*Term]*Term {
	if src.typ == nil {
		return nil
	}
	st, ok := src.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if b, ok := st.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil
	}
	from := int64(0)
	if dst.op == "slice" {
		if from, ok = dst.args[1].IntVal(); !ok {
			return nil
		}
	}
	out := map[*Term]*Term{}
	for i := from; i < 16; i++ {
		a, _, _ := ex.rng(s, toLin(dl, 0))
		b, _, _ := ex.rng(s, toLin(sl, 0))
		if i-from >= a || i-from >= b {
			break
		}
		out[ex.idx(sliceBase(dst), ex.tt.Int(i), st.Elem())] = ex.load(s, ex.idx(src, ex.tt.Int(i-from), st.Elem()), st.Elem())
	}
	return out
}

// fillsIn: a library call whose purpose is to write into the value behind its argument.
func fillsIn(name string) bool {
	short := name[strings.LastIndex(name, ".")+1:]
	return strings.HasPrefix(short, "Unmarshal") || strings.HasPrefix(short, "Decode") || strings.HasPrefix(short, "Scan")
}

func (ex *Ex) havocArgs(s *State, name string, args []*Term) {
	for _, a := range args {
		x := a
		if x.op == "iface" {
			x = x.args[0]
		}
		if x.op == "alloc" && x.typ != nil {
			if n, ok := deref(x.typ).(*types.Named); ok && n.Obj().Pkg() != nil && ex.w.modPkg(n.Obj().Pkg()) {
				if _, isSt := n.Underlying().(*types.Struct); isSt && !fillsIn(name) {
					continue
				}
			}
			if _, isArr := deref(x.typ).Underlying().(*types.Array); isArr {
				continue
			}
			ex.havocRoot(s, x)
			continue
		}
		if x.typ != nil {
			if sl, ok := x.typ.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					short := name[strings.LastIndex(name, ".")+1:]
					if short == "ReadFull" || short == "Read" || short == "ReadAtLeast" || name == "dyn" && false {
						from := int64(0)
						if x.op == "slice" {
							if n, ok := x.args[1].IntVal(); ok {
								from = n
							}
						}
						ex.havocCells(s, x, from)
					}
				}
			}
		}
	}
}

func (ex *Ex) builtin(s *State, in ssa.Instruction, cc *ssa.CallCommon, name string, args []*Term, isDefer bool, setRes func(*State, *Term), adv func(*State)) []*State {
	switch name {
	case "len":
		setRes(s, ex.lenOf(s, args[0]))
	case "cap":
		t := args[0]
		if t.op == "makeslice" {
			setRes(s, t.args[0])
		} else {
			setRes(s, ex.tt.mk("cap", "", types.Typ[types.Int], nil, t))
		}
	case "append":
		var r *Term
		if len(args) == 2 {
			r = ex.tt.mk("append", "", cc.Signature().Results().At(0).Type(), nil, args[0], args[1])
			if n, ok := ex.lenOf(s, args[1]).IntVal(); ok && n == 0 {
				r = args[0]
			} else if ok {
				r = ex.inPlace(s, args[0], args[1], n, r)
			}
		} else {
			r = args[0]
		}
		ev := ex.emit(s, &Event{Kind: "append", Args: args, Res: r, Instr: in})
		_ = ev
		setRes(s, r)
	case "copy":
		cpEv := ex.emit(s, &Event{Kind: "copy", Args: args, Instr: in})
		setRes0 := setRes
		setRes := func(s *State, r *Term) {
			cpEv.Res = r
			setRes0(s, r)
		}
		from := int64(0)
		d := args[0]
		if d.op == "slice" {
			if n, ok := d.args[1].IntVal(); ok {
				from = n
			} else {
				lo, _, _ := ex.rng(s, toLin(d.args[1], 0))
				if lo > 0 {
					from = lo
				}
			}
		}
		dl, sl := ex.lenOf(s, args[0]), ex.lenOf(s, args[1])
		if n, ok := ex.exactCopy(s, d, args[1], dl, sl); ok {
			setRes(s, ex.tt.Int(n))
			break
		}
		keep := ex.copiedHead(s, d, args[1], dl, sl)
		ex.havocCells(s, d, from)
		for a, v := range keep {
			s.mem[a] = v
		}
		lo, hi, _ := ex.rng(s, toLin(dl, 0).sub(toLin(sl, 0)))
		switch {
		case lo >= 0: // all of the source fits
			setRes(s, sl)
		case hi <= 0:
			setRes(s, dl)
		default:
			n := ex.fresh(s, "copyn", "", types.Typ[types.Int], args...)
			ex.assumeRange(s, toLin(n, 0), 0, posInf, nil)
			ex.assumeRange(s, toLin(dl, 0).sub(toLin(n, 0)), 0, posInf, nil)
			ex.assumeRange(s, toLin(sl, 0).sub(toLin(n, 0)), 0, posInf, nil)
			setRes(s, n)
		}
	case "close":
		ex.emit(s, &Event{Kind: "close", Args: args, Instr: in})
	case "delete":
		ex.emit(s, &Event{Kind: "mapdel", Args: args, Instr: in})
	case "panic":
		ex.emit(s, &Event{Kind: "panic", Args: args, Instr: in})
		ex.top(s).mode = 1
		return []*State{s}
	case "recover":
		f := ex.top(s)
		var r *Term
		r = ex.tt.Nil()
		if f.isDefer && len(s.frames) >= 2 {
			p := s.frames[len(s.frames)-2]
			if p.mode == 1 {
				p.mode = 2
				r = ex.fresh(s, "recovered", "", nil)
				ex.w.nonNil[r] = true
				ex.emit(s, &Event{Kind: "recover", Instr: in})
			}
		}
		setRes(s, r)
	case "print", "println":
	case "min", "max":
		setRes(s, ex.tt.mk(name, "", nil, nil, args...))
	default:
		setRes(s, ex.fresh(s, "blt", name, nil, args...))
	}
	adv(s)
	return []*State{s}
}

func (ex *Ex) intrinsic(s *State, in ssa.Instruction, c callee, args []*Term, rt types.Type, isDefer bool, setRes func(*State, *Term), adv func(*State)) ([]*State, bool) {
	name := c.name
	one := func() ([]*State, bool) { adv(s); return []*State{s}, true }
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		ex.emit(s, &Event{Kind: "lock", Args: args, Instr: in})
		return one()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		ex.emit(s, &Event{Kind: "unlock", Args: args, Instr: in})
		return one()
	case "(*sync.RWMutex).RLock":
		ex.emit(s, &Event{Kind: "rlock", Args: args, Instr: in})
		return one()
	case "(*sync.RWMutex).RUnlock":
		ex.emit(s, &Event{Kind: "runlock", Args: args, Instr: in})
		return one()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		s2 := s.clone()
		s.forkN++
		s2.forkN++
		ex.emit(s, &Event{Kind: "lock", Args: args, Instr: in})
		setRes(s, ex.tt.Bool(true))
		setRes(s2, ex.tt.Bool(false))
		adv(s)
		adv(s2)
		return []*State{s, s2}, true
	case "(*sync.Once).Do":
		done := ex.tt.mk("oncedone", "", types.Typ[types.Bool], nil, args[0])
		tr, fa := ex.split(s, done)
		var out []*State
		if tr != nil {
			ex.emit(tr, &Event{Kind: "once", Args: args[:1], Chosen: 1, Instr: in})
			adv(tr)
			out = append(out, tr)
		}
		if fa != nil {
			ex.emit(fa, &Event{Kind: "once", Args: args[:1], Chosen: 0, Instr: in})
			// run it now; afterwards it is done
			delete(fa.facts, done)
			fa.facts[done] = true
			cl := ex.resolveTerm(args[1])
			if cl.fn != nil && len(cl.fn.Blocks) > 0 {
				nf := ex.pushFrame(fa, cl.fn, nil, cl.bind, in)
				nf.isDefer = isDefer
				ex.emit(fa, &Event{Kind: "enter", Name: cl.name, Instr: in})
			} else {
				ex.emit(fa, &Event{Kind: "dyn", Name: "dyn", Args: []*Term{args[1]}, Instr: in})
				adv(fa)
			}
			out = append(out, fa)
		}
		return out, true
	case "(*sync.Pool).Get":
		r := ex.fresh(s, "poolget", "", rt, args[0])
		ex.emit(s, &Event{Kind: "call", Name: name, Args: args, Res: r, Instr: in})
		setRes(s, r)
		return one()
	case "github.com/lesismal/arpc/util.StrToBytes":
		setRes(s, ex.tt.mk("s2b", "", rt, nil, args[0]))
		return one()
	case "github.com/lesismal/arpc/util.BytesToStr":
		setRes(s, ex.tt.mk("b2s", "", rt, nil, args[0]))
		return one()
	}
	if ex.o.ExecSpawn && c.fn != nil && c.fn.Name() == "AsyncExecute" && len(args) == 2 && ex.w.isHandlerMethod(c.fn) {
		ev := ex.emit(s, &Event{Kind: "exec", Name: name, Args: args, Instr: in})
		ex.addSpawn(s, ex.resolveTerm(args[1]), nil, "exec", ev)
		return one()
	}
	if ex.o.Summ != nil && c.fn != nil && ex.w.isHandlerMethod(c.fn) {
		switch c.fn.Name() {
		case "Malloc":
			r := ex.fresh(s, "malloc", "", rt, args[1])
			ex.emit(s, &Event{Kind: "call", Name: name, Args: args, Res: r, Instr: in})
			setRes(s, r)
			return one()
		case "Append":
			r := ex.tt.mk("append", "", rt, nil, args[1], args[2])
			ex.emit(s, &Event{Kind: "append", Name: name, Args: args[1:], Res: r, Instr: in})
			setRes(s, r)
			return one()
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return ex.atomicOp(s, in, name, args, rt, setRes, adv)
	}
	if strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian).") {
		big := strings.Contains(name, "bigEndian")
		m := name[strings.LastIndex(name, ".")+1:]
		w := 0
		fmt.Sscanf(strings.TrimPrefix(m, "Put"), "Uint%d", &w)
		if strings.HasPrefix(m, "AppendUint") {
			fmt.Sscanf(m, "AppendUint%d", &w)
		}
		if w > 0 && strings.HasPrefix(m, "Append") {
			u8 := types.Typ[types.Uint8]
			arr := ex.fresh(s, "alloc", "", types.NewPointer(types.NewArray(u8, int64(w/8))))
			bs := ex.tt.bitsOf(args[2], w)
			for i := 0; i < w/8; i++ {
				j := i
				if big {
					j = w/8 - 1 - i
				}
				s.mem[ex.idx(arr, ex.tt.Int(int64(i)), u8)] = ex.tt.Bits(bs[8*j:8*j+8], u8)
			}
			r := ex.tt.mk("append", "", rt, nil, args[1], ex.tt.mk("slice", "", rt, nil, arr, ex.tt.Int(0), ex.tt.Int(int64(w/8))))
			ex.emit(s, &Event{Kind: "append", Args: []*Term{args[1], r.args[1]}, Res: r, Instr: in})
			setRes(s, r)
			return one()
		}
		if w > 0 && (strings.HasPrefix(m, "PutUint") || strings.HasPrefix(m, "Uint")) {
			u8 := types.Typ[types.Uint8]
			if ex.o.KeepLoads {
				ex.emit(s, &Event{Kind: "binacc", Name: m, Args: args[1:], Instr: in})
			}
			if strings.HasPrefix(m, "Put") {
				bs := ex.tt.bitsOf(args[2], w)
				for i := 0; i < w/8; i++ {
					j := i
					if big {
						j = w/8 - 1 - i
					}
					cell := ex.idx(args[1], ex.tt.Int(int64(i)), u8)
					ex.emit(s, &Event{Kind: "store", Args: []*Term{cell, ex.tt.Bits(bs[8*j:8*j+8], u8)}, Instr: in, Name: "binary"})
					s.mem[cell] = ex.tt.Bits(bs[8*j:8*j+8], u8)
				}
			} else {
				var bs []bit
				for i := 0; i < w/8; i++ {
					j := i
					if big {
						j = w/8 - 1 - i
					}
					cell := ex.idx(args[1], ex.tt.Int(int64(j)), u8)
					bs = append(bs, ex.tt.bitsOf(ex.load(s, cell, u8), 8)...)
				}
				setRes(s, ex.tt.Bits(bs, rt))
			}
			return one()
		}
	}
	return nil, false
}

func (ex *Ex) atomicOp(s *State, in ssa.Instruction, name string, args []*Term, rt types.Type, setRes func(*State, *Term), adv func(*State)) ([]*State, bool) {
	m := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(name, "(*sync/atomic.") {
		// typed atomics: same shape, receiver is the address
	}
	switch {
	case strings.HasPrefix(m, "CompareAndSwap"):
		addr, old, nw := args[0], args[1], args[2]
		if v, ok := s.mem[addr]; ok && v.op == "const" && old.op == "const" && v.s != old.s {
			ex.emit(s, &Event{Kind: "atomic", Name: "cas", Args: args, Res: ex.tt.Bool(false), Chosen: 1, Instr: in})
			setRes(s, ex.tt.Bool(false))
			adv(s)
			return []*State{s}, true
		}
		s2 := s.clone()
		s.forkN++
		s2.forkN++
		s.mem[addr] = nw
		ex.emit(s, &Event{Kind: "atomic", Name: "cas", Args: args, Res: ex.tt.Bool(true), Instr: in})
		setRes(s, ex.tt.Bool(true))
		adv(s)
		delete(s2.mem, addr)
		ex.emit(s2, &Event{Kind: "atomic", Name: "cas", Args: args, Res: ex.tt.Bool(false), Chosen: 1, Instr: in})
		setRes(s2, ex.tt.Bool(false))
		adv(s2)
		return []*State{s, s2}, true
	case strings.HasPrefix(m, "Add"):
		r := ex.fresh(s, "atomic", "add", rt, args...)
		if v := s.mem[args[0]]; ex.o.AtomicAdd && v != nil && v.op == "const" && args[1].op == "const" {
			r = ex.arith(token.ADD, v, args[1], rt)
		}
		ex.emit(s, &Event{Kind: "atomic", Name: "add", Args: args, Res: r, Instr: in})
		delete(s.mem, args[0])
		setRes(s, r)
		adv(s)
		return []*State{s}, true
	case strings.HasPrefix(m, "Load"):
		r := s.mem[args[0]]
		if r == nil || r.op != "const" {
			r = ex.fresh(s, "atomic", "load", rt, args[0])
		}
		ex.emit(s, &Event{Kind: "atomic", Name: "load", Args: args, Res: r, Instr: in})
		setRes(s, r)
		adv(s)
		return []*State{s}, true
	case strings.HasPrefix(m, "Store"):
		ex.emit(s, &Event{Kind: "atomic", Name: "store", Args: args, Instr: in})
		s.mem[args[0]] = args[1]
		adv(s)
		return []*State{s}, true
	case strings.HasPrefix(m, "Swap"):
		r := ex.fresh(s, "atomic", "swap", rt, args[0])
		ex.emit(s, &Event{Kind: "atomic", Name: "swap", Args: args, Res: r, Instr: in})
		s.mem[args[0]] = args[1]
		setRes(s, r)
		adv(s)
		return []*State{s}, true
	}
	return nil, false
}

// inPlace: an append that surely fits overwrites the elements behind the shorter slice.
func (ex *Ex) inPlace(s *State, a, b *Term, n int64, r *Term) *Term {
	if a.op != "slice" || len(a.args) != 3 || n > 16 || a.typ == nil {
		return r
	}
	et := elemType(a.typ)
	if _, ok := et.Underlying().(*types.Basic); ok {
		return r
	}
	base := a.args[0]
	if base.op == "alloc" {
		return r
	}
	lo, ok1 := a.args[1].IntVal()
	hi, ok2 := a.args[2].IntVal()
	full, ok3 := ex.lenOf(s, base).IntVal()
	if !ok1 || !ok2 || !ok3 || hi+n > full {
		return r
	}
	var vals []*Term
	for i := int64(0); i < n; i++ {
		vals = append(vals, ex.load(s, ex.idx(b, ex.tt.Int(i), et), et))
	}
	for i, v := range vals {
		ex.store(s, ex.idx(base, ex.tt.Int(hi+int64(i)), et), v, et)
	}
	return ex.tt.mk("slice", "", a.typ, nil, base, ex.tt.Int(lo), ex.tt.Int(hi+n))
}

// exactCopy: a copy of a known small number of elements (other than bytes) is done cell by cell.
func (ex *Ex) exactCopy(s *State, dst, src, dl, sl *Term) (int64, bool) {
	a, ok1 := dl.IntVal()
	b, ok2 := sl.IntVal()
	if !ok1 || !ok2 || dst.typ == nil {
		return 0, false
	}
	if b < a {
		a = b
	}
	sty, ok := dst.typ.Underlying().(*types.Slice)
	if !ok || a > 16 {
		return 0, false
	}
	et := sty.Elem()
	if _, ok := et.Underlying().(*types.Basic); ok {
		return 0, false
	}
	if dst.op == "slice" {
		if _, ok := dst.args[1].IntVal(); !ok {
			return 0, false
		}
	}
	var vals []*Term
	for i := int64(0); i < a; i++ {
		vals = append(vals, ex.load(s, ex.idx(src, ex.tt.Int(i), et), et))
	}
	for i, v := range vals {
		ex.store(s, ex.idx(dst, ex.tt.Int(int64(i)), et), v, et)
	}
	return a, true
}
