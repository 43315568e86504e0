package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-sensitive dataflow analysis over the inlined
// supergraph of an entry function. A State is one abstract state at one
// program point (with its call string); every branch the facts do not decide
// splits the state; loops are followed for a bounded number of undecided
// iterations. What rules see is, for every path class, its event sequence.

type Event struct {
	Kind   string // call dyn go send recv select close mapget mapset mapdel range rangeend store load lock unlock rlock runlock atomic copy return panic nilderef enter exit
	Name   string
	Args   []*Term
	Res    *Term
	Cases  []SelCase
	Chosen int // select: case index, -1 default
	Block  bool
	Fn     *ssa.Function
	Instr  ssa.Instruction
	Pos    token.Pos
	G      int // goroutine (0 = the entry itself)
	Stack  []*ssa.Function
	Pan    bool // emitted while a panic unwinds
	GKind  string
	By     *Event // start: the event that spawned this goroutine
}

type SelCase struct {
	Send bool
	Ch   *Term
	Val  *Term
}

type spawn struct {
	fn   *ssa.Function
	bind []*Term
	args []*Term
	kind string
	ev   *Event
}

type deferred struct {
	instr *ssa.Defer
	c     callee
	args  []*Term
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*Term
	blk      *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []deferred
	retTo    ssa.Instruction // call instruction in the caller (nil: deferred/go root)
	isDefer  bool
	mode     int // 0 normal, 1 unwinding, 2 recovered: running remaining defers
	visits   map[*ssa.BasicBlock]int
	lastFork map[*ssa.BasicBlock]int
	turns    map[*ssa.BasicBlock]int // of loops counted by constants
	enterEv  bool
}

type State struct {
	frames  []*Frame
	mem     map[*Term]*Term
	maps    []mapCell
	hav     map[*Term]int
	facts   map[*Term]bool
	ivs     map[string]interval
	events  []*Event
	n       int
	forkN   int
	spawned []spawn
	nspawn  int
	g       int
	gkind   string
	done    string // "", return, panic, cut
	results []*Term
	cutPos  token.Pos
	conds   []*Term
	exact   map[*Term]bool // conversions known to keep the value
}

// subst replaces conversions known to keep the value by what they convert.
func (s *State) subst(l lin) lin {
	if len(s.exact) == 0 {
		return l
	}
	for n := 0; n < 8; n++ {
		hit := false
		for t, k := range l.coeff {
			if t.op != "conv" || !s.exact[t] {
				continue
			}
			r := lin{c: l.c, coeff: map[*Term]int64{}}
			for u, v := range l.coeff {
				if u != t {
					r.coeff[u] = v
				}
			}
			l = r.sub(toLin(t.args[0], 0).scale(-k))
			hit = true
			break
		}
		if !hit {
			break
		}
	}
	return l
}

// noteExact records that the conversion v keeps the value on this path, if its argument's range says so.
func (ex *Ex) noteExact(s *State, v *Term) {
	if v.op != "conv" || s.exact[v] || len(v.args) != 1 || !isIntType(v.typ) || !isIntType(v.args[0].typ) || widening(v) {
		return
	}
	if ex.fits(s, toLin(v.args[0], 0), v.typ) {
		m := make(map[*Term]bool, len(s.exact)+1)
		for k := range s.exact {
			m[k] = true
		}
		m[v] = true
		s.exact = m
	}
}

func (ex *Ex) fits(s *State, l lin, typ types.Type) bool {
	lo, hi, _ := ex.rng(s, l)
	w, u := intSize(typ)
	min, max := int64(0), int64(math.MaxInt64)
	if w < 63 {
		max = int64(1)<<uint(w) - 1
		if !u {
			max = int64(1)<<uint(w-1) - 1
			min = -max - 1
		}
	} else if !u {
		return lo > negInf && hi < posInf || w == 64 && s.natural(l)
	} else {
		return lo >= 0
	}
	return lo >= min && hi <= max
}

// natural: made of lengths and capacities only, which the address space bounds.
func (s *State) natural(l lin) bool {
	for t := range l.coeff {
		if t.op != "len" && t.op != "cap" {
			return false
		}
	}
	return true
}

// wraps: the sum, difference or product may leave the range of its type; peer-controlled
// numbers and narrow types are looked at, 64-bit counters are taken not to overflow.
func (ex *Ex) wraps(s *State, op token.Token, a, b *Term, typ types.Type) bool {
	w, u := intSize(typ)
	if w == 0 || a.op == "const" && b.op == "const" {
		return false
	}
	t := ex.tt.mk("bin", op.String(), typ, nil, a, b)
	l := toLin(t, 0)
	if w < 64 {
		return !ex.fits(s, l, typ)
	}
	if u && op == token.SUB {
		lo, _, _ := ex.rng(s, l)
		return lo < 0
	}
	for x := range l.coeff {
		y := x
		for y.op == "conv" {
			y = y.args[0]
		}
		if y.op != "bits" {
			continue
		}
		lo, hi, _ := ex.rng(s, toLin(x, 0))
		if hi >= posInf || lo <= negInf {
			return true
		}
	}
	return false
}

func (s *State) clone() *State {
	c := *s
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			nf.visits[k] = v
		}
		nf.turns = make(map[*ssa.BasicBlock]int, len(f.turns))
		for k, v := range f.turns {
			nf.turns[k] = v
		}
		nf.lastFork = make(map[*ssa.BasicBlock]int, len(f.lastFork))
		for k, v := range f.lastFork {
			nf.lastFork[k] = v
		}
		nf.defers = append([]deferred(nil), f.defers...)
		c.frames[i] = &nf
	}
	c.mem = make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.hav = make(map[*Term]int, len(s.hav))
	for k, v := range s.hav {
		c.hav[k] = v
	}
	c.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.ivs = make(map[string]interval, len(s.ivs)+4)
	for k, v := range s.ivs {
		c.ivs[k] = v
	}
	c.events = s.events[:len(s.events):len(s.events)]
	c.spawned = append([]spawn(nil), s.spawned...)
	c.conds = s.conds[:len(s.conds):len(s.conds)]
	return &c
}

type Opts struct {
	Args       []*Term
	Opaque     func(fn *ssa.Function) bool
	Summ       func(ex *Ex, st *State, name string, dyn *Term, args []*Term, rt types.Type) *Term // non-nil result: use it (event still emitted)
	PanicAt    func(ev *Event) bool
	RunSpawned bool
	MaxLoop    int
	MaxPaths   int
	MaxSteps   int
	Volatile   func(addr *Term) bool
	LenMin     func(t *Term) int64
	LenIs      func(t *Term) (int64, bool)      // the length of an initial value
	Cell       func(addr *Term, typ types.Type) *Term // what a cell holds at the start (nil: unknown)
	NonNil     func(t *Term) bool
	ExecSpawn  bool // treat Handler.AsyncExecute(f) as "f runs later"
	KeepLoads  bool
	KeepLogs   bool // emit logging calls (kind log) with their arguments
	Keep       func(ev *Event) bool
	Init       func(ex *Ex, st *State)
	NoDevirt   bool
	AtomicAdd  bool // an atomic add to a known constant yields a known result (then the cell is unknown again)
	Bind       []*Term
	NoSpawn    func(fn *ssa.Function, args []*Term) bool
	OnStep     func(ex *Ex, st *State, in ssa.Instruction)
	// Prune: drop a finished or running path
	Prune func(ev *Event) bool
	// Dedup merges states at block entries that agree on everything but path history when set
	Dedup bool
}

type Path struct {
	*State
	ex *Ex
}

type Ex struct {
	w     *World
	tt    *TermTab
	o     Opts
	entry *ssa.Function
	paths []*Path
	steps int
	over  bool
	seen  map[string]bool
}

func (w *World) Explore(entry *ssa.Function, o Opts) *Ex {
	ex := &Ex{w: w, tt: w.tt, o: o, entry: entry, seen: map[string]bool{}}
	if ex.o.MaxLoop == 0 {
		ex.o.MaxLoop = 2
	}
	if ex.o.MaxPaths == 0 {
		ex.o.MaxPaths = 40000
	}
	if ex.o.MaxSteps == 0 {
		ex.o.MaxSteps = 8000000
	}
	w.analysed[entry] = true
	st := &State{mem: map[*Term]*Term{}, hav: map[*Term]int{}, facts: map[*Term]bool{}, ivs: map[string]interval{}}
	args := o.Args
	if args == nil {
		args = ex.ParamTerms(entry)
	}
	ex.pushFrame(st, entry, args, o.Bind, nil)
	if o.Init != nil {
		o.Init(ex, st)
	}
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			ex.steps++
			if ex.steps > ex.o.MaxSteps || len(ex.paths) > ex.o.MaxPaths {
				ex.over = true
				return ex
			}
			if s.done != "" {
				ex.finish(s, &work)
				break
			}
			succ := ex.step(s)
			if len(succ) == 0 {
				if s.done != "" {
					ex.finish(s, &work)
				}
				break
			}
			s = succ[0]
			for _, o := range succ[1:] {
				work = append(work, o)
			}
		}
	}
	w.npaths += len(ex.paths)
	return ex
}

func (ex *Ex) finish(s *State, work *[]*State) {
	if ex.o.RunSpawned && (s.done == "return" || s.done == "panic" && s.g > 0) && len(s.spawned) > 0 && s.nspawn < 8 {
		sp := s.spawned[0]
		s.spawned = s.spawned[1:]
		s.nspawn++
		s.g = s.nspawn
		s.gkind = sp.kind
		if s.done == "return" && s.results != nil && s.g == 1 {
			// keep results of the entry
		}
		if sp.fn != nil && len(sp.fn.Blocks) > 0 && ex.w.inModule(sp.fn) {
			prevRes := s.results
			if s.done == "panic" {
				// a spawned goroutine's panic is recorded as an event; carry on with the others
			}
			s.done = ""
			s.frames = nil
			ex.pushFrame(s, sp.fn, sp.args, sp.bind, nil)
			ex.emit(s, &Event{Kind: "start", Name: sp.fn.String(), By: sp.ev})
			s.results = prevRes
		}
		*work = append(*work, s)
		return
	}
	ex.paths = append(ex.paths, &Path{s, ex})
}

func (ex *Ex) ParamTerms(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		out = append(out, ex.w.ParamTerm(fn, i, p.Type()))
	}
	return out
}

func (w *World) ParamTerm(fn *ssa.Function, i int, t types.Type) *Term {
	nm := fn.Params[i].Name()
	return w.tt.mk("param", fmt.Sprintf("%s.%s", fn.Name(), nm), t, nil)
}

func (ex *Ex) top(s *State) *Frame { return s.frames[len(s.frames)-1] }

func (ex *Ex) pushFrame(s *State, fn *ssa.Function, args, bind []*Term, ret ssa.Instruction) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, lastFork: map[*ssa.BasicBlock]int{}, turns: map[*ssa.BasicBlock]int{}, retTo: ret}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = ex.tt.mk("param", fn.Name()+"."+p.Name(), p.Type(), nil)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		} else {
			f.env[fv] = ex.tt.mk("free", fn.String()+"."+fv.Name(), fv.Type(), nil)
		}
	}
	f.blk = fn.Blocks[0]
	s.frames = append(s.frames, f)
	ex.w.analysed[fn] = true
	return f
}

func (ex *Ex) emit(s *State, ev *Event) *Event {
	if len(s.frames) > 0 {
		f := ex.top(s)
		ev.Fn = f.fn
		for _, fr := range s.frames {
			ev.Stack = append(ev.Stack, fr.fn)
			if fr.mode == 1 {
				ev.Pan = true
			}
		}
		if ev.Pos == token.NoPos && ev.Instr != nil {
			ev.Pos = ev.Instr.Pos()
		}
	}
	ev.G = s.g
	ev.GKind = s.gkind
	ex.mapCells(s, ev)
	if ex.o.Keep != nil && !ex.o.Keep(ev) {
		return ev
	}
	s.events = append(s.events, ev)
	return ev
}

// mapCell: what this goroutine last saw in, or put into, a map shared with others.
type mapCell struct{ m, k, v *Term }

// mapCells remembers an entry until something happens that might let another
// goroutine, or another name for the same map, change it.
func (ex *Ex) mapCells(s *State, ev *Event) {
	switch ev.Kind {
	case "load", "store", "index", "slice", "enter", "return", "log", "append", "makeslice", "copy", "range", "rangeend", "binacc", "escape", "nilderef":
		return
	case "mapset":
		s.maps = []mapCell{{ev.Args[0], ev.Args[1], ev.Args[2]}}
	case "mapdel":
		s.maps = []mapCell{{ev.Args[0], ev.Args[1], nil}}
	case "mapget":
		for _, c := range s.maps {
			if c.m == ev.Args[0] && c.k == ev.Args[1] {
				return
			}
		}
		v := ev.Res
		if ev.Chosen == 1 {
			v = nil
		}
		s.maps = append(s.maps[:len(s.maps):len(s.maps)], mapCell{ev.Args[0], ev.Args[1], v})
	default:
		s.maps = nil
	}
}

func (ex *Ex) fresh(s *State, op, nm string, typ types.Type, args ...*Term) *Term {
	s.n++
	k := ""
	if typ != nil {
		k = typ.String()
	}
	return ex.tt.mkK(k, op, fmt.Sprintf("%s#%d", nm, s.n), typ, nil, args...)
}

// ---- values ----------------------------------------------------------------

func (ex *Ex) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return ex.tt.Zero(x.Type())
			}
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer && b.Kind() != types.UntypedNil {
				return ex.tt.Zero(x.Type())
			}
			return ex.tt.Nil()
		}
		return ex.tt.Const(x.Value, x.Type())
	case *ssa.Function:
		return ex.tt.mk("fn", x.String(), x.Type(), x)
	case *ssa.Global:
		return ex.tt.mk("global", x.String(), x.Type(), x)
	case *ssa.Builtin:
		return ex.tt.mk("builtin", x.Name(), nil, nil)
	}
	f := ex.top(s)
	if t, ok := f.env[v]; ok {
		return t
	}
	return ex.tt.mk("undef", fmt.Sprintf("%s.%s", f.fn.String(), v.Name()), v.Type(), nil)
}

func (ex *Ex) field(base *Term, v *types.Var) *Term {
	return ex.tt.mk("field", v.Name()+"@"+fmt.Sprint(v.Pos()), types.NewPointer(v.Type()), v, base)
}

func (ex *Ex) fieldVal(val *Term, i int, st *types.Struct) *Term {
	if val.op == "struct" && i < len(val.args) {
		return val.args[i]
	}
	if val.op == "nil" {
		return ex.tt.Zero(st.Field(i).Type())
	}
	v := st.Field(i)
	return ex.tt.mk("fieldv", v.Name()+"@"+fmt.Sprint(v.Pos()), v.Type(), v, val)
}

func (ex *Ex) idx(base, i *Term, elem types.Type) *Term {
	for base.op == "slice" {
		i = ex.arith(token.ADD, base.args[1], i, types.Typ[types.Int])
		base = base.args[0]
	}
	if i.op == "const" {
		if n, ok := i.IntVal(); ok {
			i = ex.tt.Int(n)
		}
	}
	return ex.tt.mk("idx", "", types.NewPointer(elem), nil, base, i)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Ex) load(s *State, addr *Term, typ types.Type) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		if v, ok := s.mem[addr]; ok {
			return v
		}
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, ex.load(s, ex.field(addr, st.Field(i)), st.Field(i).Type()))
		}
		return ex.tt.mk("struct", typeKey(typ), typ, nil, fs...)
	}
	if ex.o.Volatile != nil && ex.o.Volatile(addr) {
		if v, ok := s.mem[addr]; ok && v.op == "pin" {
			return v.args[0]
		}
		return ex.fresh(s, "ver", "", typ, addr)
	}
	if v, ok := s.mem[addr]; ok {
		if v.typ != nil && typ != nil {
			return ex.reinterp(v, typ)
		}
		return v
	}
	if addr.op == "global" {
		g := addr.aux.(*ssa.Global)
		if ex.w.constGlobals[g] || g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && isErrorType(deref(g.Type())) {
			return ex.tt.mk("gval", g.String(), typ, g)
		}
	}
	if addr.op == "idx" && typ != nil {
		// a machine word of a string seen as an array of words
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			if v, ok := s.mem[addr.args[0]]; ok && v.typ != nil && isStringType(v.typ) {
				if n, ok := addr.args[1].IntVal(); ok && n >= 0 && n < 10 {
					return ex.tt.mk("word", fmt.Sprint(n), typ, nil, v)
				}
			}
		}
	}
	// zero-initialised fresh objects
	r := addr
	for r.op == "field" || r.op == "idx" {
		if n, ok := s.hav[r]; ok {
			return ex.tt.mk("ver", fmt.Sprintf("h%d", n), typ, nil, addr)
		}
		// container known by value (e.g. struct stored as opaque)?
		r = r.args[0]
	}
	if n, ok := s.hav[r]; ok {
		return ex.tt.mk("ver", fmt.Sprintf("h%d", n), typ, nil, addr)
	}
	if r.op == "alloc" || r.op == "makeslice" && addr != r {
		return ex.tt.Zero(typ)
	}
	if src := ex.appended(s, addr); src != nil {
		return ex.load(s, src, typ)
	}
	if ex.o.Cell != nil {
		if v := ex.o.Cell(addr, typ); v != nil {
			return v
		}
	}
	return ex.tt.mk("init", "", typ, nil, addr)
}

// appended: the cell of the argument list an element of an append chain came from.
func (ex *Ex) appended(s *State, addr *Term) *Term {
	for addr.op == "idx" && addr.args[0].op == "append" {
		ap := addr.args[0]
		if a := ap.args[0]; sliceBase(a).op != "append" && sliceBase(a).op != "nil" {
			// an element in front of what was appended
			if lo, _, _ := ex.rng(s, toLin(ex.lenOf(s, a), 0).sub(toLin(addr.args[1], 0))); lo >= 1 {
				if i, _, _ := ex.rng(s, toLin(addr.args[1], 0)); i >= 0 {
					return ex.idx(a, addr.args[1], deref(addr.typ))
				}
			}
		}
		n, ok := ex.lenOf(s, ap.args[0]).IntVal()
		i, ok2 := addr.args[1].IntVal()
		if !ok || !ok2 {
			return nil
		}
		et := deref(addr.typ)
		if i >= n {
			b := ap.args[1]
			if b.op == "slice" && b.args[0].op == "alloc" {
				return ex.idx(b, ex.tt.Int(i-n), et)
			}
			return nil
		}
		addr = ex.idx(ap.args[0], addr.args[1], et)
		if _, ok := s.mem[addr]; ok {
			return addr
		}
	}
	return nil
}

func (ex *Ex) reinterp(v *Term, typ types.Type) *Term {
	_, vs := v.typ.Underlying().(*types.Slice)
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && vs {
		return ex.tt.mk("b2s", "", typ, nil, v)
	}
	if vb, ok := v.typ.Underlying().(*types.Basic); ok && vb.Info()&types.IsString != 0 {
		if _, ok := typ.Underlying().(*types.Slice); ok {
			return ex.tt.mk("s2b", "", typ, nil, v)
		}
	}
	return v
}

func (ex *Ex) store(s *State, addr, v *Term, typ types.Type) {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ex.store(s, ex.field(addr, st.Field(i)), ex.fieldVal(v, i, st), st.Field(i).Type())
		}
		if st.NumFields() == 0 {
			s.mem[addr] = v
		}
		return
	}
	if ex.o.Volatile != nil && ex.o.Volatile(addr) {
		return
	}
	s.mem[addr] = v
}

func (ex *Ex) havocRoot(s *State, root *Term) {
	s.n++
	for k := range s.mem {
		if k == root || k.root() == root {
			delete(s.mem, k)
		}
	}
	s.hav[root] = s.n
}

func sliceBase(t *Term) *Term {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t
}

func (ex *Ex) havocCells(s *State, sl *Term, from int64) {
	base := sliceBase(sl)
	s.n++
	for k := range s.mem {
		if k.op == "idx" && k.args[0] == base {
			if n, ok := k.args[1].IntVal(); ok && n < from {
				continue
			}
			delete(s.mem, k)
		}
	}
	if from <= 0 {
		s.hav[base] = s.n
	}
}

// ---- arithmetic ------------------------------------------------------------

func (ex *Ex) fromLin(l lin, typ types.Type) *Term {
	ts := l.terms()
	if len(ts) == 0 {
		return ex.tt.Const(constant.MakeInt64(l.c), typ)
	}
	var acc *Term
	for _, t := range ts {
		c := l.coeff[t]
		m := t
		if c != 1 {
			m = ex.tt.mk("bin", "*", typ, nil, ex.tt.Int(c), t)
		}
		if acc == nil {
			acc = m
		} else {
			acc = ex.tt.mk("bin", "+", typ, nil, acc, m)
		}
	}
	if l.c != 0 {
		acc = ex.tt.mk("bin", "+", typ, nil, acc, ex.tt.Int(l.c))
	}
	return acc
}

func wrapConst(v constant.Value, typ types.Type) constant.Value {
	w, u := intSize(typ)
	if w == 0 {
		return v
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(w))
	r := v
	// r mod 2^w
	q := constant.BinaryOp(r, token.QUO_ASSIGN, mod)
	r = constant.BinaryOp(r, token.SUB, constant.BinaryOp(q, token.MUL, mod))
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if !u {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(w-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func (ex *Ex) arith(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.op == "const" && b.op == "const" {
		av, bv := a.aux.(constant.Value), b.aux.(constant.Value)
		if av.Kind() == constant.String || bv.Kind() == constant.String {
			if op == token.ADD {
				return ex.tt.Const(constant.BinaryOp(av, token.ADD, bv), typ)
			}
		} else if isIntType(typ) {
			var r constant.Value
			switch op {
			case token.SHL, token.SHR:
				if n, ok := b.IntVal(); ok && n >= 0 && n < 128 {
					r = constant.Shift(constant.ToInt(av), op, uint(n))
				}
			case token.QUO:
				if n, ok := b.IntVal(); ok && n != 0 {
					r = constant.BinaryOp(av, token.QUO_ASSIGN, bv)
				}
			case token.REM:
				if n, ok := b.IntVal(); ok && n != 0 {
					r = constant.BinaryOp(av, token.REM, bv)
				}
			case token.AND_NOT:
				x, _ := a.IntVal()
				y, _ := b.IntVal()
				r = constant.MakeInt64(x &^ y)
			default:
				r = constant.BinaryOp(av, op, bv)
			}
			if r != nil {
				return ex.tt.Const(wrapConst(r, typ), typ)
			}
		} else if bk, ok := typ.Underlying().(*types.Basic); ok && bk.Info()&types.IsFloat != 0 {
			return ex.tt.Const(constant.BinaryOp(av, op, bv), typ)
		}
	}
	w, _ := intSize(typ)
	switch op {
	case token.ADD, token.SUB, token.MUL:
		if w == 64 {
			if op != token.MUL || a.op == "const" || b.op == "const" {
				t := ex.tt.mk("bin", op.String(), typ, nil, a, b)
				return ex.fromLin(toLin(t, 0), typ)
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if w > 0 {
			x, y := ex.tt.bitsOf(a, w), ex.tt.bitsOf(b, w)
			out := make([]bit, w)
			ok := true
			for i := range out {
				var k bool
				switch op {
				case token.AND:
					out[i], k = bitAnd(x[i], y[i])
				case token.OR:
					out[i], k = bitOr(x[i], y[i])
				case token.XOR:
					out[i], k = bitXor(x[i], y[i])
				case token.AND_NOT:
					out[i], k = bitAnd(x[i], flipBits(y[i : i+1])[0])
				}
				if !k {
					ok = false
					break
				}
			}
			if ok {
				return ex.tt.Bits(out, typ)
			}
		}
	case token.SHL, token.SHR:
		if n, ok := b.IntVal(); ok && w > 0 && n >= 0 {
			_, uns := intSize(typ)
			if op == token.SHL || uns || a.op == "bits" {
				x := ex.tt.bitsOf(a, w)
				out := make([]bit, w)
				for i := range out {
					var j int
					if op == token.SHL {
						j = i - int(n)
					} else {
						j = i + int(n)
					}
					if j >= 0 && j < w {
						out[i] = x[j]
					}
				}
				return ex.tt.Bits(out, typ)
			}
		}
	}
	return ex.tt.mk("bin", op.String(), typ, nil, a, b)
}

func (ex *Ex) convert(v *Term, to types.Type) *Term {
	if v.op == "const" {
		cv := v.aux.(constant.Value)
		if isIntType(to) && cv.Kind() == constant.Int {
			return ex.tt.Const(wrapConst(cv, to), to)
		}
		if cv.Kind() == constant.Float || cv.Kind() == constant.Int {
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return ex.tt.Const(cv, to)
			}
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok {
		if b.Kind() == types.UnsafePointer {
			return v
		}
		if b.Info()&types.IsString != 0 {
			if v.typ != nil {
				if vb, ok := v.typ.Underlying().(*types.Basic); ok && vb.Info()&types.IsString != 0 {
					return v
				}
			}
			return ex.tt.mk("conv", "string", to, nil, v)
		}
		if b.Info()&types.IsInteger != 0 && v.typ != nil {
			fw, fu := intSize(v.typ)
			tw, tu := intSize(to)
			if fw > 0 && tw > 0 {
				if v.op == "bits" {
					bs := ex.tt.bitsOf(v, fw)
					out := make([]bit, tw)
					for i := range out {
						if i < fw {
							out[i] = bs[i]
						} else if !fu {
							out[i] = bs[fw-1]
						}
					}
					return ex.tt.Bits(out, to)
				}
				if fw == tw && fu == tu {
					return v
				}
				return ex.tt.mk("conv", typeKey(to), to, nil, v)
			}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if v.typ != nil {
			if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if eb, ok := sl.Elem().Underlying().(*types.Basic); !ok || eb.Kind() != types.Uint8 {
					return ex.tt.mk("conv", "runes:"+typeKey(sl), to, nil, v)
				}
				return ex.tt.mk("conv", "bytes:"+typeKey(sl), to, nil, v)
			}
		}
		return v
	}
	return ex.tt.mk("conv", typeKey(to), to, nil, v)
}

func (ex *Ex) lenOf(s *State, t *Term) *Term {
	I := types.Typ[types.Int]
	switch t.op {
	case "const":
		if str, ok := t.StrVal(); ok {
			return ex.tt.Int(int64(len(str)))
		}
	case "nil":
		return ex.tt.Int(0)
	case "makeslice", "malloc":
		return t.args[0]
	case "slice":
		return ex.arith(token.SUB, t.args[2], t.args[1], I)
	case "append":
		return ex.arith(token.ADD, ex.lenOf(s, t.args[0]), ex.lenOf(s, t.args[1]), I)
	case "s2b", "b2s":
		return ex.lenOf(s, t.args[0])
	case "conv":
		if a := t.args[0].typ; t.s == "string" && a != nil {
			if sl, ok := a.Underlying().(*types.Slice); ok {
				if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() != types.Uint8 {
					break // from runes
				}
			}
			if b, ok := a.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				break // from a code point
			}
		}
		if t.s == "string" || strings.HasPrefix(t.s, "bytes:") {
			return ex.lenOf(s, t.args[0])
		}
	case "makemap":
		if s.mem[ex.tt.mk("mapempty", "", nil, nil, t)] == nil {
			return ex.tt.Int(0)
		}
		return ex.fresh(s, "len", "", I, t)
	case "bin":
		if t.s == "+" {
			return ex.arith(token.ADD, ex.lenOf(s, t.args[0]), ex.lenOf(s, t.args[1]), I)
		}
	}
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Chan:
			return ex.fresh(s, "len", "chan", I, t)
		case *types.Array:
			return ex.tt.Int(u.Len())
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return ex.tt.Int(a.Len())
			}
		}
	}
	if ex.o.LenIs != nil {
		if n, ok := ex.o.LenIs(t); ok {
			return ex.tt.Int(n)
		}
	}
	return ex.tt.mk("len", "", I, nil, t)
}

// ---- facts -----------------------------------------------------------------

func (ex *Ex) minOf(t *Term) (int64, int64) {
	lo, hi := negInf, posInf
	switch t.op {
	case "len", "cap":
		lo = 0
		if ex.o.LenMin != nil {
			if n := ex.o.LenMin(t); n > lo {
				lo = n
			}
		}
	case "bits":
		lo = 0
		bs := t.aux.([]bit)
		w, uns := intSize(t.typ)
		if !uns && w > 0 && len(bs) >= w && (bs[w-1].src != nil || bs[w-1].one) {
			return negInf, posInf
		}
		hi = 0
		for i, b := range bs {
			if (b.src != nil || b.one) && i < 62 {
				hi |= 1 << uint(i)
			} else if b.src != nil || b.one {
				hi = posInf
			}
		}
	}
	if t.typ != nil {
		if w, u := intSize(t.typ); w > 0 {
			if u {
				if lo < 0 {
					lo = 0
				}
				if w < 62 {
					if m := int64(1)<<uint(w) - 1; m < hi {
						hi = m
					}
				}
			} else if w < 62 {
				if m := int64(1)<<uint(w-1) - 1; m < hi {
					hi = m
				}
				if m := -(int64(1) << uint(w-1)); m > lo {
					lo = m
				}
			}
		}
	}
	return lo, hi
}

func addSat(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return a + b
}
func mulSat(a, c int64) int64 {
	if a <= negInf || a >= posInf {
		if (a > 0) == (c > 0) {
			return posInf
		}
		return negInf
	}
	return a * c
}

// rng returns the interval of a linear form (with constant).
func (ex *Ex) rng(s *State, l lin) (int64, int64, map[int64]bool) {
	l = s.subst(l)
	if len(l.coeff) == 0 {
		return l.c, l.c, nil
	}
	lo, hi := l.c, l.c
	for t, c := range l.coeff {
		tl, th := ex.minOf(t)
		if iv, ok := s.ivs[fmt.Sprintf("1*%d;", t.id)]; ok {
			if iv.lo > tl {
				tl = iv.lo
			}
			if iv.hi < th {
				th = iv.hi
			}
		}
		if c < 0 {
			tl, th = th, tl
		}
		lo, hi = addSat(lo, mulSat(tl, c)), addSat(hi, mulSat(th, c))
	}
	k, sg := l.canon()
	var ne map[int64]bool
	if iv, ok := s.ivs[k]; ok {
		a, b := mulSat(iv.lo, sg), mulSat(iv.hi, sg)
		if a > b {
			a, b = b, a
		}
		if x := addSat(a, l.c); x > lo {
			lo = x
		}
		if x := addSat(b, l.c); x < hi {
			hi = x
		}
		for v := range iv.ne {
			if ne == nil {
				ne = map[int64]bool{}
			}
			ne[v*sg+l.c] = true
		}
	}
	// one-step combination with other recorded forms: l <= form + rest
	lo2, hi2 := ex.combine(s, l)
	if lo2 > lo {
		lo = lo2
	}
	if hi2 < hi {
		hi = hi2
	}
	for ne[lo] && lo < hi {
		lo++
	}
	for ne[hi] && lo < hi {
		hi--
	}
	return lo, hi, ne
}

func (ex *Ex) simpleRng(s *State, l lin) (int64, int64) {
	lo, hi := l.c, l.c
	for t, c := range l.coeff {
		tl, th := ex.minOf(t)
		if iv, ok := s.ivs[fmt.Sprintf("1*%d;", t.id)]; ok {
			if iv.lo > tl {
				tl = iv.lo
			}
			if iv.hi < th {
				th = iv.hi
			}
		}
		if c < 0 {
			tl, th = th, tl
		}
		lo, hi = addSat(lo, mulSat(tl, c)), addSat(hi, mulSat(th, c))
	}
	k, sg := l.canon()
	if iv, ok := s.ivs[k]; ok && len(l.coeff) > 0 {
		a, b := mulSat(iv.lo, sg), mulSat(iv.hi, sg)
		if a > b {
			a, b = b, a
		}
		if x := addSat(a, l.c); x > lo {
			lo = x
		}
		if x := addSat(b, l.c); x < hi {
			hi = x
		}
	}
	return lo, hi
}

// combine bounds l by l = F + (l-F) for each recorded multi-term form F (and -F).
func (ex *Ex) combine(s *State, l lin) (int64, int64) {
	lo, hi := negInf, posInf
	if len(l.coeff) < 1 {
		return lo, hi
	}
	for k, iv := range s.ivs {
		F, ok := ex.w.forms[k]
		if !ok || len(F.coeff) < 2 {
			continue
		}
		share := false
		for t := range F.coeff {
			if l.coeff[t] != 0 {
				share = true
			}
		}
		if !share {
			continue
		}
		for _, sg := range []int64{1, -1} {
			rest := l.sub(F.scale(sg))
			if len(rest.coeff) >= len(l.coeff)+len(F.coeff) {
				continue
			}
			rl, rh := ex.simpleRng(s, rest)
			a, b := mulSat(iv.lo, sg), mulSat(iv.hi, sg)
			if a > b {
				a, b = b, a
			}
			if x := addSat(a, rl); x > lo {
				lo = x
			}
			if x := addSat(b, rh); x < hi {
				hi = x
			}
		}
	}
	return lo, hi
}

func (ex *Ex) assumeRange(s *State, l lin, lo, hi int64, ne *int64) bool {
	// assert lo <= l <= hi, l != ne
	l = s.subst(l)
	if len(l.coeff) == 0 {
		if l.c < lo || l.c > hi {
			return false
		}
		return ne == nil || *ne != l.c
	}
	k, sg := l.canon()
	form := lin{coeff: l.scale(sg).coeff}
	ex.w.forms[k] = form
	a, b := addSat(lo, -l.c), addSat(hi, -l.c)
	a, b = mulSat(a, sg), mulSat(b, sg)
	if a > b {
		a, b = b, a
	}
	iv, ok := s.ivs[k]
	if !ok {
		iv = interval{lo: negInf, hi: posInf}
	}
	if a > iv.lo {
		iv.lo = a
	}
	if b < iv.hi {
		iv.hi = b
	}
	if ne != nil {
		m := map[int64]bool{}
		for x := range iv.ne {
			m[x] = true
		}
		m[(*ne-l.c)*sg] = true
		iv.ne = m
	}
	for iv.ne[iv.lo] && iv.lo <= iv.hi {
		iv.lo++
	}
	for iv.ne[iv.hi] && iv.lo <= iv.hi {
		iv.hi--
	}
	if iv.lo > iv.hi {
		return false
	}
	s.ivs[k] = iv
	tl, th := ex.simpleRng(s, form)
	return tl <= th
}

func nonNilOp(t *Term) bool {
	switch t.op {
	case "alloc", "field", "idx", "closure", "fn", "iface", "makechan", "makemap", "makeslice", "global", "struct", "poolobj", "const":
		return true
	case "gval":
		if g, ok := t.aux.(*ssa.Global); ok {
			return isErrorType(deref(g.Type()))
		}
	case "call":
		return strings.HasPrefix(t.s, "fmt.Errorf#") || strings.HasPrefix(t.s, "errors.New#") || strings.HasPrefix(t.s, "time.NewTimer#") || strings.HasPrefix(t.s, "time.AfterFunc#") || strings.HasPrefix(t.s, "bufio.New")
	case "conv", "append":
		return false
	}
	return false
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// norm turns a boolean term into (atom, polarity) or a constant.
func (ex *Ex) decide(s *State, t *Term) (val bool, known bool) {
	if b, ok := t.BoolVal(); ok {
		return b, true
	}
	if t.op == "not" {
		v, k := ex.decide(s, t.args[0])
		return !v, k
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	if t.op == "cmp" {
		a, b := t.args[0], t.args[1]
		switch t.s {
		case "==":
			if a == b {
				return true, true
			}
			if a.IsNil() || b.IsNil() {
				x := a
				if a.IsNil() {
					x = b
				}
				if nonNilOp(x) || ex.w.nonNil[x] || ex.o.NonNil != nil && ex.o.NonNil(x) {
					return false, true
				}
				if x.IsNil() {
					return true, true
				}
				return false, false
			}
			if isIntCmp(a, b) {
				l := toLin(a, 0).sub(toLin(b, 0))
				lo, hi, ne := ex.rng(s, l)
				if lo > 0 || hi < 0 || ne[0] {
					return false, true
				}
				if lo == 0 && hi == 0 {
					return true, true
				}
				if r, ok := bitsDisagree(ex, a, b); ok && r {
					return false, true
				}
				return false, false
			}
			if a.op == "const" && b.op == "const" && a != b {
				av, bv := a.aux.(constant.Value), b.aux.(constant.Value)
				if av.Kind() == bv.Kind() {
					return constant.Compare(av, token.EQL, bv), true
				}
			}
			if a.op == "gval" && b.op == "gval" && a != b && ex.w.constGlobals[a.aux.(*ssa.Global)] && ex.w.constGlobals[b.aux.(*ssa.Global)] && nonNilOp(a) && nonNilOp(b) {
				return false, true
			}
			if (a.op == "alloc" || a.op == "poolobj") && (b.op == "alloc" || b.op == "poolobj") {
				return false, true
			}
			if ss, ok := a.StrVal(); ok && ss == "" {
				a, b = b, a
			}
			if ss, ok := b.StrVal(); ok && ss == "" {
				l := toLin(ex.lenOf(s, a), 0)
				lo, hi, _ := ex.rng(s, l)
				if lo > 0 {
					return false, true
				}
				if hi == 0 {
					return true, true
				}
			}
		case "<":
			l := toLin(a, 0).sub(toLin(b, 0))
			lo, hi, _ := ex.rng(s, l)
			if hi < 0 {
				return true, true
			}
			if lo >= 0 {
				return false, true
			}
		}
	}
	if t.op == "bit" {
		return false, false
	}
	if t.op == "istype" {
		x := t.args[0]
		// a value that is already known to be of a different concrete type
		if to, ok := t.aux.(types.Type); ok && !types.IsInterface(to) {
			for f, v := range s.facts {
				if v && f.op == "istype" && f.args[0] == x && f != t {
					if ft, ok := f.aux.(types.Type); ok && !types.IsInterface(ft) && !types.Identical(ft, to) {
						return false, true
					}
				}
			}
		}
		if v, ok := s.facts[ex.cmpEq(x, ex.tt.Nil())]; ok && v {
			return false, true
		}
	}
	return false, false
}

func bitsDisagree(ex *Ex, a, b *Term) (bool, bool) {
	if a.op != "bits" && b.op != "bits" {
		return false, false
	}
	x, y := ex.tt.bitsOf(a, 64), ex.tt.bitsOf(b, 64)
	for i := range x {
		if x[i].src == nil && y[i].src == nil && x[i].one != y[i].one {
			return true, true
		}
	}
	return false, true
}

func isIntCmp(a, b *Term) bool {
	f := func(t *Term) bool {
		if t.op == "const" {
			return t.aux.(constant.Value).Kind() == constant.Int
		}
		return t.op == "len" || t.op == "bits" || t.typ != nil && isIntType(t.typ)
	}
	return f(a) && f(b)
}

// assume records that t has value v; false means contradiction.
func (ex *Ex) assume(s *State, t *Term, v bool) bool {
	if b, ok := t.BoolVal(); ok {
		return b == v
	}
	if t.op == "not" {
		return ex.assume(s, t.args[0], !v)
	}
	if cur, known := ex.decide(s, t); known {
		if cur != v {
			return false
		}
	}
	s.facts[t] = v
	if t.op == "cmp" {
		a, b := t.args[0], t.args[1]
		switch t.s {
		case "==":
			if isIntCmp(a, b) {
				l := toLin(a, 0).sub(toLin(b, 0))
				if v {
					return ex.assumeRange(s, l, 0, 0, nil)
				}
				z := int64(0)
				return ex.assumeRange(s, l, negInf, posInf, &z)
			}
			if ss, ok := b.StrVal(); ok && ss == "" || func() bool { q, k := a.StrVal(); return k && q == "" }() {
				x := a
				if q, k := a.StrVal(); k && q == "" {
					x = b
				}
				l := toLin(ex.lenOf(s, x), 0)
				if v {
					return ex.assumeRange(s, l, 0, 0, nil)
				}
				return ex.assumeRange(s, l, 1, posInf, nil)
			}
			if v && (a.op == "const" || b.op == "const") {
				// value known
			}
		case "<":
			l := toLin(a, 0).sub(toLin(b, 0))
			if v {
				return ex.assumeRange(s, l, negInf, -1, nil)
			}
			return ex.assumeRange(s, l, 0, posInf, nil)
		}
	}
	return true
}

func (ex *Ex) not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return ex.tt.Bool(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return ex.tt.mk("not", "", types.Typ[types.Bool], nil, t)
}

func (ex *Ex) cmpEq(a, b *Term) *Term {
	if a == b {
		return ex.tt.Bool(true)
	}
	if ba, ok := a.BoolVal(); ok {
		if ba {
			return b
		}
		return ex.not(b)
	}
	if bb, ok := b.BoolVal(); ok {
		if bb {
			return a
		}
		return ex.not(a)
	}
	// single unknown bit against constant
	if r := ex.bitCmp(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ex.tt.mk("cmp", "==", types.Typ[types.Bool], nil, a, b)
}

func (ex *Ex) bitCmp(a, b *Term) *Term {
	if b.op == "bits" {
		a, b = b, a
	}
	if a.op != "bits" {
		return nil
	}
	n, ok := b.IntVal()
	if !ok {
		return nil
	}
	bs := a.aux.([]bit)
	unk := -1
	for i, x := range bs {
		if x.src != nil {
			if unk >= 0 {
				return nil
			}
			unk = i
		} else if i < 63 && x.one != (n>>uint(i)&1 == 1) {
			return ex.tt.Bool(false)
		}
	}
	if unk < 0 || unk > 62 {
		return nil
	}
	atom := ex.tt.mk("bit", fmt.Sprint(bs[unk].idx), types.Typ[types.Bool], nil, bs[unk].src)
	want := n>>uint(unk)&1 == 1
	if bs[unk].neg {
		want = !want
	}
	if want {
		return atom
	}
	return ex.not(atom)
}

func (ex *Ex) compare(op token.Token, a, b *Term) *Term {
	switch op {
	case token.EQL:
		return ex.cmpEq(a, b)
	case token.NEQ:
		return ex.not(ex.cmpEq(a, b))
	}
	if a.op == "const" && b.op == "const" {
		av, bv := a.aux.(constant.Value), b.aux.(constant.Value)
		if av.Kind() == bv.Kind() || (av.Kind() != constant.String && bv.Kind() != constant.String && av.Kind() != constant.Bool) {
			return ex.tt.Bool(constant.Compare(av, op, bv))
		}
	}
	if a.op == "bits" || b.op == "bits" {
		// x > 0 / x != 0 on a value with one unknown bit
		if n, ok := b.IntVal(); ok && n == 0 && op == token.GTR {
			if r := ex.bitCmp(a, b); r != nil {
				return ex.not(r)
			}
		}
		if n, ok := a.IntVal(); ok && n == 0 && op == token.LSS {
			if r := ex.bitCmp(a, b); r != nil {
				return ex.not(r)
			}
		}
		if n, ok := b.IntVal(); ok && n == 1 && op == token.GEQ {
			if r := ex.bitCmp(a, ex.tt.Int(0)); r != nil {
				return ex.not(r)
			}
		}
	}
	lt := func(x, y *Term) *Term {
		if isIntCmp(x, y) {
			return ex.tt.mk("cmp", "<", types.Typ[types.Bool], nil, x, y)
		}
		return ex.tt.mk("cmpo", "<", types.Typ[types.Bool], nil, x, y)
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return ex.not(lt(b, a))
	case token.GEQ:
		return ex.not(lt(a, b))
	}
	return ex.tt.mk("cmpo", op.String(), types.Typ[types.Bool], nil, a, b)
}

// split returns the states in which t is true and false (nil if impossible).
func (ex *Ex) split(s *State, t *Term) (tr, fa *State) {
	if v, known := ex.decide(s, t); known {
		if v {
			return s, nil
		}
		return nil, s
	}
	s2 := s.clone()
	s.forkN++
	s2.forkN++
	if !ex.assume(s, t, true) {
		s = nil
	}
	if !ex.assume(s2, t, false) {
		s2 = nil
	}
	return s, s2
}
