package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Roles names the parts of the library the rules talk about. They are found
// by exported names and by type, not by unexported names.
type Roles struct {
	w                                                 *World
	client, message, stream, context, server, handler types.Type
	sendQ, closeCh                                    *types.Var
	sessions, asyncs, streamsL, streamsR              *types.Var
	sessT, asyncT                                     types.Type
	sessDone, asyncFn, asyncTimer                     *types.Var
	seq, conn, reader, head, hdl, dialer              *types.Var
	running, reconnecting                             *types.Var
	buffer                                            *types.Var
	strData                                           *types.Var
	hook                                              map[string]*types.Var // by setter name
	routes, streamRoutes, middles, coders             *types.Var
	missing                                           []string
	stopC                                             map[*types.Var]bool
}

func (w *World) roles() *Roles {
	if w.rolesC != nil {
		return w.rolesC
	}
	r := &Roles{w: w, hook: map[string]*types.Var{}}
	w.rolesC = r
	r.client, r.message, r.stream, r.context, r.server = w.Type("", "Client"), w.Type("", "Message"), w.Type("", "Stream"), w.Type("", "Context"), w.Type("", "Server")
	if w.handlerImpl != nil {
		r.handler = deref(w.handlerImpl)
	}
	miss := func(n string, ok bool) {
		if !ok {
			r.missing = append(r.missing, n)
		}
	}
	pm := types.NewPointer(r.message)
	one := func(n string, t types.Type, p func(*types.Var) bool) *types.Var {
		vs := fieldsWhere(t, p)
		miss(n, len(vs) >= 1)
		if len(vs) > 0 {
			return vs[0]
		}
		return nil
	}
	isChanOf := func(v *types.Var, p func(types.Type) bool) bool {
		ch, ok := v.Type().Underlying().(*types.Chan)
		return ok && p(ch.Elem())
	}
	r.sendQ = one("send queue", r.client, func(v *types.Var) bool {
		return isChanOf(v, func(t types.Type) bool { return types.Identical(t, pm) })
	})
	r.closeCh = one("close signal", r.client, func(v *types.Var) bool {
		return isChanOf(v, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Struct)
			return ok && s.NumFields() == 0
		})
	})
	if vs := fieldsWhere(r.client, func(v *types.Var) bool {
		return isChanOf(v, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Struct)
			return ok && s.NumFields() == 0
		})
	}); len(vs) > 1 { // the one that is waited for everywhere
		best := -1
		for _, v := range vs {
			n := 0
			for _, fn := range w.allFns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Select); ok {
							for _, x := range s.States {
								if isFieldLoad(x.Chan, v) {
									n++
								}
							}
						}
					}
				}
			}
			if n > best {
				best, r.closeCh = n, v
			}
		}
	}
	r.strData = one("stream data queue", r.stream, func(v *types.Var) bool {
		return isChanOf(v, func(t types.Type) bool { return types.Identical(t, pm) })
	})
	for _, v := range fieldsWhere(r.client, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Map); return ok }) {
		m := v.Type().Underlying().(*types.Map)
		if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 {
			continue
		}
		p, ok := m.Elem().Underlying().(*types.Pointer)
		if !ok || structOf(p.Elem()) == nil || types.Identical(p.Elem(), r.stream) {
			continue
		}
		for _, f := range fieldsWhere(p.Elem(), func(*types.Var) bool { return true }) {
			if isChanOf(f, func(t types.Type) bool { return types.Identical(t, pm) }) {
				r.sessions, r.sessT, r.sessDone = v, p.Elem(), f
			}
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Name() == "AsyncHandlerFunc" {
				r.asyncs, r.asyncT, r.asyncFn = v, p.Elem(), f
			}
		}
		if r.asyncs == v {
			for _, f := range fieldsWhere(p.Elem(), func(f *types.Var) bool { return f.Type().String() == "*time.Timer" }) {
				r.asyncTimer = f
			}
		}
	}
	miss("pending call table", r.sessions != nil)
	miss("async callback table", r.asyncs != nil)
	r.seq = one("sequence counter", r.client, func(v *types.Var) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	})
	for n, pp := range map[string]**types.Var{"Conn": &r.conn, "Reader": &r.reader, "Head": &r.head, "Handler": &r.hdl, "Dialer": &r.dialer, "running": &r.running} {
		*pp = fieldNamed(r.client, n)
		miss("Client."+n, *pp != nil)
	}
	r.buffer = fieldNamed(r.message, "Buffer")
	miss("Message.Buffer", r.buffer != nil)
	// the other state flag CheckState reads
	if fn := w.Fn("", "Client.CheckState"); fn != nil {
		visitFns(w, fn, 3, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						v := structOf(fa.X.Type()).Field(fa.Field)
						if v != r.running && types.Identical(deref(fa.X.Type()), r.client) && isBool(v.Type()) {
							r.reconnecting = v
						}
					}
				}
			}
		})
	}
	miss("reconnecting flag", r.reconnecting != nil)
	for _, n := range []string{"HandleMessageDone", "HandleMessageDropped", "HandleOverstock", "HandleSessionMiss", "HandleContextDone", "HandleConnected", "HandleDisconnected",
		"BeforeRecv", "BeforeSend", "HandleMalloc", "HandleAppend", "HandleFree", "SetReaderWrapper", "SetAsyncExecutor"} {
		fn := w.HFn(n)
		if fn == nil {
			miss(n, false)
			continue
		}
		visitFns(w, fn, 2, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), r.handler) {
							if r.hook[n] == nil {
								r.hook[n] = structOf(fa.X.Type()).Field(fa.Field)
							}
						}
					}
				}
			}
		})
		miss("hook set by "+n, r.hook[n] != nil)
	}
	// route tables, middleware and coder lists
	for _, v := range fieldsWhere(r.handler, func(*types.Var) bool { return true }) {
		switch u := v.Type().Underlying().(type) {
		case *types.Map:
			if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
				for _, f := range fieldsWhere(p.Elem(), func(*types.Var) bool { return true }) {
					if n, ok := f.Type().(*types.Named); ok && n.Obj().Name() == "StreamHandlerFunc" {
						r.streamRoutes = v
					}
					if sl, ok := f.Type().Underlying().(*types.Slice); ok {
						if n, ok := sl.Elem().(*types.Named); ok && n.Obj().Name() == "HandlerFunc" {
							r.routes = v
						}
					}
				}
			}
		case *types.Slice:
			if n, ok := u.Elem().(*types.Named); ok {
				switch n.Obj().Name() {
				case "HandlerFunc":
					r.middles = v
				case "MessageCoder":
					r.coders = v
				}
			}
		}
	}
	miss("route table", r.routes != nil)
	miss("stream route table", r.streamRoutes != nil)
	miss("middleware list", r.middles != nil)
	miss("coder list", r.coders != nil)
	// NewStream stores into the table of streams opened here
	if fn := w.Fn("", "Client.NewStream"); fn != nil {
		ex := w.Explore(fn, r.std())
		for _, p := range ex.paths {
			for _, e := range p.events {
				if e.Kind == "mapset" {
					if f := loadField(e.Args[0]); f != nil && structOf(f.Type().Underlying().(*types.Map).Elem()) == structOf(r.stream) {
						r.streamsL = f
					}
				}
			}
		}
	}
	for _, v := range fieldsWhere(r.client, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), types.NewPointer(r.stream))
	}) {
		if v != r.streamsL {
			r.streamsR = v
		}
	}
	miss("table of streams opened here", r.streamsL != nil)
	miss("table of streams opened by the peer", r.streamsR != nil)
	w.analysed = map[*ssa.Function]bool{}
	return r
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// visitFns visits fn and the module functions it calls statically, to depth d.
func visitFns(w *World, fn *ssa.Function, d int, f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function, d int)
	rec = func(fn *ssa.Function, d int) {
		if fn == nil || seen[fn] || d < 0 || len(fn.Blocks) == 0 || !w.inModule(fn) {
			return
		}
		seen[fn] = true
		f(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					rec(ci.Common().StaticCallee(), d-1)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			rec(a, d)
		}
	}
	rec(fn, d)
}

// loadField: the struct field a loaded value comes from (nil if none).
func loadField(t *Term) *types.Var {
	if t != nil && (t.op == "init" || t.op == "ver") && len(t.args) > 0 {
		return t.args[0].fieldVar()
	}
	return nil
}

// loadBase: the object whose field was loaded.
func loadBase(t *Term) *Term {
	if t != nil && (t.op == "init" || t.op == "ver") && len(t.args) > 0 && t.args[0].op == "field" {
		return t.args[0].args[0]
	}
	return nil
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath+".", "")
}

// std: the analysis settings shared by most rules. Hooks count as installed,
// value conversion and memory hooks are summarised (they have rules of their own),
// the state flags may change between any two reads.
func (r *Roles) std() Opts {
	w := r.w
	flags := map[*types.Var]bool{}
	for _, t := range []types.Type{r.client, r.server} {
		for _, v := range fieldsWhere(t, func(v *types.Var) bool { return isBool(v.Type()) }) {
			flags[v] = true
		}
	}
	return Opts{
		ExecSpawn: true,
		Opaque: func(fn *ssa.Function) bool {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/util" && (fn.Name() == "ValueToBytes" || fn.Name() == "BytesToValue") {
				return true
			}
			return w.isHandlerMethod(fn) && fn.Name() == "Free"
		},
		Summ: func(ex *Ex, st *State, name string, dyn *Term, args []*Term, rt types.Type) *Term { return nil },
		Volatile: func(a *Term) bool {
			v := a.fieldVar()
			return v != nil && flags[v]
		},
		LenMin: func(t *Term) int64 {
			if t.op == "len" && loadField(t.args[0]) != nil && loadField(t.args[0]) == r.buffer {
				return 16
			}
			return 0
		},
		NonNil: func(t *Term) bool {
			if t.op == "param" && t.typ != nil {
				if n, ok := deref(t.typ).(*types.Named); ok && n.Obj().Pkg() != nil && w.modPkg(n.Obj().Pkg()) {
					if _, isP := t.typ.Underlying().(*types.Pointer); isP {
						return true
					}
				}
			}
			if t.op == "recv" && r.isMsg(t) {
				return true
			}
			if t.op == "lookup" && len(t.args) > 0 && w.fullTable(loadField(t.args[0])) {
				return true
			}
			if f := loadField(t); f != nil {
				if f == r.hdl || f == r.conn {
					return true
				}
				if _, ok := f.Type().Underlying().(*types.Signature); ok && r.handler != nil {
					if b := loadBase(t); b != nil && b.typ != nil && types.Identical(deref(b.typ), r.handler) {
						return true
					}
				}
			}
			if t.op == "call" && strings.HasPrefix(t.s, "(github.com/lesismal/arpc.MessageCoder).") {
				return true
			}
			return false
		},
	}
}

// isHook: event is a call of the user hook installed by setter name; returns the hook's arguments.
func (r *Roles) isHook(e *Event, setter string) bool {
	if e.Kind != "dyn" || len(e.Args) == 0 {
		return false
	}
	f := loadField(e.Args[0])
	return f != nil && f == r.hook[setter]
}

// isCall: an opaque call of the named method/function (suffix match on the short name, e.g. "net.Conn).Write").
func isCall(e *Event, suffix string) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, suffix)
}

func entered(e *Event, fn *ssa.Function) bool {
	return e.Kind == "enter" && fn != nil && e.Name == fn.String()
}

// origin follows coder calls back to the message they were given.
func origin(t *Term) *Term {
	for t != nil && t.op == "call" && strings.HasPrefix(t.s, "(github.com/lesismal/arpc.MessageCoder).") && len(t.args) >= 1 {
		t = t.args[len(t.args)-1]
	}
	return t
}

func (r *Roles) isMsg(t *Term) bool {
	return t != nil && t.typ != nil && types.Identical(t.typ, types.NewPointer(r.message))
}

func (r *Roles) onClose(ch *Term) bool { return loadField(ch) == r.closeCh }

// onStop: a channel of the client that Stop itself closes.
func (r *Roles) onStop(ch *Term) bool {
	f := loadField(ch)
	return f != nil && r.stopChs()[f]
}

func (r *Roles) stopChs() map[*types.Var]bool {
	if r.stopC != nil {
		return r.stopC
	}
	r.stopC = map[*types.Var]bool{}
	fn := r.w.Fn("", "Client.Stop")
	if fn == nil {
		return r.stopC
	}
	for g := range r.w.reach(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for _, v := range fieldsWhere(r.client, func(*types.Var) bool { return true }) {
						if isFieldLoad(ci.Common().Args[0], v) {
							r.stopC[v] = true
						}
					}
				}
			}
		}
	}
	return r.stopC
}
func (r *Roles) onSendQ(ch *Term) bool { return loadField(ch) == r.sendQ }

// queued: the event put a message on a send queue; returns it.
func (r *Roles) queued(e *Event) *Term {
	if e.Kind == "send" && r.onSendQ(e.Args[0]) {
		return e.Args[1]
	}
	if e.Kind == "select" && e.Chosen >= 0 && e.Cases[e.Chosen].Send && r.onSendQ(e.Cases[e.Chosen].Ch) {
		return e.Cases[e.Chosen].Val
	}
	return nil
}

// written: the event writes bytes to a connection; returns (conn, bytes).
func (r *Roles) written(e *Event) (*Term, *Term) {
	if e.Kind == "call" && len(e.Args) == 2 && (strings.HasSuffix(e.Name, "(net.Conn).Write") || e.Name == "(net.Conn).Write") {
		return e.Args[0], e.Args[1]
	}
	if e.Kind == "call" && strings.HasSuffix(e.Name, "net.Buffers).WriteTo") && len(e.Args) == 2 {
		return e.Args[1], e.Args[0]
	}
	return nil, nil
}

// truth: what the path's facts say about a boolean term.
func (p *Path) truth(t *Term) (bool, bool) { return p.ex.decide(p.State, t) }

func (p *Path) isNil(t *Term) (val, known bool) {
	if t.IsNil() {
		return true, true
	}
	return p.truth(p.ex.cmpEq(t, p.ex.tt.Nil()))
}

// errNil: result error is definitely nil / definitely not nil.
func (p *Path) errIs(t *Term) string {
	v, k := p.isNil(t)
	if !k {
		return "?"
	}
	if v {
		return "nil"
	}
	return "err"
}

func (p *Path) rng(t *Term) (int64, int64) {
	lo, hi, _ := p.ex.rng(p.State, toLin(t, 0))
	return lo, hi
}

// cell reads a byte of a message buffer at the end of the path.
func (p *Path) cell(buf *Term, i int64) *Term {
	return p.ex.load(p.State, p.ex.idx(buf, p.ex.tt.Int(i), types.Typ[types.Uint8]), types.Typ[types.Uint8])
}

func (p *Path) loadF(obj *Term, v *types.Var) *Term {
	return p.ex.load(p.State, p.ex.field(obj, v), v.Type())
}

func (p *Path) buf(r *Roles, msg *Term) *Term { return p.loadF(msg, r.buffer) }

// u64 reads 8 little-endian bytes at offset i.
func (p *Path) u64(buf *Term, i int64) *Term {
	var bs []bit
	for k := int64(0); k < 8; k++ {
		bs = append(bs, p.ex.tt.bitsOf(p.cell(buf, i+k), 8)...)
	}
	return p.ex.tt.Bits(bs, types.Typ[types.Uint64])
}

func errGlobal(t *Term) string {
	if t != nil && t.op == "gval" {
		return t.s[strings.LastIndex(t.s, ".")+1:]
	}
	return ""
}

func fnName(fn *ssa.Function) string { return shortName(fn.String()) }

func posOf(e *Event) token.Pos { return e.Pos }

func (c *Check) rolesOK() bool {
	for _, m := range c.r.missing {
		c.bad("anchor", m, token.NoPos, nil, "cannot find the %s in the current source", m)
	}
	return len(c.r.missing) == 0
}

var _ = fmt.Sprint

// touches: fn, or anything in the module it can call or create (interface calls of the handler included), accesses one of the fields.
func (w *World) touches(fn *ssa.Function, fields ...*types.Var) bool {
	want := map[*types.Var]bool{}
	for _, f := range fields {
		want[f] = true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 || !w.inModule(fn) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if want[structOf(x.X.Type()).Field(x.Field)] {
						return true
					}
				case *ssa.Field:
					if want[structOf(x.X.Type()).Field(x.Field)] {
						return true
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					continue // another goroutine
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue // counted where it is called or handed over
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if t := cc.StaticCallee(); t != nil {
						if rec(t) {
							return true
						}
					} else if cc.IsInvoke() {
						if impl := w.devirt(cc.Value.Type()); impl != nil {
							if t := w.prog.LookupMethod(impl, cc.Method.Pkg(), cc.Method.Name()); t != nil && rec(t) {
								return true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if f := funcOf(*op); f != nil && rec(f) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}
