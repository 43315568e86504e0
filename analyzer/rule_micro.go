package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C32"] = ruleC32
}

const microPkg = "extension/micro"

type microRoles struct {
	mgr, list, node  types.Type
	table            *types.Var // manager: name -> list
	nodes            *types.Var // list: its nodes
	client, shutdown *types.Var // of a node
	strs             []*types.Var
	nums             []*types.Var // whole numbers of a list (round robin position)
	ok               bool
}

func (c *Check) micro() *microRoles {
	k := &microRoles{}
	sp := c.w.spkg[modPath+"/"+microPkg]
	it := c.w.Type(microPkg, "ServiceManager")
	if sp == nil || it == nil {
		c.need(nil, "micro.ServiceManager")
		return k
	}
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		c.need(nil, "micro.ServiceManager")
		return k
	}
	cliPtr := types.NewPointer(c.r.client)
	var named []types.Type
	for _, n := range sp.Pkg.Scope().Names() {
		if t, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok && structOf(t.Type()) != nil {
			named = append(named, t.Type())
		}
	}
	for _, t := range named {
		if types.Implements(types.NewPointer(t), iface) {
			k.mgr = t
		}
		for _, v := range fieldsWhere(t, func(v *types.Var) bool { return types.Identical(v.Type(), cliPtr) }) {
			k.node, k.client = t, v
		}
	}
	if k.mgr == nil || k.node == nil {
		c.need(nil, "micro manager and node types")
		return k
	}
	for _, v := range fieldsWhere(k.node, func(v *types.Var) bool { return isBool(v.Type()) }) {
		k.shutdown = v
	}
	k.strs = fieldsWhere(k.node, func(v *types.Var) bool { return typeKey(v.Type()) == "string" })
	for _, t := range named {
		for _, v := range fieldsWhere(t, func(v *types.Var) bool {
			s, ok := v.Type().Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), types.NewPointer(k.node))
		}) {
			k.list, k.nodes = t, v
		}
	}
	if k.list == nil {
		c.need(nil, "micro list of nodes")
		return k
	}
	k.nums = fieldsWhere(k.list, func(v *types.Var) bool { return isIntType(v.Type()) })
	for _, v := range fieldsWhere(k.mgr, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), types.NewPointer(k.list))
	}) {
		k.table = v
	}
	if k.table == nil || k.shutdown == nil {
		c.need(nil, "micro table of services")
		return k
	}
	k.ok = true
	return k
}

func (c *Check) microOpts(k *microRoles, size, at int64) Opts {
	o := c.extOpts()
	o.KeepLoads = true
	o.AtomicAdd = true
	o.MaxLoop = int(size) + 2
	o.LenIs = func(t *Term) (int64, bool) {
		if t.op == "init" && t.args[0].fieldVar() == k.nodes {
			return size, true
		}
		return 0, false
	}
	if at >= 0 {
		num := map[*types.Var]bool{}
		for _, v := range k.nums {
			num[v] = true
		}
		tt := c.w.tt
		o.Cell = func(a *Term, t types.Type) *Term {
			if num[a.fieldVar()] {
				return tt.Const(constInt(at), t)
			}
			return nil
		}
	}
	// nodes held in lists are there
	nn := o.NonNil
	o.NonNil = func(t *Term) bool {
		if nn != nil && nn(t) {
			return true
		}
		return c.origNode(k, t) != nil
	}
	return o
}

// origNode: an element the list of nodes held at the start: the list it came from.
func (c *Check) origNode(k *microRoles, t *Term) *Term {
	if t != nil && t.op == "init" && t.args[0].op == "idx" {
		if b := t.args[0].args[0]; b.op == "init" && b.args[0].fieldVar() == k.nodes {
			return b.args[0].args[0]
		}
	}
	return nil
}

// listAt: the list a path worked on: what the table held under the name, or a list put there.
func (c *Check) microLists(k *microRoles, p *Path) map[*Term]*Term {
	out := map[*Term]*Term{}
	for _, e := range p.events {
		if e.Kind == "mapget" && c.tableOf(p, e.Args[0], k.table) && !p.missed(e) {
			out[e.Res] = e.Args[1]
		}
		if e.Kind == "mapset" && c.tableOf(p, e.Args[0], k.table) {
			out[e.Args[2]] = e.Args[1]
		}
	}
	return out
}

// guards: lists, nodes in lists and the table are only touched under their locks.
func (c *Check) microGuards(k *microRoles, where string, fn *ssa.Function, p *Path) {
	lists := c.microLists(k, p)
	var one *Term
	for l := range lists {
		one = l
	}
	published := map[*Term]int{}
	for i, e := range p.events {
		if (e.Kind == "mapset" || e.Kind == "mapdel" || e.Kind == "mapget" || e.Kind == "range") && c.tableOf(p, e.Args[0], k.table) {
			c.ob("table accesses")
			o := loadBase(e.Args[0])
			if o == nil || !p.held(i, o) || (e.Kind == "mapset" || e.Kind == "mapdel") && !exclusive(p, i, o) {
				c.bad("guard", where+" table", e.Pos, p, "%s uses the table of services without the manager's lock", where)
			}
		}
		if e.Kind == "mapset" && c.tableOf(p, e.Args[0], k.table) {
			published[e.Args[2]] = i
		}
		if e.Kind == "store" && e.Args[0].fieldVar() == k.nodes {
			for _, q := range p.rawSeq(e.Args[1], 0) {
				for _, q := range p.norm([]piece{q}) {
					if q.elem != nil && q.elem.op == "alloc" {
						if _, ok := published[q.elem]; !ok {
							published[q.elem] = i
						}
					}
				}
			}
		}
		w := e.Kind == "store" || e.Kind == "atomic" && e.Name != "load"
		if !(w || e.Kind == "load" || e.Kind == "atomic") || len(e.Args) == 0 {
			continue
		}
		v := e.Args[0].fieldVar()
		var l *Term
		switch {
		case v == nil:
			continue
		case v == k.nodes || c.isOneOf(v, k.nums):
			l = e.Args[0].args[0]
			if at, ok := published[l]; l.op == "alloc" && (!ok || at >= i) {
				continue
			}
		case v == k.client || v == k.shutdown:
			n := e.Args[0].args[0]
			if n.op == "alloc" {
				if at, ok := published[n]; !ok || at > i {
					continue
				}
				l = one
			} else {
				l = c.origNode(k, n)
			}
			if l == nil {
				continue
			}
		default:
			continue
		}
		c.ob("list accesses")
		if !p.held(i, l) || w && e.Kind != "atomic" && !exclusive(p, i, l) {
			c.bad("guard", where+" "+v.Name(), e.Pos, p, "%s uses %s of a list of nodes without the list's lock", where, v.Name())
		}
	}
}

func (c *Check) isOneOf(v *types.Var, in []*types.Var) bool {
	for _, x := range in {
		if x == v {
			return true
		}
	}
	return false
}

func ruleC32(c *Check) {
	c.rule("guard", "the table of services, the lists of nodes and the state of listed nodes are used under their locks only (exclusively for changes)")
	c.rule("lookup", "a lookup returns a client only if it is the client of a node listed under the asked name, and was seen connected in the same critical section")
	c.rule("every", "a lookup that fails has seen every listed node unconnected, or found none")
	c.rule("delete", "deleting removes exactly the nodes of the address, marks each removed and stops its client; the others stay in order")
	c.rule("add", "adding keeps all nodes listed before; an address listed already adds nothing and its extra connection is stopped; otherwise the new nodes are listed in the same critical section as the check")
	c.rule("retry", "a failed connect is retried until the node is removed; a connection made later is given to the nodes only if they are still listed, and is stopped otherwise, under the list's lock")
	c.rule("directory", "a failed directory read changes nothing; a valid entry is never dropped; an entry that vanished is deleted; watch events are passed on as what they are")
	k := c.micro()
	if !k.ok {
		return
	}
	by := c.w.Fn(microPkg, k.mgr.(*types.Named).Obj().Name()+".ClientBy")
	add := c.w.Fn(microPkg, k.mgr.(*types.Named).Obj().Name()+".AddServiceNodes")
	del := c.w.Fn(microPkg, k.mgr.(*types.Named).Obj().Name()+".DeleteServiceNodes")
	if !c.need(by, "ServiceManager.ClientBy") || !c.need(add, "ServiceManager.AddServiceNodes") || !c.need(del, "ServiceManager.DeleteServiceNodes") {
		return
	}
	top := int64(3)
	if c.thorough() {
		top = 5
	}
	for size := int64(0); size <= top; size++ {
		starts := size
		if starts == 0 {
			starts = 1
		}
		for at := int64(0); at < starts; at++ {
			c.microLookup(k, by, size, at)
		}
	}
	keys := map[string]bool{}
	var addr *types.Var
	for size := int64(0); size <= 2 || c.thorough() && size <= 3; size++ {
		if v := c.microAdd(k, add, size, keys); v != nil {
			addr = v
		}
	}
	if addr == nil {
		c.bad("add", "AddServiceNodes", add.Pos(), nil, "AddServiceNodes lists no node that carries an address taken from the path")
		return
	}
	for size := int64(0); size <= 3; size++ {
		c.microDelete(k, del, size, addr, keys)
	}
	c.floor("lookups", 20)
	c.floor("clients returned", 6)
	c.floor("nodes deleted", 6)
	c.floor("nodes added", 4)
	c.floor("known addresses", 2)
	c.floor("late connections", 2)
	c.microOnly(k, add, del, by)
	c.microRedis()
	c.microEtcd()
}

// microOnly: nothing else changes the lists.
func (c *Check) microOnly(k *microRoles, roots ...*ssa.Function) {
	ok := map[*ssa.Function]bool{}
	for _, f := range roots {
		ok[f] = true
	}
	for _, f := range c.w.allFns {
		if !inPkg(f, modPath+"/"+microPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					continue
				}
				fa, isF := st.Addr.(*ssa.FieldAddr)
				if !isF {
					continue
				}
				v := structOf(deref(fa.X.Type())).Field(fa.Field)
				if v != k.nodes && v != k.client && v != k.shutdown {
					continue
				}
				c.ob("places that change nodes")
				if !c.within(f, ok) {
					c.bad("guard", f.Name(), in.Pos(), nil, "%s changes %s of a list or node outside add, delete and lookup", f.Name(), v.Name())
				}
			}
		}
	}
}

func (c *Check) microLookup(k *microRoles, fn *ssa.Function, size, at int64) {
	ex := c.explore("ClientBy "+itoa(at)+"/"+itoa(size), fn, c.microOpts(k, size, at))
	name := ex.ParamTerms(fn)[1]
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		c.ob("lookups")
		c.microGuards(k, "ClientBy", fn, p)
		c.bounds(p, microPkg, "lookup", "ClientBy")
		ret := p.events[len(p.events)-1]
		if p.done != "return" || ret.Kind != "return" || len(ret.Args) != 2 {
			c.bad("lookup", "panic", fn.Pos(), p, "a lookup in a list of %d nodes can end in a panic", size)
			continue
		}
		lists := c.microLists(k, p)
		var list *Term
		for l, n := range lists {
			if n == name {
				list = l
			} else {
				c.bad("lookup", "name", ret.Pos, p, "ClientBy looks into the list of another name")
			}
		}
		// what was seen of the nodes
		dead := map[int64]bool{}
		for i := int64(0); list != nil && i < size; i++ {
			n := p.elemAt(p.ex.tt.mk("init", "", k.nodes.Type(), nil, p.ex.field(list, k.nodes)), p.ex.tt.Int(i), elemType(k.nodes.Type()))
			cl := p.loadF(n, k.client)
			if p.isNull(cl) {
				dead[i] = true
			}
			for _, e := range p.events {
				if isCall(e, "Client).CheckState") && e.Args[0] == cl {
					if v, kn := p.isNil(e.Res); kn && !v {
						dead[i] = true
					}
				}
			}
		}
		cl, er := ret.Args[0], ret.Args[1]
		if p.isNull(cl) {
			if p.isNull(er) {
				c.bad("lookup", "no result", ret.Pos, p, "a lookup returns neither a client nor an error")
				continue
			}
			if list != nil && size > 0 && len(dead) < int(size) {
				c.bad("every", "gives up early", ret.Pos, p, "with %d nodes listed, the lookup fails after it saw only %d of them unconnected", size, len(dead))
			}
			if list != nil && size > 0 && isErrVar(er, "ErrServiceNotFound") {
				c.bad("every", "not found", ret.Pos, p, "a name with nodes is reported as not found")
			}
			continue
		}
		c.ob("clients returned")
		if !p.isNull(er) {
			c.bad("lookup", "client and error", ret.Pos, p, "a lookup returns a client along with an error, or without having seen it")
			continue
		}
		// the client of a listed node
		var owner *Term
		if loadField(cl) == k.client {
			owner = c.origNode(k, loadBase(cl))
		}
		if owner == nil || owner != list {
			c.bad("lookup", "foreign client", ret.Pos, p, "a lookup returns a client that is not one of a node listed under the name")
			continue
		}
		read := -1
		good := false
		for i, e := range p.events {
			if e.Kind == "load" && e.Args[0].fieldVar() == k.nodes && e.Args[0].args[0] == list {
				read = i
			}
			if isCall(e, "Client).CheckState") && e.Args[0] == cl {
				v, kn := p.isNil(e.Res)
				if kn && v && read >= 0 && sameSection(p, read, i, list) {
					if z, kn := p.isNil(cl); kn && !z {
						good = true
					}
				}
			}
		}
		if !good {
			c.bad("lookup", "unconnected client", ret.Pos, p, "a lookup returns a client that was not seen connected while its node was listed")
		}
	}
}

func isErrVar(t *Term, name string) bool {
	return t != nil && t.walk(func(x *Term) bool { return x.op == "gval" && strings.HasSuffix(x.s, "."+name) })
}

var hashNum = regexp.MustCompile(`#[0-9]+`)

// keyOf: how a value is taken from the path.
func keyOf(t, path *Term) string {
	if t == path {
		return "PATH"
	}
	switch t.op {
	case "const", "nil":
		return t.String()
	case "alloc":
		return t.op
	}
	s := t.op + ":" + hashNum.ReplaceAllString(t.s, "")
	for _, a := range t.args {
		s += "(" + keyOf(a, path) + ")"
	}
	return s
}

// malformed: the path was seen to have fewer parts than needed.
func (c *Check) malformed(p *Path, path *Term) bool {
	for _, e := range p.events {
		if isCall(e, "strings.Split") && e.Args[0] == path {
			if _, hi := p.rng(p.ex.lenOf(p.State, e.Res)); hi <= 2 {
				return true
			}
			return false
		}
	}
	return true
}

// partOf: value is the i-th part of the path (or taken from it in another way: -1).
func partOf(t, path *Term) (int64, bool) {
	if (t.op == "init" || t.op == "ver") && t.args[0].op == "idx" && isCallTerm(t.args[0].args[0], "strings.Split") && t.args[0].args[0].args[0] == path {
		return t.args[0].args[1].IntVal()
	}
	if t.walk(func(x *Term) bool { return x == path }) {
		return -1, true
	}
	return 0, false
}

func (c *Check) microAdd(k *microRoles, fn *ssa.Function, size int64, keys map[string]bool) *types.Var {
	o := c.microOpts(k, size, -1)
	o.RunSpawned = true
	v0 := o.Volatile
	o.Volatile = func(a *Term) bool { return v0 != nil && v0(a) || a.fieldVar() == k.shutdown }
	ex := c.explore("AddServiceNodes "+itoa(size), fn, o)
	path := ex.ParamTerms(fn)[1]
	var addrF *types.Var
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		c.ob("additions")
		c.microGuards(k, "AddServiceNodes", fn, p)
		c.bounds(p, microPkg, "add", "AddServiceNodes")
		if p.done != "return" {
			c.bad("add", "panic", fn.Pos(), p, "AddServiceNodes can end in a panic")
			continue
		}
		lists := c.microLists(k, p)
		// connections made
		var conns, late []int
		for i, e := range p.events {
			if isCall(e, "arpc.NewClient") {
				if e.G == 0 {
					conns = append(conns, i)
				} else {
					late = append(late, i)
				}
				c.dials(p, e, path)
			}
		}
		if len(lists) == 0 {
			if !c.malformed(p, path) {
				c.bad("add", "ignored", fn.Pos(), p, "AddServiceNodes ignores a well-formed path")
			}
			for _, i := range conns {
				c.stopped(p, i, nil, k, "AddServiceNodes")
			}
			continue
		}
		if len(lists) != 1 {
			c.bad("add", "lists", fn.Pos(), p, "AddServiceNodes works on more than one list")
			continue
		}
		var list, name *Term
		for l, n := range lists {
			list, name = l, n
		}
		if i, ok := partOf(name, path); !ok || i >= 0 && i != 1 {
			c.bad("add", "name", fn.Pos(), p, "AddServiceNodes lists nodes under something other than the service name of the path")
		}
		keys["name "+keyOf(name, path)] = true
		fresh := list.op == "alloc"
		if fresh {
			// the new list is entered in the section that found none
			okSet := false
			for i, e := range p.events {
				if e.Kind == "mapset" && c.tableOf(p, e.Args[0], k.table) && e.Args[2] == list {
					for j := 0; j < i; j++ {
						g := p.events[j]
						if g.Kind == "mapget" && c.tableOf(p, g.Args[0], k.table) && g.Args[1] == e.Args[1] && p.missed(g) && sameSection(p, j, i, loadBase(e.Args[0])) && exclusive(p, i, loadBase(e.Args[0])) {
							okSet = true
						}
					}
				}
			}
			if !okSet {
				c.bad("add", "new list", fn.Pos(), p, "AddServiceNodes enters a new list for a service although another one may be there already")
			}
		}
		var was []*Term
		if !fresh {
			old := p.ex.tt.mk("init", "", k.nodes.Type(), nil, p.ex.field(list, k.nodes))
			for i := int64(0); i < size; i++ {
				was = append(was, p.ex.tt.mk("init", "", elemType(k.nodes.Type()), nil, p.ex.idx(old, p.ex.tt.Int(i), elemType(k.nodes.Type()))))
			}
		}
		seq := p.seqOf(p.loadF(list, k.nodes))
		okOld := len(seq) >= len(was)
		for i, n := range was {
			if okOld && seq[i].elem != n {
				okOld = false
			}
		}
		if !okOld {
			c.bad("add", "loses nodes", fn.Pos(), p, "AddServiceNodes does not keep the %d nodes listed before", len(was))
			continue
		}
		// the section that decides
		first, last := -1, -1
		for i, e := range p.events {
			if e.Kind == "load" && e.Args[0].fieldVar() == k.nodes && e.Args[0].args[0] == list && e.G == 0 && first < 0 {
				first = i
			}
			if e.Kind == "store" && e.Args[0].fieldVar() == k.nodes && e.Args[0].args[0] == list && e.G == 0 {
				last = i
			}
		}
		added := seq[len(was):]
		if len(added) == 0 {
			c.ob("known addresses")
			// some listed node has the address
			same := false
			for _, n := range was {
				for _, v := range k.strs {
					a := p.loadF(n, v)
					for _, f := range p.eqTrue(a) {
						if i, ok := partOf(f, path); ok && (i == 2 || i < 0) {
							same = true
						}
					}
				}
			}
			if !same {
				c.bad("add", "not added", fn.Pos(), p, "AddServiceNodes does not list a node although no listed node was seen to have its address")
			}
			for _, i := range conns {
				c.stopped(p, i, nil, k, "AddServiceNodes, address listed already")
			}
			for _, e := range p.events {
				if e.Kind == "go" {
					c.bad("add", "retry", e.Pos, p, "AddServiceNodes keeps connecting to an address listed already")
				}
			}
			continue
		}
		c.ob("nodes added")
		news := map[*Term]bool{}
		var addr *Term
		for _, q := range added {
			if q.elem == nil || q.elem.op != "alloc" || news[q.elem] {
				c.bad("add", "what is added", fn.Pos(), p, "AddServiceNodes lists %s instead of new nodes", q)
				continue
			}
			news[q.elem] = true
			for _, v := range k.strs {
				a := p.loadF(q.elem, v)
				if i, ok := partOf(a, path); ok && (i == 2 || i < 0 && a != name) {
					addr = a
					addrF = v
					keys["addr "+keyOf(a, path)] = true
				}
			}
			if addr == nil || addrF == nil || p.loadF(q.elem, addrF) != addr {
				c.bad("add", "address", fn.Pos(), p, "a node is listed without the address of the path")
			}
			for _, e := range p.events {
				if e.G == 0 && e.Kind == "store" && e.Args[0] == p.ex.field(q.elem, k.shutdown) {
					if v, kn := p.truth(e.Args[1]); !kn || v {
						c.bad("add", "removed mark", e.Pos, p, "a new node is marked as removed")
					}
				}
			}
		}
		if addr == nil {
			continue
		}
		if last < 0 || first < 0 && len(was) > 0 || first >= 0 && !sameSection(p, first, last, list) || !exclusive(p, last, list) {
			c.bad("add", "section", fn.Pos(), p, "the check for the address and the listing of the nodes are not one critical section of the list")
		}
		for _, n := range was {
			if v, kn := p.truth(p.ex.cmpEq(p.loadF(n, addrF), addr)); !kn || v {
				c.bad("add", "duplicate", fn.Pos(), p, "nodes are listed although a listed node was not seen to have another address")
				break
			}
		}
		// each connection is given to all the nodes, or stopped
		failed := false
		for _, i := range conns {
			e := p.events[i]
			if v, kn := p.isNil(p.part(e.Res, 1)); kn && !v {
				failed = true
			}
			c.stopped(p, i, news, k, "AddServiceNodes")
		}
		if len(conns) == 0 {
			failed = true
		}
		started := -1
		for i, e := range p.events {
			if e.Kind == "go" && e.G == 0 {
				started = i
			}
		}
		if failed && started < 0 {
			c.bad("retry", "none", fn.Pos(), p, "a node whose connect failed is not retried")
		}
		c.microRetry(k, p, list, news, late)
	}
	return addrF
}

// stopped: the connection made by event i is given to every node or stopped (if there is one).
func (c *Check) stopped(p *Path, i int, news map[*Term]bool, k *microRoles, where string) {
	e := p.events[i]
	cl := p.part(e.Res, 0)
	if v, kn := p.isNil(p.part(e.Res, 1)); kn && !v {
		return // no connection was made
	}
	if p.isNull(cl) {
		return
	}
	c.ob("connections followed")
	for _, x := range p.events[i:] {
		if isCall(x, "arpc.Client).Stop") && x.Args[0] == cl {
			return
		}
	}
	if len(news) > 0 {
		all := true
		for n := range news {
			ok := false
			for _, x := range p.events[i:] {
				if x.Kind == "store" && x.Args[0] == p.ex.field(n, k.client) && x.Args[1] == cl {
					ok = true
				}
			}
			if !ok {
				all = false
			}
		}
		if all {
			return
		}
	}
	c.bad("add", "leak "+where, e.Pos, p, "%s: a connection is neither kept by the listed nodes nor stopped", where)
}

// dials: the client made connects to the address of the path.
func (c *Check) dials(p *Path, e *Event, path *Term) {
	fn := c.closureOf(e.Args[0])
	if fn == nil {
		return
	}
	o := c.extOpts()
	if e.Args[0].op == "closure" {
		o.Bind = e.Args[0].args
	}
	mem := p.mem
	prev := o.Init
	o.Init = func(ex *Ex, st *State) {
		if prev != nil {
			prev(ex, st)
		}
		for a, v := range mem {
			st.mem[a] = v
		}
	}
	ex := c.w.Explore(fn, o)
	for _, q := range ex.paths {
		n := 0
		for _, x := range q.events {
			if x.Kind != "dyn" {
				continue
			}
			n++
			c.ob("dial addresses")
			ok := false
			for _, a := range x.Args {
				if i, k := partOf(a, path); k && (i == 2 || i < 0) {
					ok = true
				}
			}
			if !ok {
				c.bad("add", "dials", x.Pos, q, "a node's connection is dialled to something other than the address of the path")
			}
		}
		if q.done == "return" && n == 0 {
			c.bad("add", "dials", fn.Pos(), q, "a node's connection is not dialled with the manager's dialer")
		}
	}
}

func (c *Check) microRetry(k *microRoles, p *Path, list *Term, news map[*Term]bool, late []int) {
	for n, i := range late {
		e := p.events[i]
		// seen listed since the attempt before
		from := 0
		if n > 0 {
			from = late[n-1]
		}
		seen := false
		for j := from; j < i; j++ {
			x := p.events[j]
			if x.G == e.G && x.Kind == "load" && x.Args[0].fieldVar() == k.shutdown && news[x.Args[0].args[0]] {
				if v, kn := p.truth(x.Res); kn && !v {
					seen = true
				}
			}
		}
		c.ob("retries")
		if !seen {
			c.bad("retry", "removed node", e.Pos, p, "a connect is retried without having seen that the node is still listed")
		}
		er := p.part(e.Res, 1)
		if v, kn := p.isNil(er); kn && !v {
			continue
		}
		c.ob("late connections")
		cl := p.part(e.Res, 0)
		ok := false
		for j := i; j < len(p.events); j++ {
			x := p.events[j]
			if isCall(x, "arpc.Client).Stop") && x.Args[0] == cl {
				ok = true
			}
		}
		if !ok {
			ok = len(news) > 0
			for nd := range news {
				given := false
				for j := i; j < len(p.events); j++ {
					x := p.events[j]
					if x.Kind == "store" && x.Args[0] == p.ex.field(nd, k.client) && x.Args[1] == cl && exclusive(p, j, list) {
						for h := 0; h < j; h++ {
							y := p.events[h]
							if y.Kind == "load" && y.Args[0].fieldVar() == k.shutdown && news[y.Args[0].args[0]] && sameSection(p, h, j, list) {
								if v, kn := p.truth(y.Res); kn && !v {
									given = true
								}
							}
						}
					}
				}
				if !given {
					ok = false
				}
			}
		}
		if !ok {
			c.bad("retry", "late connection", e.Pos, p, "a connection made by a retry is neither given to all nodes while they are seen listed nor stopped")
		}
	}
	// it ends only when connected or removed
	if len(late) > 0 {
		e := p.events[late[len(late)-1]]
		if v, kn := p.isNil(p.part(e.Res, 1)); kn && !v {
			gone := false
			for _, x := range p.events[late[len(late)-1]:] {
				if x.Kind == "load" && x.Args[0].fieldVar() == k.shutdown {
					if v, kn := p.truth(x.Res); kn && v {
						gone = true
					}
				}
			}
			if !gone {
				c.bad("retry", "gives up", e.Pos, p, "the retries end although the node is still listed and not connected")
			}
		}
	}
}

// eqTrue: the values the path has seen equal to t.
func (p *Path) eqTrue(t *Term) []*Term {
	var out []*Term
	for f, v := range p.facts {
		if v && f.op == "cmp" && f.s == "==" {
			if f.args[0] == t {
				out = append(out, f.args[1])
			}
			if f.args[1] == t {
				out = append(out, f.args[0])
			}
		}
	}
	return out
}

func (c *Check) microDelete(k *microRoles, fn *ssa.Function, size int64, addrF *types.Var, keys map[string]bool) {
	ex := c.explore("DeleteServiceNodes "+itoa(size), fn, c.microOpts(k, size, -1))
	path := ex.ParamTerms(fn)[1]
	for _, p := range ex.paths {
		if p.done == "cut" {
			continue
		}
		c.ob("deletions")
		c.microGuards(k, "DeleteServiceNodes", fn, p)
		c.bounds(p, microPkg, "delete", "DeleteServiceNodes")
		if p.done != "return" {
			c.bad("delete", "panic", fn.Pos(), p, "DeleteServiceNodes can end in a panic with %d nodes listed", size)
			continue
		}
		lists := c.microLists(k, p)
		for _, e := range p.events {
			if e.Kind == "store" && e.Args[0].op == "field" && e.Args[0].fieldVar() == k.nodes && lists[e.Args[0].args[0]] == nil {
				c.bad("delete", "other service", e.Pos, p, "DeleteServiceNodes removes nodes from a list other than that of the service the path names")
			}
		}
		if len(lists) == 0 {
			missed := false
			for _, e := range p.events {
				if e.Kind == "mapget" && c.tableOf(p, e.Args[0], k.table) && p.missed(e) && keys["name "+keyOf(e.Args[1], path)] {
					missed = true
				}
			}
			if !missed && !c.malformed(p, path) {
				c.bad("delete", "ignored", fn.Pos(), p, "DeleteServiceNodes ignores a well-formed path of a known service")
			}
			continue
		}
		for list, name := range lists {
			if !keys["name "+keyOf(name, path)] {
				c.bad("delete", "name", fn.Pos(), p, "DeleteServiceNodes takes the service name from the path in another way than AddServiceNodes")
			}
			old := p.ex.tt.mk("init", "", k.nodes.Type(), nil, p.ex.field(list, k.nodes))
			var want []*Term
			for i := int64(0); i < size; i++ {
				n := p.ex.tt.mk("init", "", elemType(k.nodes.Type()), nil, p.ex.idx(old, p.ex.tt.Int(i), elemType(k.nodes.Type())))
				a := p.loadF(n, addrF)
				gone, known := false, false
				for f, v := range p.facts {
					if len(f.args) != 2 || f.args[0] != a && f.args[1] != a {
						continue
					}
					b := f.args[0]
					if b == a {
						b = f.args[1]
					}
					if !keys["addr "+keyOf(b, path)] {
						continue
					}
					if r, kn := p.truth(p.ex.cmpEq(a, b)); kn {
						gone, known = r, true
					}
					_ = v
				}
				if !known {
					c.bad("delete", "not compared", fn.Pos(), p, "DeleteServiceNodes does not look at the address of every listed node")
					continue
				}
				if !gone {
					want = append(want, n)
					continue
				}
				c.ob("nodes deleted")
				if v, kn := p.truth(p.loadF(n, k.shutdown)); !kn || !v {
					c.bad("delete", "mark", fn.Pos(), p, "a deleted node is not marked as removed: a connect under way would bring it back")
				}
				cl := p.ex.tt.mk("init", "", k.client.Type(), nil, p.ex.field(n, k.client))
				if !p.isNull(cl) {
					st := false
					for _, e := range p.events {
						if isCall(e, "arpc.Client).Stop") && e.Args[0] == cl {
							st = true
						}
					}
					if !st {
						c.bad("delete", "client", fn.Pos(), p, "the client of a deleted node is not stopped")
					}
				}
			}
			seq := p.seqOf(p.loadF(list, k.nodes))
			same := len(seq) == len(want)
			for i := range want {
				if same && seq[i].elem != want[i] {
					same = false
				}
			}
			if !same {
				c.bad("delete", "list", fn.Pos(), p, "deleting from %d nodes leaves %v, not the %d nodes of other addresses", size, seq, len(want))
			}
			for _, e := range p.events {
				if isCall(e, "arpc.Client).Stop") {
					if n := loadBase(e.Args[0]); n != nil {
						for _, x := range want {
							if x == n {
								c.bad("delete", "healthy client", e.Pos, p, "deleting one address stops the client of another")
							}
						}
					}
				}
			}
		}
	}
}

// ---- directories ------------------------------------------------------------

func isAdd(e *Event) bool { return isCall(e, "ServiceManager).AddServiceNodes") }
func isDel(e *Event) bool { return isCall(e, "ServiceManager).DeleteServiceNodes") }

func (c *Check) dirOpts() Opts {
	o := c.extOpts()
	op0 := o.Opaque
	o.Opaque = func(f *ssa.Function) bool { return op0(f) || inPkg(f, modPath+"/"+microPkg) }
	return o
}

// callsAll: the function calls all of these, itself or in functions of its package.
func (c *Check) callsAll(fn *ssa.Function, pkg string, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	got := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !inPkg(f, pkg) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				n := ""
				if cc.IsInvoke() {
					n = cc.Method.Name()
				} else if f2 := cc.StaticCallee(); f2 != nil {
					n = f2.Name()
					visit(f2)
				}
				for _, x := range names {
					if n == x {
						got[x] = true
					}
				}
			}
		}
	}
	visit(fn)
	return len(got) == len(names)
}

// smallest: the functions of a package that call all of these while none of those they call does.
func (c *Check) smallest(pkg string, names ...string) []*ssa.Function {
	var all []*ssa.Function
	for _, f := range c.w.allFns {
		if inPkg(f, pkg) && c.callsAll(f, pkg, names...) {
			all = append(all, f)
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		ok := true
		for _, g := range all {
			if g != f && c.callsFn(f, g) {
				ok = false
			}
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

func (c *Check) callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func (c *Check) microRedis() {
	pkg := modPath + "/" + microPkg + "/redis"
	dt := c.w.Type(microPkg+"/redis", "Discovery")
	if dt == nil {
		c.need(nil, "redis.Discovery")
		return
	}
	var cache *types.Var
	for _, v := range fieldsWhere(dt, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && typeKey(m.Key()) == "string"
	}) {
		cache = v
	}
	fns := c.smallest(pkg, "HGetAll", "DeleteServiceNodes", "AddServiceNodes")
	if cache == nil || len(fns) == 0 {
		c.need(nil, "the redis directory reader and its cache")
		return
	}
	for _, fn := range fns {
		o := c.dirOpts()
		o.MaxLoop = 1
		if c.thorough() {
			o.MaxLoop = 2
		}
		ex := c.explore("redis "+fn.Name(), fn, o)
		for _, p := range ex.paths {
			c.redisRead(fn, p, cache)
		}
	}
	c.floor("directory entries kept", 2)
	c.floor("directory entries dropped", 4)
	c.floor("directory entries vanished", 2)
	c.floor("failed directory reads", 1)
	c.redisLoops(pkg)
}

func (c *Check) redisRead(fn *ssa.Function, p *Path, cache *types.Var) {
	where := fn.Name()
	var get *Event
	for _, e := range p.events {
		if isCall(e, ").HGetAll") {
			get = e
		}
	}
	acts := func(e *Event) bool {
		return isAdd(e) || isDel(e) || isCall(e, ").HDel") || e.Kind == "store" && e.Args[0].fieldVar() == cache
	}
	if get == nil {
		for _, e := range p.events {
			if acts(e) {
				c.bad("directory", where+" unread", e.Pos, p, "%s changes services without having read the directory", where)
			}
		}
		return
	}
	// what the read said
	failed, known := false, false
	for _, e := range p.events {
		var er *Term
		if len(e.Args) > 0 && e.Res != nil && e.Args[0].walk(func(x *Term) bool { return x == get.Res }) {
			switch {
			case isCall(e, ").Err"):
				er = e.Res
			case isCall(e, ").Result"):
				er = p.part(e.Res, 1)
			}
		}
		if er != nil {
			if v, kn := p.isNil(er); kn {
				failed, known = !v, true
			}
		}
	}
	if !known || failed {
		c.ob("failed directory reads")
		for _, e := range p.events {
			if acts(e) {
				c.bad("directory", where+" failed read", e.Pos, p, "%s changes services although the directory was not read successfully", where)
			}
		}
		ret := p.events[len(p.events)-1]
		if p.done == "return" && failed && (ret.Kind != "return" || len(ret.Args) > 0 && p.isNull(ret.Args[len(ret.Args)-1])) {
			c.bad("directory", where+" error", ret.Pos, p, "%s reports success although the directory was not read", where)
		}
		return
	}
	// old and new cache
	isOld := func(m *Term) bool { return loadField(m) == cache }
	isOld0 := func(e *Event) bool {
		return (e.Kind == "mapdel" || e.Kind == "mapget") && isOld(e.Args[0])
	}
	var fresh *Term
	for _, e := range p.events {
		if e.Kind == "store" && e.Args[0].fieldVar() == cache {
			fresh = e.Args[1]
		}
	}
	if p.done == "return" {
		if fresh == nil || isOld(fresh) {
			c.bad("directory", where+" cache", fn.Pos(), p, "%s does not remember the entries it read", where)
			return
		}
	} else {
		for _, e := range p.events {
			if e.Kind == "mapset" && e.Args[0].op == "makemap" && types.Identical(e.Args[0].typ.Underlying(), cache.Type().Underlying()) {
				fresh = e.Args[0]
			}
		}
	}
	isSrc := func(m *Term) bool {
		return m.walk(func(x *Term) bool { return x == get.Res }) && !isOld(m)
	}
	// entry by entry
	var kept []*Term
	for i, e := range p.events {
		if e.Kind != "range" || !isSrc(e.Args[0]) {
			continue
		}
		end := i + 1
		for end < len(p.events) && !((p.events[end].Kind == "range" || p.events[end].Kind == "rangeend") && isSrc(p.events[end].Args[0])) {
			end++
		}
		if end == len(p.events) {
			continue // cut off inside
		}
		seg := p.events[i+1 : end]
		why := c.entryInvalid(p, seg, e.Args[1], e.Args[2])
		var key *Term
		for _, x := range seg {
			if x.Kind == "mapset" && x.Args[0] == fresh {
				key = x.Args[1]
			}
			if isCall(x, ").HDel") && why == "" {
				c.bad("directory", where+" removes entry", x.Pos, p, "%s removes an entry from the directory that was not seen malformed or expired", where)
			}
		}
		if key == nil {
			c.ob("directory entries dropped")
			if why == "" {
				c.bad("directory", where+" drops entry", e.Pos, p, "%s drops an entry that was not seen malformed or expired", where)
			}
			for _, x := range seg {
				if isAdd(x) {
					c.bad("directory", where+" adds", x.Pos, p, "%s adds nodes it does not remember", where)
				}
			}
			continue
		}
		c.ob("directory entries kept")
		kept = append(kept, key)
		if why != "" {
			c.bad("directory", where+" keeps entry", e.Pos, p, "%s keeps an entry that is %s", where, why)
		}
		c.entryKey(p, where, key, e.Args[1])
		known, added := false, false
		for _, x := range seg {
			if x.Kind == "mapget" && isOld(x.Args[0]) && x.Args[1] == key && x.Chosen == 0 {
				known = true
			}
			if isAdd(x) {
				if x.Args[1] != key {
					c.bad("directory", where+" adds", x.Pos, p, "%s adds nodes under another path than it remembers", where)
				}
				added = true
			}
			if isDel(x) && x.Args[1] == key {
				c.bad("directory", where+" deletes", x.Pos, p, "%s deletes the nodes of a valid entry", where)
			}
		}
		if !known && !added {
			c.bad("directory", where+" not added", e.Pos, p, "%s neither knew nor added a valid entry", where)
		}
	}
	// what vanished
	for i, e := range p.events {
		if isDel(e) {
			ok := false
			for j := 0; j < i; j++ {
				x := p.events[j]
				if x.Kind == "range" && isOld(x.Args[0]) && x.Args[1] == e.Args[1] {
					ok = true
					// kept entries are out of the old cache, or this one was seen not kept
					seen := false
					for h := j; h < i; h++ {
						y := p.events[h]
						if y.Kind == "mapget" && y.Args[0] == fresh && y.Args[1] == e.Args[1] && y.Chosen == 1 {
							seen = true
						}
					}
					for _, kp := range kept {
						out := seen
						for h := 0; h < j; h++ {
							y := p.events[h]
							if isOld0(y) && y.Args[1] == kp && (y.Kind == "mapdel" || y.Kind == "mapget" && y.Chosen == 1) {
								out = true
							}
						}
						if !out {
							c.bad("directory", where+" deletes valid", e.Pos, p, "%s deletes nodes of entries that are still in the directory", where)
						}
					}
				}
			}
			if !ok {
				c.bad("directory", where+" deletes", e.Pos, p, "%s deletes nodes of something it did not remember from before", where)
			}
		}
		if e.Kind == "range" && isOld(e.Args[0]) {
			end := i + 1
			for end < len(p.events) && !((p.events[end].Kind == "range" || p.events[end].Kind == "rangeend") && isOld(p.events[end].Args[0])) {
				end++
			}
			if end == len(p.events) {
				continue
			}
			c.ob("directory entries vanished")
			ok := false
			for _, x := range p.events[i+1 : end] {
				if isDel(x) && x.Args[1] == e.Args[1] || x.Kind == "mapget" && x.Args[0] == fresh && x.Args[1] == e.Args[1] && x.Chosen == 0 {
					ok = true
				}
			}
			if !ok {
				c.bad("directory", where+" stays", e.Pos, p, "%s leaves nodes of an entry that vanished from the directory", where)
			}
		}
	}
	if p.done == "return" {
		seen := false
		for _, e := range p.events {
			if (e.Kind == "range" || e.Kind == "rangeend") && isOld(e.Args[0]) {
				seen = true
			}
		}
		if !seen {
			c.bad("directory", where+" stays", fn.Pos(), p, "%s does not look for entries that vanished", where)
		}
	}
}

// entryInvalid: how the path has seen that the entry is not to be served.
func (c *Check) entryInvalid(p *Path, seg []*Event, key, val *Term) string {
	for _, e := range seg {
		if isCall(e, "strings.Split") && e.Args[0] == key {
			l := p.ex.lenOf(p.State, e.Res)
			lo, hi := p.rng(l)
			if lo > 3 || hi < 3 {
				return "malformed"
			}
			if v, kn := p.truth(p.ex.cmpEq(l, p.ex.tt.Int(3))); kn && !v {
				return "malformed"
			}
		}
		if (isCall(e, "strconv.ParseInt") || isCall(e, "strconv.Atoi")) && e.Args[0] == val {
			if v, kn := p.isNil(p.part(e.Res, 1)); kn && !v {
				return "malformed"
			}
			n := p.ex.extract(e.Res, 0, types.Typ[types.Int64])
			if _, hi := p.rng(n); hi <= 0 {
				return "malformed"
			}
			for _, x := range seg {
				if isCall(x, "time.Time).Unix") {
					if lo, _ := p.rng(p.sub(x.Res, n)); lo >= 1 {
						return "expired"
					}
				}
			}
		}
	}
	return ""
}

// entryKey: the path of the nodes is namespace, service name and address of the entry.
func (c *Check) entryKey(p *Path, where string, key, entry *Term) {
	leaves := p.pathLeaves(key)
	if leaves == nil {
		return
	}
	c.ob("paths of directory entries")
	if len(leaves) != 3 {
		c.bad("directory", where+" path", token.NoPos, p, "%s makes the path of nodes from %v, not from namespace, service name and address", where, leaves)
		return
	}
	for i, t := range leaves[1:] {
		if n, ok := partOf(t, entry); !ok || n >= 0 && n != int64(i) {
			c.bad("directory", where+" path", token.NoPos, p, "%s makes the path of nodes from %v, not from namespace, service name and address", where, leaves)
		}
	}
}

// pathLeaves: the pieces a path made of three pieces is put together from, nil if the way is not known.
func (p *Path) pathLeaves(key *Term) []*Term {
	var leaves []*Term
	plain := func(t *Term) *Term {
		for t.op == "iface" {
			t = t.args[0]
		}
		return t
	}
	switch {
	case isCallTerm(key, "fmt.Sprintf"):
		f, ok := key.args[0].StrVal()
		if !ok || len(strings.Split(f, "/")) != 3 {
			return nil
		}
		for _, q := range p.seqOf(key.args[1]) {
			if q.elem == nil {
				return nil
			}
			leaves = append(leaves, plain(q.elem))
		}
	case isCallTerm(key, "strings.Join"):
		for _, q := range p.seqOf(key.args[0]) {
			if q.elem == nil {
				return nil
			}
			leaves = append(leaves, q.elem)
		}
	case key.op == "bin" && key.s == "+":
		var flat func(t *Term)
		flat = func(t *Term) {
			if t.op == "bin" && t.s == "+" {
				flat(t.args[0])
				flat(t.args[1])
			} else if t.op != "const" {
				leaves = append(leaves, t)
			}
		}
		flat(key)
	}
	return leaves
}

// redisLoops: the background loops end at Stop.
func (c *Check) redisLoops(pkg string) {
	for _, tn := range []string{"Discovery", "Register"} {
		t := c.w.Type(microPkg+"/redis", tn)
		if t == nil {
			continue
		}
		var done *types.Var
		for _, v := range fieldsWhere(t, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Chan); return ok }) {
			done = v
		}
		stop := c.w.Fn(microPkg+"/redis", tn+".Stop")
		if done == nil || !c.need(stop, "redis."+tn+".Stop") {
			continue
		}
		closes := false
		for _, p := range c.explore("redis "+tn+".Stop", stop, c.dirOpts()).paths {
			if p.done != "return" {
				continue
			}
			c.ob("directory stops")
			ok := false
			for _, e := range p.events {
				if e.Kind == "close" && loadField(e.Args[0]) == done {
					ok, closes = true, true
				}
				if e.Kind == "select" && !e.Block && e.Chosen >= 0 && loadField(e.Cases[e.Chosen].Ch) == done {
					ok = true // ended already
				}
			}
			if repeated(p) {
				ok = true // stopped before
			}
			if !ok {
				c.bad("directory", tn+".Stop", stop.Pos(), p, "redis %s.Stop does not end the background loop", tn)
			}
		}
		if !closes {
			c.bad("directory", tn+".Stop", stop.Pos(), nil, "redis %s.Stop does not end the background loop", tn)
		}
		waits := 0
		if mk := c.w.Fn(microPkg+"/redis", "New"+tn); mk != nil {
			for _, p := range c.explore("redis New"+tn, mk, c.dirOpts()).paths {
				starts := 0
				for _, e := range p.events {
					if e.Kind == "go" && e.G == 0 {
						starts++
					}
				}
				if p.done != "return" || len(p.results) != 2 {
					continue
				}
				none := p.isNull(p.results[0])
				er, kn := p.isNil(p.results[1])
				c.ob("directory starts")
				switch {
				case none && (!kn || er):
					c.bad("directory", "New"+tn, mk.Pos(), p, "redis New%s returns nothing and no error", tn)
				case !none && kn && er && starts == 0:
					c.bad("directory", "New"+tn, mk.Pos(), p, "redis New%s does not start its background loop", tn)
				}
			}
		}
		for _, f := range c.w.allFns {
			if !inPkg(f, pkg) || len(f.Params) == 0 || !types.Identical(deref(f.Params[0].Type()), t) || f.Parent() != nil || !hasLoopWait(f) {
				continue
			}
			o := c.dirOpts()
			o.MaxLoop = 1
			op0 := o.Opaque
			o.Opaque = func(g *ssa.Function) bool {
				return op0(g) || g != f && c.callsAll(g, pkg, "HGetAll") && g.Parent() == nil
			}
			for _, p := range c.explore("redis loop "+f.Name(), f, o).paths {
				for i, e := range p.events {
					if e.Kind == "recv" && e.G == 0 {
						c.bad("directory", tn+" loop", e.Pos, p, "the background loop of redis %s waits without listening to the stop signal", tn)
					}
					if e.Kind != "select" || !e.Block {
						continue
					}
					c.ob("background waits")
					waits++
					at := -1
					for n, s := range e.Cases {
						if !s.Send && loadField(s.Ch) == done {
							at = n
						}
					}
					if at < 0 {
						c.bad("directory", tn+" loop", e.Pos, p, "the background loop of redis %s waits without listening to the stop signal", tn)
						continue
					}
					for _, x := range p.events[:i] {
						if !isCall(x, "time.Ticker).Stop") && !isCall(x, "time.Timer).Stop") {
							continue
						}
						dead := 0
						for n, s := range e.Cases {
							if n != at && s.Ch.walk(func(y *Term) bool { return y == x.Args[0] }) {
								dead++
							}
						}
						for _, y := range p.events[:i] {
							if (isCall(y, "time.Ticker).Reset") || isCall(y, "time.Timer).Reset")) && y.Args[0] == x.Args[0] {
								dead = 0
							}
						}
						if dead > 0 {
							c.bad("directory", tn+" loop", x.Pos, p, "the background loop of redis %s stops the clock it waits for", tn)
						}
					}
					if len(e.Cases) < 2 {
						c.bad("directory", tn+" loop", e.Pos, p, "the background loop of redis %s waits for nothing but the stop signal", tn)
					} else if e.Chosen >= 0 && e.Chosen != at {
						end, did := len(p.events), false
						for j := i + 1; j < end; j++ {
							x := p.events[j]
							if x.Kind == "select" && x.Block {
								end = j
							}
							if tn == "Register" && isCall(x, ").HSet") || tn == "Discovery" && (isCall(x, ").HGetAll") || x.Fn != nil && c.callsAll(x.Fn, pkg, "HGetAll")) {
								did = true
							}
						}
						if !did && (end < len(p.events) || p.done == "return") {
							c.bad("directory", tn+" loop", e.Pos, p, "the background loop of redis %s does not renew what it keeps at an interval", tn)
						}
					}
					if e.Chosen == at {
						for _, x := range p.events[i+1:] {
							if x.Kind == "select" || isCall(x, ").HSet") || isCall(x, ").HGetAll") {
								c.bad("directory", tn+" loop", x.Pos, p, "the background loop of redis %s goes on after the stop signal", tn)
							}
						}
					}
				}
			}
		}
		if waits == 0 {
			c.bad("directory", tn+" loop", token.NoPos, nil, "redis %s has no background loop that waits for its interval and for the stop signal", tn)
		}
	}
	c.floor("background waits", 2)
	c.floor("directory stops", 2)
}

func hasLoopWait(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

// microEtcd: the watcher of the etcd directory, followed from its constructor through all goroutines.
func (c *Check) microEtcd() {
	fn := c.w.Fn(microPkg+"/etcd", "NewDiscovery")
	if !c.need(fn, "etcd.NewDiscovery") {
		return
	}
	o := c.dirOpts()
	o.RunSpawned = true
	o.KeepLoads = true
	o.MaxLoop = 1
	o.Keep = func(e *Event) bool {
		switch e.Kind {
		case "load":
			v := e.Args[0].fieldVar()
			return v != nil && (v.Name() == "Type" || v.Name() == "Key" || v.Name() == "Kv")
		case "slice", "index", "binacc":
			return false
		}
		return true
	}
	ex := c.explore("etcd NewDiscovery", fn, o)
	mgr := ex.ParamTerms(fn)[2]
	for _, p := range ex.paths {
		c.etcdPath(fn, p, mgr)
	}
	c.etcdRegister()
	c.redisRegister()
	c.floor("watch events", 2)
	c.floor("listed entries", 1)
	c.floor("directory reads after watching", 1)
	c.floor("watchers ready", 1)
}

func (c *Check) etcdPath(fn *ssa.Function, p *Path, mgr *Term) {
	none := p.isNull(mgr)
	// key of an entry: string(kv.Key)
	of := func(t *Term, f string) *Term {
		for t != nil && (t.op == "conv" || t.op == "b2s") {
			t = t.args[0]
		}
		if v := loadField(t); v != nil && v.Name() == f {
			return loadBase(t)
		}
		return nil
	}
	for i, e := range p.events {
		if e.Kind == "load" && e.Args[0].fieldVar().Name() == "Type" {
			ev := e.Args[0].args[0]
			lo, hi := p.rng(e.Res)
			// does the path go on beyond this event?
			ends := false
			var hit []*Event
			for _, x := range p.events[i+1:] {
				if x.G != e.G {
					continue
				}
				if x.Kind == "load" && x.Args[0].fieldVar().Name() == "Type" && x.Args[0].args[0] != ev || x.Kind == "recv" || x.Kind == "return" {
					ends = true
					break
				}
				if isAdd(x) || isDel(x) {
					hit = append(hit, x)
				}
			}
			if !ends && p.done == "cut" {
				continue
			}
			c.ob("watch events")
			can := func(n int64) bool {
				v, kn := p.truth(p.ex.cmpEq(e.Res, p.ex.tt.Const(constInt(n), e.Res.typ)))
				return lo <= n && n <= hi && (!kn || v)
			}
			put, del := false, false
			for _, x := range hit {
				put = put || isAdd(x)
				del = del || isDel(x)
			}
			if !none {
				if can(0) && !put {
					c.bad("directory", "put", e.Pos, p, "an entry put into etcd is not added")
				}
				if can(1) && !del {
					c.bad("directory", "delete", e.Pos, p, "an entry deleted from etcd is not deleted")
				}
			}
			if put && (lo != 0 || hi != 0) || del && (lo != 1 || hi != 1) {
				c.bad("directory", "other event", e.Pos, p, "a watch event is taken for one of another kind")
			}
			for _, x := range hit {
				kv := of(x.Args[1], "Key")
				if kv == nil || loadBase(kv) != ev || isAdd(x) && of(x.Args[2], "Value") != kv {
					c.bad("directory", "entry", x.Pos, p, "a watch event is passed on with something other than its own key and value")
				}
			}
		}
		if isCall(e, ".KV).Get") {
			// only after the watch began
			c.ob("directory reads after watching")
			ok := false
			for j := 0; j < i; j++ {
				x := p.events[j]
				if x.G == e.G && isCall(x, ").Watch") {
					ok = true
				}
				if x.G == e.G && x.Kind == "recv" {
					for h, y := range p.events {
						if y.Kind != "close" && y.Kind != "send" || y.Args[0] != x.Args[0] {
							continue
						}
						for g := 0; g < h; g++ {
							if z := p.events[g]; z.G == y.G && isCall(z, ").Watch") {
								ok = true
							}
						}
					}
				}
			}
			if !ok {
				c.bad("directory", "order", e.Pos, p, "the entries are read before the watch has begun: a change in between is missed")
			}
			failed, kn := p.isNil(p.part(e.Res, 1))
			for _, x := range p.events[i:] {
				if x.G == e.G && isAdd(x) {
					c.ob("listed entries")
					if !kn || !failed {
						c.bad("directory", "failed read", x.Pos, p, "entries of a failed read are added")
					}
					kv := of(x.Args[1], "Key")
					if kv == nil || of(x.Args[2], "Value") != kv {
						c.bad("directory", "entry", x.Pos, p, "an entry is added with something other than its own key and value")
					}
				}
			}
			// every entry read is added
			n := 0
			for _, x := range p.events[i:] {
				if x.G == e.G && isAdd(x) {
					n++
				}
			}
			if p.done == "return" && kn && failed && !none {
				if l := p.kvCount(e.Res); l >= 0 && n != int(l) {
					c.bad("directory", "entries", e.Pos, p, "of %d entries read %d are added", l, n)
				}
			}
		}
	}
	// the constructor's wait ends
	if p.done == "return" {
		for _, e := range p.events {
			if e.Kind == "recv" && e.G == 0 && e.Args[0].op == "makechan" {
				c.ob("watchers ready")
				ok := false
				for _, x := range p.events {
					if (x.Kind == "close" || x.Kind == "send") && x.Args[0] == e.Args[0] {
						ok = true
					}
				}
				if !ok {
					c.bad("directory", "ready", e.Pos, p, "NewDiscovery waits for a signal that is not given on this path")
				}
			}
		}
	}
}

// kvCount: how many entries the response has, as far as the path knows (-1: unknown).
func (p *Path) kvCount(res *Term) int64 {
	out := int64(-1)
	for _, e := range p.events {
		for _, a := range e.Args {
			a.walk(func(x *Term) bool {
				if v := loadField(x); v != nil && v.Name() == "Kvs" && x.walk(func(y *Term) bool { return y == res }) {
					lo, hi := p.rng(p.ex.lenOf(p.State, x))
					if lo == hi {
						out = lo
					}
				}
				return false
			})
		}
	}
	return out
}

// etcdRegister: a key registered already is left alone, and a failed step is reported.
func (c *Check) etcdRegister() {
	fn := c.w.Fn(microPkg+"/etcd", "NewRegister")
	if !c.need(fn, "etcd.NewRegister") {
		return
	}
	o := c.dirOpts()
	ex := c.explore("etcd NewRegister", fn, o)
	key, value := ex.ParamTerms(fn)[1], ex.ParamTerms(fn)[2]
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		var ret *Event
		var grant *Term
		put, kept := false, false
		failed := false
		for i, e := range p.events {
			if e.Kind == "return" && e.G == 0 && len(e.Args) == 2 {
				ret = e
			}
			for _, n := range []string{"v3.New", "concurrency.NewSession", ".Lease).Grant", ".KV).Get", ".KV).Put", ".Lease).KeepAlive"} {
				if isCall(e, n) {
					if v, kn := p.isNil(p.part(e.Res, 1)); !kn || !v {
						failed = true
					}
				}
			}
			if isCall(e, "concurrency.Mutex).Lock") {
				if v, kn := p.isNil(e.Res); !kn || !v {
					failed = true
				}
			}
			if isCall(e, ".Lease).Grant") {
				grant = p.part(e.Res, 0)
			}
			leased := func(t *Term) bool {
				return grant != nil && t.walk(func(y *Term) bool { return y == grant })
			}
			if isCall(e, ".Lease).KeepAlive") && leased(e.Args[2]) {
				kept = true
			}
			if isCall(e, ".KV).Put") {
				put = true
				if e.Args[3] != value {
					c.bad("directory", "etcd register", e.Pos, p, "NewRegister puts %v, not the given value", e.Args[3])
				}
				under := false
				for _, q := range p.seqOf(e.Args[4]) {
					if q.elem == nil && q.whole == nil || q.elem != nil && leased(q.elem) {
						under = true
					}
				}
				if !under {
					c.bad("directory", "etcd register", e.Pos, p, "NewRegister puts the entry without the lease that ends it with the process")
				}
				c.ob("etcd registrations")
				ok := false
				for j := 0; j < i; j++ {
					g := p.events[j]
					if isCall(g, ".KV).Get") && g.Args[2] == key && e.Args[2] == key {
						if v, kn := p.isNil(p.part(g.Res, 1)); kn && v && p.kvEmpty(g.Res) {
							for h := 0; h < j; h++ {
								if isCall(p.events[h], "concurrency.Mutex).Lock") {
									ok = true
								}
							}
						}
					}
				}
				if !ok {
					c.bad("directory", "etcd register", e.Pos, p, "NewRegister puts a key without having seen, under the registration mutex, that it is not registered")
				}
			}
		}
		if ret == nil {
			continue
		}
		c.ob("etcd registration results")
		none := p.isNull(ret.Args[0])
		er, kn := p.isNil(ret.Args[1])
		if failed && (!kn || er) || none && (!kn || er) {
			c.bad("directory", "etcd register result", ret.Pos, p, "NewRegister reports success although nothing was registered")
		}
		if !none && kn && er && (!put || !kept) {
			c.bad("directory", "etcd register result", ret.Pos, p, "NewRegister reports success without having put the entry and kept its lease alive")
		}
		if !failed && !none && (!kn || !er) {
			c.bad("directory", "etcd register result", ret.Pos, p, "NewRegister returns a registration along with an error")
		}
	}
	c.floor("etcd registrations", 1)
	c.floor("etcd registration results", 4)
}

// kvEmpty: the response was seen without entries.
func (p *Path) kvEmpty(res *Term) bool {
	for f := range p.facts {
		if f.walk(func(x *Term) bool {
			if v := loadField(x); v != nil && v.Name() == "Kvs" && x.walk(func(y *Term) bool { return y == res }) {
				_, hi := p.rng(p.ex.lenOf(p.State, x))
				return hi == 0
			}
			return false
		}) {
			return true
		}
	}
	resp := p.part(res, 0)
	st := structOf(deref(resp.typ))
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if v := st.Field(i); v.Name() == "Kvs" {
			_, hi := p.rng(p.ex.lenOf(p.State, p.loadF(resp, v)))
			return hi == 0
		}
	}
	return false
}

// redisRegister: the entry kept alive and removed is the one registered.
func (c *Check) redisRegister() {
	fn := c.w.Fn(microPkg+"/redis", "NewRegister")
	t := c.w.Type(microPkg+"/redis", "Register")
	if t == nil || !c.need(fn, "redis.NewRegister") {
		return
	}
	fields := map[string]*types.Var{}
	ex := c.explore("redis NewRegister", fn, c.dirOpts())
	for _, p := range ex.paths {
		if p.done != "return" {
			continue
		}
		ret := p.events[len(p.events)-1]
		for _, e := range p.events {
			if e.Kind == "return" && e.G == 0 {
				ret = e
			}
		}
		for _, e := range p.events {
			if !isCall(e, ").HSetNX") && !isCall(e, ").HSet") || len(ret.Args) != 2 {
				continue
			}
			failed := false
			for _, x := range p.events {
				if isCall(x, ").Err") && x.Args[0].walk(func(y *Term) bool { return y == e.Res }) {
					if v, kn := p.isNil(x.Res); !kn || !v {
						failed = true
					}
				}
			}
			if failed {
				if v, kn := p.isNil(ret.Args[1]); !kn || v {
					c.bad("directory", "redis register", ret.Pos, p, "redis NewRegister reports success although the entry was not written")
				}
				continue
			}
			if p.isNull(ret.Args[0]) {
				continue
			}
			c.ob("redis registrations")
			args := ex.ParamTerms(fn)
			var strs []*Term
			for i, pr := range fn.Params {
				if isStringType(pr.Type()) {
					strs = append(strs, args[i])
				}
			}
			if len(strs) == 4 {
				if e.Args[2] != strs[1] {
					c.bad("directory", "redis register", e.Pos, p, "redis NewRegister writes the entry under %v, not under the namespace", e.Args[2])
				}
				if lv := p.pathLeaves(e.Args[3]); lv != nil && (len(lv) != 3 || lv[0] != strs[2] || lv[1] != strs[3]) {
					c.bad("directory", "redis register", e.Pos, p, "redis NewRegister makes the entry from %v, not from service name, address and weight, which is how it is read back", lv)
				}
			}
			got := map[string]*types.Var{}
			for i := 0; i < structOf(t).NumFields(); i++ {
				v := structOf(t).Field(i)
				switch p.loadF(ret.Args[0], v) {
				case e.Args[2]:
					got["namespace"] = v
				case e.Args[3]:
					got["field"] = v
				}
			}
			if len(got) != 2 {
				c.bad("directory", "redis register", e.Pos, p, "redis NewRegister does not remember the entry it wrote")
				continue
			}
			fields = got
		}
	}
	if len(fields) != 2 {
		return
	}
	for _, f := range c.w.allFns {
		if !inPkg(f, modPath+"/"+microPkg+"/redis") || len(f.Params) == 0 || !types.Identical(deref(f.Params[0].Type()), t) || f.Parent() != nil {
			continue
		}
		o := c.dirOpts()
		o.MaxLoop = 1
		for _, p := range c.explore("redis Register "+f.Name(), f, o).paths {
			for _, e := range p.events {
				del := isCall(e, ").HDel")
				if !del && !isCall(e, ").HSet") {
					continue
				}
				c.ob("redis entries touched")
				key := e.Args[3]
				if seq := p.seqOf(key); len(seq) > 0 && key.typ != nil && seq[0].elem != nil {
					key = seq[0].elem
				}
				for key.op == "iface" {
					key = key.args[0]
				}
				if loadField(e.Args[2]) != fields["namespace"] || loadField(key) != fields["field"] {
					c.bad("directory", "redis entry", e.Pos, p, "%s touches another entry than the one registered", f.Name())
				}
			}
		}
	}
	stop := c.w.Fn(microPkg+"/redis", "Register.Stop")
	if c.need(stop, "redis.Register.Stop") {
		for _, p := range c.explore("redis Register.Stop", stop, c.dirOpts()).paths {
			ok := false
			for _, e := range p.events {
				if isCall(e, ").HDel") {
					ok = true
				}
			}
			if p.done == "return" && !ok {
				c.bad("directory", "redis Stop", stop.Pos(), p, "redis Register.Stop leaves its entry in the directory")
			}
		}
	}
	c.floor("redis registrations", 1)
	c.floor("redis entries touched", 2)
}

// missed: the map had nothing under the key (maps of pointers hold no nil ones).
func (p *Path) missed(e *Event) bool {
	return e.Chosen == 1 || e.Res == nil || p.isNull(e.Res)
}
