package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects what one property's rules looked at and what they reject.
type Check struct {
	w       *World
	r       *Roles
	id      string
	tier    string
	viols   []*Viol
	seen    map[string]bool
	counts  map[string]int
	rules   []string
	samples []string
	entries map[string]int
	over    []string
	cache   map[string]*Ex
	capt    map[string]*capture // what the function explored under a key was made with

	strm *streamRoles // C20
}

type Viol struct {
	Rule, Construct, Pos, Msg string
	Trace                     []string
}

func (v *Viol) key() string { return v.Rule + " | " + v.Construct }

func newCheck(w *World, id, tier string) *Check {
	return &Check{w: w, r: w.roles(), id: id, tier: tier, seen: map[string]bool{}, counts: map[string]int{}, entries: map[string]int{}, cache: map[string]*Ex{}}
}

func (c *Check) thorough() bool { return c.tier == "thorough" }

// rule documents the rule text that is applied (evidence).
func (c *Check) rule(name, text string) { c.rules = append(c.rules, name+": "+text) }

// ob counts decided obligations.
func (c *Check) ob(name string) { c.counts[name]++ }

func (c *Check) sample(format string, a ...interface{}) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

func (c *Check) bad(rule, construct string, pos token.Pos, p *Path, format string, a ...interface{}) {
	v := &Viol{Rule: rule, Construct: construct, Pos: c.w.pos(pos), Msg: fmt.Sprintf(format, a...)}
	if c.seen[v.key()] {
		return
	}
	c.seen[v.key()] = true
	if p != nil {
		for _, e := range p.events {
			if e.Kind == "store" && len(e.Args) > 0 && e.Args[0].root().op == "alloc" || e.Kind == "load" || e.Kind == "slice" || e.Kind == "index" {
				continue
			}
			v.Trace = append(v.Trace, c.w.evStr(e))
		}
		if len(v.Trace) > 120 {
			v.Trace = append(v.Trace[:60:60], append([]string{"..."}, v.Trace[len(v.Trace)-59:]...)...)
		}
	}
	c.viols = append(c.viols, v)
}

// need resolves an anchor; a missing one is a violation (the guarantee's entry point is gone).
func (c *Check) need(fn *ssa.Function, name string) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		c.bad("anchor", name, token.NoPos, nil, "the operation %s this property is about does not exist any more", name)
		return false
	}
	return true
}

// floor: fewer decided obligations than confirmed by hand means the rule lost its subject.
func (c *Check) floor(name string, min int) {
	if c.counts[name] < min {
		c.bad("vacuity", name, token.NoPos, nil, "only %d instances of %q were found and decided, at least %d exist", c.counts[name], name, min)
	}
}

// paths explores fn (once per key) and returns the paths that ended properly.
func (c *Check) explore(key string, fn *ssa.Function, o Opts) *Ex {
	if ex, ok := c.cache[key]; ok {
		return ex
	}
	if cp := c.capt[key]; cp != nil && o.Bind == nil {
		o.Bind = cp.bind
		init := o.Init
		o.Init = func(ex *Ex, st *State) {
			for k, v := range cp.mem {
				st.mem[k] = v
			}
			if init != nil {
				init(ex, st)
			}
		}
	}
	ex := c.w.Explore(fn, o)
	c.cache[key] = ex
	c.entries[key] = len(ex.paths)
	if ex.over {
		c.over = append(c.over, fmt.Sprintf("%s (%d paths followed)", key, len(ex.paths)))
	}
	return ex
}

// capture: the variables a registered closure was made with. The object being
// constructed meanwhile stands for any object of its type.
type capture struct {
	bind []*Term
	mem  map[*Term]*Term
	fns  []*ssa.Function
}

func (c *Check) captured(key string, t *Term, p *Path) {
	if t == nil || t.op != "closure" {
		return
	}
	f := t.aux.(*ssa.Function)
	if unbound(f) != f {
		return
	}
	cp := &capture{mem: map[*Term]*Term{}}
	for _, a := range t.args {
		cp.bind = append(cp.bind, c.lift(cp, p, a))
	}
	if c.capt == nil {
		c.capt = map[string]*capture{}
	}
	c.capt[key] = cp
}

func (c *Check) lift(cp *capture, p *Path, t *Term) *Term {
	if t.op == "alloc" && t.typ != nil {
		if _, isStruct := deref(t.typ).Underlying().(*types.Struct); isStruct {
			return c.w.tt.mk("param", "captured", t.typ, nil)
		}
		if v := p.mem[t]; v != nil && cp.mem[t] == nil {
			cp.mem[t] = v
			cp.mem[t] = c.lift(cp, p, v)
		}
		return t
	}
	if t.op == "closure" || t.op == "fn" {
		cp.fns = append(cp.fns, unbound(t.aux.(*ssa.Function)))
	}
	if len(t.args) == 0 {
		return t
	}
	var as []*Term
	for _, a := range t.args {
		as = append(as, c.lift(cp, p, a))
	}
	same := true
	for i := range as {
		same = same && as[i] == t.args[i]
	}
	if same {
		return t
	}
	return c.w.tt.mk(t.op, t.s, t.typ, t.aux, as...)
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func (c *Check) finish(root string, start time.Time, seed int) int {
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			c.bad("known-findings", "known_findings.json", token.NoPos, nil, "unreadable: %v", err)
		}
	}
	var news []*Viol
	nknown := 0
	for _, v := range c.viols {
		hit := false
		for _, k := range kf.Known {
			if k.Property == c.id && k.Key == v.key() {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.What)
			}
		}
		if hit {
			nknown++
		} else {
			news = append(news, v)
		}
	}
	total := 0
	for _, n := range c.counts {
		total += n
	}
	paths := 0
	for _, n := range c.entries {
		paths += n
	}
	if total == 0 && len(news) == 0 {
		news = append(news, &Viol{Rule: "vacuity", Construct: c.id, Pos: "?", Msg: "no obligation was decided"})
	}
	var fns []string
	for f := range c.w.analysed {
		fns = append(fns, strings.ReplaceAll(f.String(), modPath, "arpc"))
	}
	sort.Strings(fns)
	fshow := fns
	if len(fshow) > 200 {
		fshow = fshow[:200]
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        "static analysis of the go/ssa form of /repo's current source: path-sensitive typestate/dataflow over the inlined supergraph of each entry (branches decided by facts or split, loops followed for a bounded number of undecided iterations), rules applied to every path class; nothing is executed and no solver is used",
			"rules":              c.rules,
			"obligations":        c.counts,
			"obligations_total":  total,
			"entries_explored":   c.entries,
			"path_classes":       paths,
			"functions_analysed": len(fns),
			"functions":          fshow,
			"bounded":            c.over,
			"samples":            c.samples,
			"known_findings":     nknown,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(news),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", c.id+".json"), b, 0o644)
	if len(news) == 0 {
		fmt.Printf("OK property=%s tier=%s obligations=%d paths=%d functions=%d %.1fs\n", c.id, c.tier, total, paths, len(fns), time.Since(start).Seconds())
		return 0
	}
	os.MkdirAll(filepath.Join(root, "reports"), 0o755)
	rp := filepath.Join(root, "reports", c.id+".txt")
	var sb strings.Builder
	for _, v := range news {
		fmt.Fprintf(&sb, "property %s violated\nrule: %s\nconstruct: %s\nat: %s\n%s\n", c.id, v.Rule, v.Construct, v.Pos, v.Msg)
		for _, t := range v.Trace {
			sb.WriteString("    " + t + "\n")
		}
		sb.WriteString("\n")
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, v := range news {
		fmt.Printf("  %s [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}
