package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

var overlay string

var checks = map[string]func(*Check){}

func main() {
	dir := flag.String("repo", "/repo", "")
	root := flag.String("root", "/verif", "")
	mod := flag.String("modfile", "/verif/analyzer/arpc.mod", "")
	dump := flag.String("dump", "", "[pkg:]func to dump paths of")
	spawnF := flag.Bool("spawn", false, "")
	loads := flag.Bool("loads", false, "")
	raw := flag.Bool("raw", false, "")
	ext := flag.Bool("ext", false, "dump with the root package opaque")
	id := flag.String("check", "", "property ids, comma separated, or all")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	flag.StringVar(&overlay, "overlay", "", "FILE=CONTENT: analyse with the content of one file replaced (for trying changes)")
	first := flag.Bool("first", false, "stop at the first check that reports something")
	flag.Parse()
	debug.SetGCPercent(400)
	t := time.Now()
	w, err := loadWorld(*dir, *mod)
	if err != nil {
		fmt.Println("cannot analyse the source:", err)
		for _, i := range strings.Split(*id, ",") {
			fmt.Printf("VIOLATION property=%s replay=%s\n", i, *dir)
		}
		os.Exit(1)
	}
	if *dump != "" {
		pkg, nm := "", *dump
		if i := strings.Index(nm, ":"); i >= 0 {
			pkg, nm = nm[:i], nm[i+1:]
		}
		fn := w.Fn(pkg, nm)
		if fn == nil {
			fn = w.HFn(nm)
		}
		fmt.Println(time.Since(t))
		o := Opts{}
		if !*raw {
			o = w.roles().std()
		}
		if *ext {
			o = newCheck(w, "", "").extOpts()
		}
		o.RunSpawned, o.KeepLoads = *spawnF, *loads
		ex := w.Explore(fn, o)
		for i, p := range ex.paths {
			fmt.Printf("--- path %d %s\n", i, p.done)
			for _, e := range p.events {
				fmt.Println("  ", w.evStr(e))
			}
		}
		fmt.Println(len(ex.paths), ex.steps, ex.over, time.Since(t))
		return
	}
	var ids []string
	if *id == "all" {
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*id, ",")
	}
	rc := 0
	for _, i := range ids {
		if n := runCheck(w, i, *tier, *root, *seed, len(ids) == 1, t); n > rc {
			rc = n
		}
		if *first && rc > 0 {
			break
		}
	}
	os.Exit(rc)
}

func runCheck(w *World, id, tier, root string, seed int, single bool, t time.Time) (rc int) {
	if !single {
		t = time.Now()
	}
	c := newCheck(w, id, tier)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.bad("analyzer", "internal", 0, nil, "the analysis could not be completed: %v\n%s", r, debug.Stack())
			}
		}()
		f := checks[id]
		if f == nil {
			panic("no such check " + id)
		}
		if c.rolesOK() {
			f(c)
		}
	}()
	return c.finish(root, t, seed)
}

func (w *World) evStr(e *Event) string {
	s := fmt.Sprintf("g%d %s %s", e.G, e.Kind, shortName(e.Name))
	for _, a := range e.Args {
		if a == nil {
			s += " <nil>"
			continue
		}
		s += " " + shortName(a.String())
	}
	for i, c := range e.Cases {
		m := " "
		if i == e.Chosen {
			m = " *"
		}
		if c.Send {
			s += m + c.Ch.String() + "<-" + c.Val.String()
		} else {
			s += m + "<-" + c.Ch.String()
		}
	}
	if e.Kind == "select" && !e.Block {
		s += " default"
		if e.Chosen < 0 {
			s += "*"
		}
	}
	if e.Res != nil {
		s += " => " + shortName(e.Res.String())
	}
	return s + "   @" + w.pos(e.Pos)
}
