package checks

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C13", "Abstract interpretation of the dependency graph's construction for every base, recommended and ordinary package under every combination of settings; of the layering, the per-package dependency lists, the packing of the plan, and the expansion of tarballs and DESCRIPTION files.", c13)
}

const (
	fnAppend  = "gpsr.appendToGraph"
	fnLayers  = "gpsr.ResolveLayers"
	fnResolve = "gpsr.ResolveInstallationReqs"
	fnPack    = "(*gpsr.InstallPlan).Pack"
	fnCombine = "(*desc.Desc).GetCombinedDependencies"
)

// The packages that come with R, by priority.
var basePackages = strings.Fields("base compiler datasets graphics grDevices grid methods parallel splines stats stats4 tcltk tools utils")
var recommendedPackages = strings.Fields("Matrix boot class cluster codetools foreign KernSmooth lattice MASS mgcv nlme nnet rpart spatial survival")

func c13(c *C) {
	c.Rule("requires", "a package requires exactly the packages of its Depends, Imports and LinkingTo fields that are enabled for it, that a repository offers, and that do not come with R (recommended packages count unless they are switched off)")
	c.Rule("closure", "every package required, and every one suggested where suggestions are enabled, is itself added with its own requirements, once")
	c.Rule("roots", "the graph starts from every requested package, with the settings of the run")
	c.Rule("layers", "a package is placed in a layer only when all that it requires is in earlier ones; what is placed is what is removed, and a graph that cannot be layered is an error")
	c.Rule("dep-list", "the dependency list of each package that requires others holds all packages of its own graph except itself")
	c.Rule("plan", "the plan holds every package of the graph: the first layer as starting packages, the others with their dependency list")
	c.Rule("pack", "every package of the plan is to be downloaded as the selection has it")
	c.Rule("expand", "Depends (but R), Imports and LinkingTo of tarballs and DESCRIPTION files, and the Suggests of DESCRIPTION files, are requested")

	c13append(c)
	c13layers(c)
	c13resolve(c)
	c13pack(c)
	c13combine(c)
}

var depFields = []string{"Depends", "Imports", "LinkingTo", "Suggests"}

type depCase struct {
	name    string
	offered bool
	noRec   bool
	own     bool // the package has its own settings
	on      [4]bool
	inGraph bool
}

func (d depCase) String() string {
	var on []string
	for i, f := range depFields {
		if d.on[i] {
			on = append(on, f)
		}
	}
	return fmt.Sprintf("candidate %s offered=%v NoRecommended=%v own settings=%v enabled=%s in graph=%v", d.name, d.offered, d.noRec, d.own, strings.Join(on, "+"), d.inGraph)
}

func (d depCase) excluded() bool {
	for _, b := range basePackages {
		if b == d.name {
			return true
		}
	}
	for _, b := range recommendedPackages {
		if b == d.name {
			return d.noRec
		}
	}
	return false
}

func c13append(c *C) {
	var cases []depCase
	all := [4]bool{true, true, true, true}
	names := append(append([]string{"dplyr"}, basePackages...), recommendedPackages...)
	for _, n := range names {
		for _, nr := range []bool{false, true} {
			cases = append(cases, depCase{name: n, offered: true, noRec: nr, on: all})
		}
	}
	for _, n := range []string{"dplyr", "MASS", "stats", "R"} {
		for b := 0; b < 16; b++ {
			if ones := b&1 + b>>1&1 + b>>2&1 + b>>3&1; ones == 2 && !c.Thorough() {
				continue
			}
			on := [4]bool{b&1 != 0, b&2 != 0, b&4 != 0, b&8 != 0}
			for k := 0; k < 16; k++ {
				d := depCase{name: n, offered: k&1 != 0, noRec: k&2 != 0, own: k&4 != 0, inGraph: k&8 != 0, on: on}
				if n == "R" && d.offered || n == "stats" && !c.Thorough() && (k != 1 && k != 5) {
					continue
				}
				cases = append(cases, d)
			}
		}
	}
	n := 0
	for _, d := range cases {
		n++
		c13case(c, d)
	}
	c.Min("requires", n, 400, "settings combinations evaluated")
}

// candidateOf tells which field's candidate the term is the name of.
func candidateOf(t *engine.Term) string {
	t = engine.Strip(t)
	for t.Op == "prev" {
		t = engine.Strip(t.Args[0])
	}
	var m *engine.Term
	switch {
	case t.Op == "key":
		m = engine.Strip(t.Args[0])
	case t.Op == "field" && t.Str == "Name" && t.Args[0].Op == "elem":
		m = engine.Strip(t.Args[0].Args[0])
	default:
		return ""
	}
	m = deref(m)
	for _, f := range depFields {
		if m.Op == "field" && m.Str == f {
			return f
		}
	}
	return ""
}

func c13case(c *C, d depCase) {
	fn := c.Fn(fnAppend)
	e := c.Eng()
	e.Relevant = rel(`^gpsr\.`)
	e.Opaque[fnAppend] = true
	e.Opaque[fnGetPackage] = true
	con := c.P.FnName(fn)
	m := &Model{}
	isGraph := func(t *engine.Term) bool {
		t = engine.Strip(t)
		return t.Op == "param" && isNamed("Graph")(t.Type)
	}
	m.Atom = func(t *engine.Term) (any, bool) {
		if t.Op == "prev" {
			return m.Eval(t.Args[0])
		}
		if f := candidateOf(t); f != "" {
			return d.name, true
		}
		if t.Op == "haskey" {
			mp, k := lookupOf(t)
			if isGraph(mp) && candidateOf(k) != "" {
				return d.inGraph, true
			}
			if isGraph(mp) {
				return false, true
			}
			if isField(mp, "Deps") {
				return d.own, true
			}
		}
		if mp, k := lookupOf(t); mp != nil && t.Op != "haskey" && isGraph(mp) {
			_ = k
			return nil, false
		}
		if t.Op == "res" && t.Args[0].Op == "call" && t.Args[0].Str == fnGetPackage && t.Str == "2" {
			return d.offered, true
		}
		if t.Op == "field" {
			base := deref(t.Args[0])
			src := ""
			if mp, _ := lookupOf(base); mp != nil && isField(mp, "Deps") {
				src = "own"
			} else if isField(base, "Default") {
				src = "default"
			}
			if src == "" {
				return nil, false
			}
			if t.Str == "NoRecommended" {
				if (src == "own") == d.own {
					return d.noRec, true
				}
				return !d.noRec, true
			}
			for i, f := range depFields {
				if t.Str == f {
					if (src == "own") == d.own {
						return d.on[i], true
					}
					return !d.on[i], true // the settings that do not apply
				}
			}
		}
		return nil, false
	}
	m.Use(e)
	e.KeyIs = func(k *engine.Term) *engine.Term {
		if candidateOf(k) != "" {
			return e.Str(d.name)
		}
		return nil
	}
	want := func(f string) bool {
		for i, x := range depFields {
			if x == f {
				return d.on[i] && d.offered && !d.excluded()
			}
		}
		return false
	}
	what := d.String()
	each := newEach(e)
	isReqs := func(t *engine.Term) bool {
		return t.Op != "range" && deref(t).Op != "field" && t.Contains(func(x *engine.Term) bool { f := candidateOf(x); return f != "" && f != "Suggests" })
	}
	for _, f := range depFields {
		f := f
		each.Track(f, func(t *engine.Term) bool { t = deref(t); return t.Op == "field" && t.Str == f })
	}
	each.Track("reqs", isReqs)
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		switch key {
		case "reqs":
			if !d.inGraph && g.Auto["did:reqs"] != "1" {
				c.Fail("closure", con, at, "a required package is not added: "+what, g.Path(8))
			}
		case "Suggests":
			if want(key) && !d.inGraph && g.Auto["did:Suggests"] != "1" {
				c.Fail("closure", con, at, "a suggested package is not added: "+what, g.Path(8))
			}
		default:
			if want(key) && g.Auto["did:"+key] != "1" {
				c.Fail("requires", con, at, "a package of "+key+" is not required: "+what, g.Path(8))
			}
		}
	}
	watch(e, func(t *engine.Term) string {
		if t.Op == "empty" && isReqs(engine.Strip(t.Args[0])) {
			return "empty"
		}
		return ""
	})
	stores := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case "append":
			for _, a := range ev.Args[1:] {
				for _, t := range a {
					for _, x := range vlistArgs(t) {
						if f := candidateOf(x); f != "" {
							ev.G.Auto["did:"+f] = "1"
							ev.G.Auto["had:"+f] = "1"
						}
					}
				}
			}
		case "mapstore":
			if len(ev.Args) != 3 || !ev.Arg(0).All(isGraph) {
				return nil
			}
			stores++
			if !ev.Arg(1).All(func(t *engine.Term) bool { return isField(t, "Package") }) {
				c.Fail("requires", con, where(ev), "a node is stored under another name than the package's: "+e.SV(ev.Arg(1)), nil)
			}
			ev.G.Auto["stored"] = "1"
			if !e.FieldOf(ev.G, ev.Arg(2), "Name").All(func(t *engine.Term) bool { return isField(t, "Package") }) {
				c.Fail("requires", con, where(ev), "the node's name is not the package's", nil)
			}
			deps := e.FieldOf(ev.G, ev.Arg(2), "Deps")
			for i, f := range depFields {
				has := deps.Any(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { return candidateOf(x) == f })
				})
				w := want(f) && f != "Suggests"
				if has && !w {
					c.Fail("requires", con, where(ev), "a package of "+f+" is required that must not be: "+what, nil)
				}
				if f != "Suggests" && d.on[i] && d.offered && !d.excluded() && ev.G.Auto["all:"+f] != "1" {
					c.Fail("requires", con, where(ev), "the node is stored before all of "+f+" has been examined: "+what, nil)
				}
				if ev.G.Auto["had:"+f] == "1" && !has && w {
					c.Fail("requires", con, where(ev), "the packages of "+f+" are not in the stored node: "+what, nil)
				}
			}
		case fnAppend:
			ev.G.Auto["rec"] = "1"
			if ev.G.Auto["stored"] != "1" {
				c.Fail("closure", con, where(ev), "another package is added before this one is recorded, so that packages that require each other are followed for ever: "+what, nil)
			}
			if !ev.Arg(0).All(isGraph) {
				c.Fail("closure", con, where(ev), "the package is added to another graph", nil)
			}
			if !ev.Arg(2).All(func(t *engine.Term) bool { return t.Op == "param" }) || !ev.Arg(3).All(func(t *engine.Term) bool { return t.Op == "param" }) {
				c.Fail("closure", con, where(ev), "the package is added under other settings or from other repositories", nil)
			}
			for _, t := range ev.Arg(1) {
				t = deref(e.Unprev(t))
				if t.Op != "res" || t.Str != "0" || t.Args[0].Op != "call" || t.Args[0].Str != fnGetPackage {
					c.Fail("closure", con, where(ev), "the package added is not the selected one but "+short(e.S(t)), nil)
					continue
				}
				for _, f := range depFields {
					key := t.Args[0].Args[len(t.Args[0].Args)-1]
					if !key.Contains(func(x *engine.Term) bool { return candidateOf(x) == f }) {
						continue
					}
					if !want(f) {
						c.Fail("closure", con, where(ev), "a package of "+f+" is added that must not be: "+what, nil)
					}
					if d.inGraph {
						c.Fail("closure", con, where(ev), "a package that is in the graph is added again: "+what, nil)
					}
					if f == "Suggests" {
						ev.G.Auto["did:Suggests"] = "1"
					} else {
						ev.G.Auto["did:reqs"] = "1"
					}
				}
			}
		}
		return nil
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	c.Obl("requires", con)
	c.Obl("closure", con)
	for _, x := range xs {
		if x.Kind != "return" {
			c.Fail("closure", con, c.P.InstrPos(x.At), "ends with "+x.Kind, nil)
			continue
		}
		if x.G.Auto["stored"] != "1" {
			c.Fail("requires", con, c.P.InstrPos(x.At), "the package is not recorded: "+what, nil)
		}
		if want("Suggests") && x.G.Auto["all:Suggests"] != "1" {
			c.Fail("closure", con, c.P.InstrPos(x.At), "not all suggested packages are examined: "+what, nil)
		}
	}
	for _, x := range xs {
		if x.G.Auto["all:reqs"] == "1" || x.G.Auto["empty"] == "T" {
			continue
		}
		for _, f := range depFields[:3] {
			if x.G.Auto["had:"+f] == "1" {
				c.Fail("closure", con, c.P.InstrPos(x.At), "not all required packages are examined: "+what, x.G.Path(8))
			}
		}
	}
	if stores == 0 {
		c.Fail("requires", con, "", "no node is stored: "+what, nil)
	}
	if debugC13 {
		fmt.Println(what, len(xs), stores)
	}
}

var debugC13 = false

// vlistArgs lists the elements of a literal list of variadic arguments.
func vlistArgs(t *engine.Term) []*engine.Term {
	t = engine.Strip(t)
	if t.Op == "vlist" || t.Op == "list" {
		return t.Args
	}
	return []*engine.Term{t}
}

// c13layers decides the layering. A set is named after the place it is made
// at; what a difference leaves of a set counts as that set.
func c13layers(c *C) {
	fn := c.Fn(fnLayers)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^gpsr\.|golang-set`)
	e.SymMaps = true
	isSet := func(t *engine.Term) bool { return t.Op == "set" }
	isNodes := func(t *engine.Term) bool {
		t = deref(t)
		return t.Op == "make" && isNamed("map[string]github.com/deckarep/golang-set.Set")(t.Type)
	}
	var none func(t *engine.Term) bool
	none = func(t *engine.Term) bool {
		if t.Op == "alt" {
			for _, a := range t.Args {
				if !none(a) {
					return false
				}
			}
			return true
		}
		return t.Op == "undef" || t.Op == "nil" || t.Op == "zero"
	}
	setOf := func(v engine.Val) string {
		r := ""
		var all []*engine.Term
		for _, t := range v {
			all = append(all, altsOf(e.Unprev(t))...)
		}
		for _, t := range all {
			t = deref(t)
			if none(t) {
				continue
			}
			if !isSet(t) || r != "" && r != t.Str {
				return ""
			}
			r = t.Str
		}
		return r
	}
	excl := &Model{}
	excl.Atom = func(t *engine.Term) (any, bool) { return nil, false }
	isDep := func(t *engine.Term) bool {
		t = deref(e.Unprev(t))
		return t.Op == "elem" && isField(deref(t.Args[0]), "Deps")
	}
	deps, ready := map[string]bool{}, map[string]bool{}
	for _, name := range []string{"dplyr", "MASS", "stats"} {
		for _, noRec := range []bool{false, true} {
			e := c.Eng()
			e.Relevant = rel(`^gpsr\.|golang-set`)
			what := fmt.Sprintf("required package %s, NoRecommended=%v", name, noRec)
			m := &Model{}
			m.Atom = func(t *engine.Term) (any, bool) {
				if isDep(t) {
					return name, true
				}
				if t.Op == "param" && t.Type.String() == "bool" {
					return noRec, true
				}
				return nil, false
			}
			m.Use(e)
			e.KeyIs = func(k *engine.Term) *engine.Term {
				if isDep(k) {
					return e.Str(name)
				}
				return nil
			}
			want := !depCase{name: name, noRec: noRec}.excluded()
			n := 0
			e.Call = func(ev *engine.Ev) []engine.Outcome {
				switch {
				case strings.HasSuffix(ev.Name, "mapset.NewSet") || strings.HasSuffix(ev.Name, "golang-set.NewSet"):
					return []engine.Outcome{{Res: []engine.Val{{e.T("set", ev.Pos(), resType(ev, 0))}}}}
				case strings.HasSuffix(ev.Name, "Set).Add") && len(ev.Args) == 2 && ev.Arg(1).Any(isDep):
					n++
					ev.G.Auto["did:deps"] = "1"
					if !want {
						c.Fail("layers", con, where(ev), "a package that comes with R is waited for: "+what, nil)
					}
					for _, t := range ev.Arg(0) {
						deps[deref(e.Unprev(t)).Str] = true
					}
				}
				return nil
			}
			each := newEach(e)
			each.Track("deps", func(t *engine.Term) bool { return isField(deref(t), "Deps") })
			each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
				if want && g.Auto["did:deps"] != "1" {
					c.Fail("layers", con, at, "a required package is not waited for: "+what, g.Path(6))
				}
			}
			e.Run(fn, e.Start())
			c.Absorb(e)
			c.Obl("layers", con)
			if want && n == 0 {
				c.Fail("layers", con, "", "no required package is waited for: "+what, nil)
			}
		}
	}

	// the rounds
	pass := 0
	fail := func(at, msg string, path []string) {
		if pass > 0 {
			c.Fail("layers", con, at, msg, path)
		}
	}
	loops := map[string]map[string]bool{} // what happens in a loop
	half := map[string]string{}
	rounds, placed, removed, reduced, appended := 0, 0, 0, 0, 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		switch {
		case strings.HasSuffix(ev.Name, "golang-set.NewSet"):
			return []engine.Outcome{{Res: []engine.Val{{e.T("set", ev.Pos(), resType(ev, 0))}}}}
		case strings.HasSuffix(ev.Name, "Set).Add") && len(ev.Args) == 2 && !ev.Arg(1).Any(isDep):
			placed++
			s := setOf(ev.Arg(0))
			ready[s] = true
			if deps[s] || s == "" {
				fail(where(ev), "a package is placed in the set of another's requirements", nil)
			}
			if g.Auto["clear"] != "T" {
				fail(where(ev), "a package is placed without all that it requires having been placed before", g.Path(8))
			}
			g.Auto["did:nodes:placed"] = "1"
		case strings.HasSuffix(ev.Name, "Set).Difference") && len(ev.Args) == 2:
			if ev.Arg(0).All(func(t *engine.Term) bool { return none(deref(t)) }) {
				return []engine.Outcome{{Res: []engine.Val{ev.Arg(0)}}} // no package is left
			}
			s := setOf(ev.Arg(0))
			if !deps[s] || !ready[setOf(ev.Arg(1))] {
				fail(where(ev), "what is taken from the requirements is not what was placed: "+short(e.SV(ev.Arg(1)))+fmt.Sprint(" from ", e.SV(ev.Arg(0)), deps, ready), nil)
			}
			g.Auto["did:nodes:diff"] = "1"
			return []engine.Outcome{{Res: []engine.Val{ev.Arg(0)}}}
		case strings.HasSuffix(ev.Name, "Set).Remove") && len(ev.Args) == 2:
			if deps[setOf(ev.Arg(0))] {
				reduced++
			}
		case ev.Name == "mapstore" && len(ev.Args) == 3 && ev.Arg(0).All(isNodes):
			if g.Auto["did:nodes:diff"] == "1" {
				reduced++
				g.Auto["did:nodes:stored"] = "1"
			}
		case ev.Name == "delete" && len(ev.Args) == 2 && ev.Arg(0).All(isNodes):
			removed++
			g.Auto["del"] = "1"
		case ev.Name == "append" && len(ev.Args) == 2:
			if t := resType(ev, 0); t != nil && t.String() == "[][]string" {
				appended++
				g.Auto["layer"] = "1"
			} else if t != nil && t.String() == "[]string" {
				g.Auto["app"] = "1"
			}
		}
		return nil
	}
	each := newEach(e)
	each.Track("nodes", isNodes)
	each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
		if g.Auto["clear"] == "T" && g.Auto["did:nodes:placed"] != "1" {
			fail(at, "a package whose requirements have been placed is passed over", g.Path(8))
		}
		if g.Auto["did:nodes:diff"] == "1" && g.Auto["did:nodes:stored"] != "1" {
			fail(at, "the reduced requirements are not kept", g.Path(8))
		}
		delete(g.Auto, "clear")
	}
	pb := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		pb(b)
		t, v := e.Canon(b.Term, b.Val)
		if t.Op == "bin" && t.Str == "==" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Str, "Set).Cardinality") {
			if n, ok := t.Args[1].ConstInt(); !ok || n != 0 {
				return
			}
			s := setOf(engine.Val{t.Args[0].Args[0]})
			if none(deref(t.Args[0].Args[0])) { // no package is left
				b.G.Auto["clear"] = map[bool]string{true: "T", false: "F"}[v]
				return
			}
			switch {
			case deps[s] && v:
				b.G.Auto["clear"] = "T"
			case deps[s]:
				b.G.Auto["clear"] = "F"
			case ready[s] && v:
				b.G.Auto["none"] = "T"
			case ready[s]:
				b.G.Auto["none"] = "F"
			}
		}
		if t.Op == "bin" && t.Str == "==" && t.Args[0].Op == "call" && t.Args[0].Str == "len" && isNodes(engine.Strip(t.Args[0].Args[0])) || t.Op == "empty" && isNodes(engine.Strip(t.Args[0])) {
			if v {
				b.G.Auto["left"] = "none"
			} else {
				b.G.Auto["left"] = "some"
				b.G.Auto["round"] = e.LoopID(b.If.Block())
				delete(b.G.Auto, "none")
				delete(b.G.Auto, "layer")
				rounds++
			}
		}
	}
	pk := e.BackEdge
	e.BackEdge = func(f *ssa.Function, h *ssa.BasicBlock, g *engine.G) {
		pk(f, h, g)
		id := e.BlockID(h)
		d, a := g.Auto["del"], g.Auto["app"]
		if loops[id] == nil {
			loops[id] = map[string]bool{}
		}
		if g.Auto["round"] != id {
			if d != "" && a != "" {
				loops[id]["both"] = true
			} else if d != "" || a != "" {
				half[id] = c.P.FnName(f)
			}
			delete(g.Auto, "del")
			delete(g.Auto, "app")
			return
		}
		if g.Auto["none"] != "F" {
			fail(c.P.FnName(f), "another round is made although nothing could be placed", g.Path(8))
		}
		if g.Auto["layer"] != "1" {
			fail(c.P.FnName(f), "a round ends without its layer having been kept", g.Path(8))
		}
	}
	var xs []*engine.Exit
	for ; pass < 2; pass++ { // the sets are known in the second pass
		xs = e.Run(fn, e.Start())
	}
	c.Absorb(e)
	for id, at := range half {
		if loops[id]["both"] {
			fail(at, "a package is placed without being removed, or removed without being placed", nil)
		}
	}
	for _, x := range xs {
		if x.Kind != "return" || len(x.Res) != 2 {
			continue
		}
		if e.IsNil(x.G, x.Res[1]) {
			if x.G.Auto["left"] != "none" {
				fail(c.P.InstrPos(x.At), "reported as layered although packages are left", x.G.Path(8))
			}
		} else if !e.IsNonNil(x.G, x.Res[1]) {
			fail(c.P.InstrPos(x.At), "undecided error", nil)
		}
	}
	c.Min("layers", len(deps), 1, "sets of requirements")
	c.Min("layers", placed, 1, "places where a package is placed")
	c.Min("layers", removed, 1, "places where a package is removed")
	c.Min("layers", reduced, 1, "places where requirements are reduced")
	c.Min("layers", appended, 1, "places where a layer is kept")
	c.Min("layers", rounds, 1, "rounds")
}

func c13resolve(c *C) {
	fn := c.Fn(fnResolve)
	con := c.P.FnName(fn)
	for _, noRec := range []bool{false, true} {
		e := c.Eng()
		e.Relevant = rel(`^gpsr\.`)
		for _, n := range []string{fnAppend, fnLayers, fnGetPackage, "pacman.GetOutdatedPackages", "(*cran.PkgNexus).GetPackages", fnPack} {
			e.Opaque[n] = true
		}
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if t.Op == "param" && hasSuffix(strings.ToLower(t.Str), "norecommended") {
				return noRec, true
			}
			return nil, false
		}
		m.Use(e)
		isPkgs := func(t *engine.Term) bool { return t.Op == "param" && t.Type.String() == "[]string" }
		selected := func(t *engine.Term, key func(*engine.Term) bool, n string) bool {
			t = deref(e.Unprev(t))
			return t.Op == "res" && t.Str == n && t.Args[0].Op == "call" && t.Args[0].Str == fnGetPackage && key(e.Unprev(t.Args[0].Args[len(t.Args[0].Args)-1]))
		}
		// graphs by what they hold
		rootG, ownG := map[*engine.Term]bool{}, map[*engine.Term]bool{}
		graphOf := func(v engine.Val) *engine.Term {
			if len(v) != 1 {
				return nil
			}
			return deref(e.Unprev(v[0]))
		}
		layersOf := func(t *engine.Term) string { // the collection of layers: "root", "own"
			t = e.Unprev(engine.Strip(t))
			if t.Op != "res" || t.Str != "0" || t.Args[0].Op != "call" || t.Args[0].Str != fnLayers {
				return ""
			}
			switch g := deref(t.Args[0].Args[0]); {
			case ownG[g]:
				return "own"
			case rootG[g]:
				return "root"
			}
			return ""
		}
		sub := func(t *engine.Term) (string, bool) { // also without its first layer
			t = engine.Strip(t)
			if t.Op == "slice" && len(t.Args) > 1 {
				if n, ok := t.Args[1].ConstInt(); ok && n == 1 {
					return layersOf(t.Args[0]), true
				}
			}
			return layersOf(t), false
		}
		layerIn := func(t *engine.Term, kind string) bool {
			t = e.Unprev(engine.Strip(t))
			if t.Op != "elem" {
				return false
			}
			k, _ := sub(t.Args[0])
			return k == kind
		}
		isP := func(t *engine.Term) bool { // an element of a layer of the whole graph
			t = e.Unprev(engine.Strip(t))
			return t.Op == "elem" && layerIn(t.Args[0], "root")
		}
		isQ := func(t *engine.Term) bool {
			t = e.Unprev(engine.Strip(t))
			return t.Op == "elem" && layerIn(t.Args[0], "own")
		}
		first := func(t *engine.Term, kind string) bool {
			t = e.Unprev(engine.Strip(t))
			if t.Op != "index" && t.Op != "elem" {
				return false
			}
			if len(t.Args) < 2 {
				return false
			}
			n, ok := t.Args[1].ConstInt()
			return ok && n == 0 && layersOf(t.Args[0]) == kind
		}
		pass := 0
		nroot, nown, nstore, npack := 0, 0, 0, 0
		fail := func(rule, at, msg string, path []string) {
			if pass > 0 {
				c.Fail(rule, con, at, msg, path)
			}
		}
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			g := ev.G
			switch ev.Name {
			case fnAppend:
				if len(ev.Args) != 4 {
					fail("roots", where(ev), "the graph is made in another way", nil)
					return nil
				}
				gr := graphOf(ev.Arg(0))
				switch {
				case ev.Arg(1).All(func(t *engine.Term) bool {
					return selected(t, func(k *engine.Term) bool { return k.Op == "elem" && isPkgs(deref(k.Args[0])) }, "0")
				}):
					nroot++
					rootG[gr] = true
					g.Auto["did:pkgs"] = "1"
					if !ev.Arg(2).All(func(t *engine.Term) bool { return engine.Strip(t).Op == "param" }) {
						fail("roots", where(ev), "the requested packages are added under other settings than those of the run", nil)
					}
				case ev.Arg(1).All(func(t *engine.Term) bool { return selected(t, isP, "0") }):
					nown++
					ownG[gr] = true
					def := e.FieldOf(g, ev.Arg(2), "Default")
					for _, f := range []string{"Depends", "Imports", "LinkingTo"} {
						if v, ok := m.EvalVal(e.FieldOf(g, def, f)); !ok || v != true {
							fail("dep-list", where(ev), f+" is not part of the dependency list", nil)
						}
					}
					if v, ok := m.EvalVal(e.FieldOf(g, def, "Suggests")); !ok || v != false {
						fail("dep-list", where(ev), "suggested packages are part of the dependency list: packages that suggest each other would wait for each other", nil)
					}
					if v, ok := m.EvalVal(e.FieldOf(g, def, "NoRecommended")); !ok || v != noRec {
						fail("dep-list", where(ev), fmt.Sprintf("the dependency list is made with NoRecommended=%v in a run with NoRecommended=%v", v, noRec), nil)
					}
				default:
					fail("roots", where(ev), "something else than a selected package is added: "+short(e.SV(ev.Arg(1))), nil)
				}
			case fnLayers:
				if v, ok := m.EvalVal(ev.Arg(1)); !ok || v != noRec {
					fail("roots", where(ev), "the layering ignores whether recommended packages count", nil)
				}
			case "append":
				if t := resType(ev, 0); t == nil || t.String() != "[]string" || len(ev.Args) < 2 {
					return nil
				}
				for _, t := range ev.Arg(1) {
					t = e.Unprev(engine.Strip(t))
					if layerIn(t, "own") {
						g.Auto["did:own"] = "1"
						if g.Auto["last"] != "F" {
							fail("dep-list", where(ev), "the whole of a layer that may hold the package itself is taken: it would wait for itself", g.Path(8))
						}
					}
					for _, x := range vlistArgs(t) {
						if isQ(x) {
							g.Auto["did:ownlayer"] = "1"
							if g.Auto["self"] != "F" {
								fail("dep-list", where(ev), "the package may be taken into its own dependency list", g.Path(8))
							}
						}
					}
				}
			case "mapstore":
				if len(ev.Args) != 3 {
					return nil
				}
				if ev.Arg(0).All(func(t *engine.Term) bool { return isField(t, "Deps") }) {
					if v, ok := m.EvalVal(e.FieldOf(g, ev.Arg(2), "NoRecommended")); ok && v == noRec {
						g.Auto["did:configs"] = "1"
					}
					return nil
				}
				if !ev.Arg(1).All(isP) {
					return nil
				}
				nstore++
				g.Auto["did:layer"] = "1"
				if g.Auto["all:own"] != "1" {
					fail("dep-list", where(ev), "the dependency list is kept before all layers have been visited", g.Path(8))
				}
				if g.Auto["skipped"] == "1" && !ev.Arg(2).All(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { return first(x, "own") })
				}) {
					fail("dep-list", where(ev), "the dependency list lacks the first layer: "+short(e.SV(ev.Arg(2))), nil)
				}
				if !ev.Arg(2).Any(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { return layerIn(x, "own") })
				}) {
					g.Auto["short"] = "1"
				}
			case fnPack:
				npack++
				g.Auto["packed"] = "1"
			}
			return nil
		}
		each := newEach(e)
		each.Track("pkgs", func(t *engine.Term) bool { return isPkgs(deref(t)) })
		each.Track("configs", func(t *engine.Term) bool {
			return isField(t, "Deps") && engine.Strip(engine.Strip(t).Args[0]).Op == "param"
		})
		each.Track("root", func(t *engine.Term) bool { k, _ := sub(t); return k == "root" })
		each.Track("layer", func(t *engine.Term) bool { return layerIn(t, "root") })
		each.Track("own", func(t *engine.Term) bool { k, _ := sub(t); return k == "own" })
		each.Track("ownlayer", func(t *engine.Term) bool { return layerIn(t, "own") })
		each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
			switch key {
			case "pkgs":
				if g.Auto["did:pkgs"] != "1" {
					fail("roots", at, "a requested package is not added", g.Path(8))
				}
			case "configs":
				if g.Auto["did:configs"] != "1" {
					fail("roots", at, "the settings of a package do not say whether recommended packages count", g.Path(8))
				}
			case "root":
				if g.Auto["rfirst"] != "T" && g.Auto["all:layer"] != "1" {
					fail("plan", at, "a layer is not visited in full", g.Path(8))
				}
				delete(g.Auto, "rfirst")
				delete(g.Auto, "all:layer")
			case "layer":
				if g.Auto["did:layer"] != "1" {
					fail("plan", at, "a package of a later layer has no dependency list, so is not part of the plan", g.Path(8))
				}
				for _, k := range []string{"all:own", "ofirst", "last", "self", "all:ownlayer", "skipped", "short"} {
					delete(g.Auto, k)
				}
			case "own":
				if g.Auto["ofirst"] == "T" {
					g.Auto["skipped"] = "1"
				} else if g.Auto["did:own"] != "1" && g.Auto["all:ownlayer"] != "1" {
					fail("dep-list", at, "a layer of the package's own graph is left out", g.Path(8))
				}
				delete(g.Auto, "ofirst")
				delete(g.Auto, "last")
				delete(g.Auto, "all:ownlayer")
			case "ownlayer":
				if g.Auto["did:ownlayer"] != "1" && g.Auto["self"] != "T" {
					fail("dep-list", at, "a package is left out of the dependency list", g.Path(8))
				}
				delete(g.Auto, "self")
			}
		}
		pb := e.Branch
		e.Branch = func(b *engine.BranchEv) {
			pb(b)
			t, v := b.Term, b.Val
			for t.Op == "un" && t.Str == "!" {
				t, v = t.Args[0], !v
			}
			if t.Op != "bin" || len(t.Args) != 2 {
				return
			}
			x, y := engine.Strip(t.Args[0]), engine.Strip(t.Args[1])
			tf := map[bool]string{true: "T", false: "F"}
			hasIv := func(t *engine.Term) bool { return t.Contains(func(x *engine.Term) bool { return x.Op == "iv" }) }
			ofLen := func(t *engine.Term) bool {
				return t.Contains(func(x *engine.Term) bool { return x.Op == "call" && x.Str == "len" && layersOf(x.Args[0]) == "own" })
			}
			set := func(k string, v bool) { b.G.Auto[k] = tf[v] }
			inner := "rfirst"
			if b.G.Auto["in:own"] != "" {
				inner = "ofirst"
			}
			switch {
			case t.Str == "==" && (isP(x) && isQ(y) || isP(y) && isQ(x)):
				set("self", v)
			case t.Str == "==" && hasIv(x) && y.IsConst():
				if n, ok := y.ConstInt(); ok && n == 0 {
					set(inner, v)
				}
			case t.Str == "<" && x.IsConst() && hasIv(y):
				if n, ok := x.ConstInt(); ok && n == 0 {
					set(inner, !v)
				}
			case t.Str == "==" && (hasIv(x) && ofLen(y) || hasIv(y) && ofLen(x)):
				if hasIv(y) {
					x, y = y, x
				}
				if plus(x)-plus(y) == 1 {
					set("last", v)
				}
			case t.Str == "<" && hasIv(x) && ofLen(y) && plus(x)-plus(y) == 1:
				set("last", !v)
			}
		}
		var xs []*engine.Exit
		for pass = 0; pass < 3; pass++ {
			xs = e.Run(fn, e.Start())
		}
		pass = 3
		c.Absorb(e)
		for _, r := range []string{"roots", "dep-list", "plan"} {
			c.Obl(r, con)
		}
		for _, x := range xs {
			if x.Kind != "return" || len(x.Res) != 2 {
				fail("plan", c.P.InstrPos(x.At), "ends with "+x.Kind, nil)
				continue
			}
			if !e.IsNil(x.G, x.Res[1]) {
				continue
			}
			at := c.P.InstrPos(x.At)
			for k, why := range map[string]string{"all:pkgs": "not all requested packages have been added", "all:configs": "the settings do not say whether recommended packages count", "all:root": "not all layers have been visited", "packed": "the plan has no downloads"} {
				if x.G.Auto[k] != "1" {
					fail("plan", at, why, x.G.Path(8))
				}
			}
			if factKnown(x.G, false, func(t *engine.Term) bool {
				return t.Op == "bin" && t.Str == "==" && t.Args[1].Op == "nil" && engine.Strip(t.Args[0]).Op == "res" && strings.Contains(e.S(t), "ResolveLayers")
			}) {
				fail("plan", at, "a graph that cannot be layered gives a plan", x.G.Path(8))
			}
			sp := e.FieldOf(x.G, x.Res[0], "StartingPackages")
			some := false
			for _, t := range sp {
				u := engine.Strip(t)
				for _, a := range altsOf(u) {
					if first(a, "root") {
						some = true
					} else if a.Op != "nil" {
						fail("plan", at, "the starting packages are "+short(e.S(a)), nil)
					}
				}
			}
			if !some {
				fail("plan", at, "the first layer is not part of the plan", nil)
			}
		}
		c.Min("roots", nroot, 1, "requested packages added")
		c.Min("dep-list", nown, 1, "own graphs")
		c.Min("plan", nstore, 1, "dependency lists kept")
		c.Min("plan", npack, 1, "plans packed")
	}
}

// plus is the constant that t adds to a quantity.
func plus(t *engine.Term) int64 {
	t = engine.Strip(t)
	if t.Op == "bin" && len(t.Args) == 2 && (t.Str == "+" || t.Str == "-") {
		if n, ok := t.Args[1].ConstInt(); ok {
			if t.Str == "-" {
				n = -n
			}
			return n + plus(t.Args[0])
		}
		if n, ok := t.Args[0].ConstInt(); ok && t.Str == "+" {
			return n + plus(t.Args[1])
		}
	}
	return 0
}

// altsOf lists the alternatives of a term.
func altsOf(t *engine.Term) []*engine.Term {
	t = engine.Strip(t)
	if t.Op != "alt" {
		return []*engine.Term{t}
	}
	var out []*engine.Term
	for _, a := range t.Args {
		out = append(out, altsOf(a)...)
	}
	return out
}

func c13pack(c *C) {
	fn := c.Fn(fnPack)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^gpsr\.`)
	e.Opaque[fnGetPackage] = true
	src := map[string]func(*engine.Term) bool{
		"StartingPackages": func(t *engine.Term) bool { return isField(deref(t), "StartingPackages") },
		"DepDb":            func(t *engine.Term) bool { return isField(deref(t), "DepDb") },
	}
	// from gives the sources a package name can come from; nil when it can
	// also come from elsewhere
	var from func(t *engine.Term) map[string]bool
	from = func(t *engine.Term) map[string]bool {
		t = deref(e.Unprev(t))
		if t.Op == "alt" || t.Op == "prev" {
			all := map[string]bool{}
			for _, a := range t.Args {
				r := from(a)
				if r == nil {
					return nil
				}
				for k := range r {
					all[k] = true
				}
			}
			return all
		}
		if t.Op != "elem" && t.Op != "key" {
			return nil
		}
		for k, f := range src {
			if f(t.Args[0]) {
				return map[string]bool{k: true}
			}
		}
		return nil
	}
	// spreads: the list of names starts from all of source k
	spreads := func(coll *engine.Term, k string) bool {
		return coll.Contains(func(t *engine.Term) bool { return t.Op == "spread" && src[k](t.Args[0]) })
	}
	isNames := func(coll *engine.Term) bool {
		if coll.Op != "list" && coll.Op != "vlist" {
			return false
		}
		for k := range src {
			if spreads(coll, k) {
				return true
			}
		}
		for _, a := range coll.Args {
			if from(a) != nil {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != "append" || len(ev.Args) != 2 {
			return nil
		}
		for _, t := range ev.Arg(1) {
			for _, x := range vlistArgs(t) {
				if sl, ok := x.Type.(*types.Slice); x.Type != nil && (isString(x.Type) || ok && isString(sl.Elem())) {
					// a name put on a list of names: the loop over that list
					// is what has to download it
					for k := range from(x) {
						ev.G.Auto["did:"+k] = "1"
					}
					continue
				}
				part := func(f, n string) map[string]bool {
					r := map[string]bool{}
					for _, v := range e.FieldOf(ev.G, engine.Val{x}, f) {
						v = deref(e.Unprev(v))
						if v.Op != "res" || v.Str != n || v.Args[0].Op != "call" || v.Args[0].Str != fnGetPackage {
							return nil
						}
						for k := range from(v.Args[0].Args[len(v.Args[0].Args)-1]) {
							r[k] = true
						}
					}
					return r
				}
				a, b := part("Package", "0"), part("Config", "1")
				if len(a) == 0 || !reflect.DeepEqual(a, b) {
					c.Fail("pack", con, where(ev), "a download is not what the selection gives for a package of the plan: "+short(e.S(x)), nil)
					continue
				}
				ev.G.Auto["did:names"] = "1"
				for k := range a {
					seen[k] = true
					ev.G.Auto["did:"+k] = "1"
				}
			}
		}
		return nil
	}
	each := newEach(e)
	for k, f := range src {
		each.Track(k, f)
		each.Track("spread:"+k, func(coll *engine.Term) bool { return spreads(coll, k) })
	}
	each.Track("names", isNames)
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		if !strings.HasPrefix(key, "spread:") && g.Auto["did:"+key] != "1" {
			c.Fail("pack", con, at, "a package of "+key+" is not downloaded", g.Path(6))
		}
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		var dl engine.Val
		for a, v := range x.G.Mem {
			if strings.HasSuffix(e.S(a), "PackageDownloads") {
				dl = v
			}
		}
		if x.G.Auto["in:names"] != "" {
			c.Fail("pack", con, c.P.InstrPos(x.At), "not all packages on the list of names are downloaded", x.G.Path(6))
		}
		for k := range src {
			if x.G.Auto["all:"+k] != "1" && x.G.Auto["all:spread:"+k] != "1" {
				c.Fail("pack", con, c.P.InstrPos(x.At), "not all of "+k+" is visited", x.G.Path(6))
			}
			if dl.Any(func(t *engine.Term) bool {
				return t.Contains(func(x *engine.Term) bool { return x.Op != "alt" && x.Op != "prev" && from(x)[k] })
			}) {
				seen["kept:"+k] = true
			}
		}
	}
	c.Absorb(e)
	c.Obl("pack", con)
	for k := range src {
		c.Need(seen[k] && seen["kept:"+k], "pack", con, "", "the packages of "+k+" are not among the downloads of the plan")
	}
}

func c13combine(c *C) {
	fn := c.Fn(fnCombine)
	con := c.P.FnName(fn)
	n := 0
	for _, name := range []string{"dplyr", "R"} {
		for _, sug := range []bool{false, true} {
			e := c.Eng()
			e.Relevant = rel(`^desc\.`)
			m := &Model{}
			m.Atom = func(t *engine.Term) (any, bool) {
				if candidateOf(t) != "" {
					return name, true
				}
				if t.Op == "param" && t.Type.String() == "bool" {
					return sug, true
				}
				return nil, false
			}
			m.Use(e)
			what := fmt.Sprintf("dependency %s, suggests=%v", name, sug)
			e.Call = func(ev *engine.Ev) []engine.Outcome {
				if ev.Name == "mapstore" && len(ev.Args) == 3 {
					for _, t := range ev.Arg(1) {
						f := candidateOf(t)
						if f == "" || !ev.Arg(2).All(func(v *engine.Term) bool {
							v = deref(e.Unprev(v))
							return v.Op == "val" && isField(deref(v.Args[0]), f)
						}) {
							c.Fail("expand", con, where(ev), "an entry is kept under another name: "+short(e.S(t))+" holds "+short(e.SV(ev.Arg(2))), nil)
							continue
						}
						if f == "Suggests" && !sug {
							c.Fail("expand", con, where(ev), "suggested packages are taken for required ones: "+what, nil)
						}
						if name == "R" {
							c.Fail("expand", con, where(ev), "R is taken for a package", nil)
						}
						ev.G.Auto["did:"+f] = "1"
						n++
					}
				}
				return nil
			}
			each := newEach(e)
			for _, f := range depFields {
				f := f
				each.Track(f, func(t *engine.Term) bool { return isField(deref(t), f) })
			}
			each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
				if g.Auto["did:"+key] != "1" && name != "R" && (key != "Suggests" || sug) {
					c.Fail("expand", con, at, "a package of "+key+" is left out: "+what, g.Path(6))
				}
			}
			if name == "R" { // only Depends may name R
				a := e.Assume
				e.Assume = func(t *engine.Term) (bool, bool) {
					if t.Op == "more" {
						for _, f := range depFields[1:] {
							if r := t.Args[0]; r.Op == "range" && isField(deref(r.Args[0]), f) {
								return false, true
							}
						}
					}
					return a(t)
				}
			}
			for _, x := range e.Run(fn, e.Start()) {
				if x.Kind != "return" {
					continue
				}
				for _, f := range depFields {
					if (f != "Suggests" || sug) && x.G.Auto["all:"+f] != "1" {
						c.Fail("expand", con, c.P.InstrPos(x.At), "not all of "+f+" is visited: "+what, x.G.Path(6))
					}
				}
				if !x.Res[0].All(func(t *engine.Term) bool { return deref(t).Op == "make" }) {
					c.Fail("expand", con, c.P.InstrPos(x.At), "the result is not what was collected", nil)
				}
			}
			c.Absorb(e)
			c.Obl("expand", con)
		}
	}
	c.Min("expand", n, 4, "fields combined")
	c13expand(c)
}

// c13expand decides that the planning requests what tarballs and DESCRIPTION
// files depend on.
func c13expand(c *C) {
	fn := c.Fn(fnPlanning)
	con := c.P.FnName(fn)
	for _, ignored := range []bool{false, true} {
		for _, name := range []string{"dplyr", "MASS"} {
			for _, noRec := range []bool{false, true} {
				e := c.Eng()
				e.MaxParts = 100
				e.Relevant = rel(`GetCombinedDependencies$|^gpsr\.ResolveInstallationReqs$`)
				opaqueBut(e, c, "cmd.")
				for _, n := range []string{"cmd.unpackTarballs", "cmd.unpackDescriptions", "cmd.removeBasePackages"} {
					e.Opaque[n] = true
				}
				skip := ignored || noRec && name == "MASS"
				what := fmt.Sprintf("dependency %s, ignored=%v, NoRecommended=%v", name, ignored, noRec)
				// the dependencies of what
				kind := func(t *engine.Term) string {
					t = deref(e.Unprev(t))
					if t.Op == "deps" {
						return t.Str
					}
					return ""
				}
				isName := func(t *engine.Term) string {
					t = deref(e.Unprev(t))
					if t.Op == "key" {
						return kind(t.Args[0])
					}
					if t.Op == "field" && t.Str == "Name" {
						b := deref(t.Args[0])
						if b.Op == "val" || b.Op == "elem" {
							return kind(b.Args[0])
						}
					}
					return ""
				}
				m := &Model{}
				m.Atom = func(t *engine.Term) (any, bool) {
					if isName(t) != "" {
						return name, true
					}
					if isField(t, "NoRecommended") {
						return noRec, true
					}
					if isMember(t, func(x *engine.Term) bool { return isField(deref(x), "IgnorePackages") }) {
						return ignored, true
					}
					if t.Op == "bin" && t.Str == "==" {
						x, y := deref(t.Args[0]), deref(t.Args[1])
						if isName(y) != "" {
							x, y = y, x
						}
						if isName(x) != "" && y.Op == "elem" && isField(deref(y.Args[0]), "IgnorePackages") {
							return ignored, true
						}
					}
					return nil, false
				}
				m.Use(e)
				e.KeyIs = func(k *engine.Term) *engine.Term {
					if isName(k) != "" {
						return e.Str(name)
					}
					return nil
				}
				got := map[string]bool{}
				watch(e, func(t *engine.Term) string {
					if isMember(t, func(x *engine.Term) bool {
						return isField(deref(x), "Packages") || x.Contains(func(y *engine.Term) bool { return isField(y, "Packages") })
					}) {
						return "listed"
					}
					return ""
				})
				e.Call = func(ev *engine.Ev) []engine.Outcome {
					switch ev.Name {
					case fnCombine:
						v, ok := e.IsTrue(ev.G, ev.Arg(1)), e.IsTrue(ev.G, ev.Arg(1)) || e.IsFalse(ev.G, ev.Arg(1))
						k := ""
						for _, t := range e.Load(ev.G, ev.Arg(0)) {
							if t.Contains(func(x *engine.Term) bool { return x.Op == "call" && hasSuffix(x.Str, "unpackDescriptions") }) {
								k = "description"
							} else if t.Contains(func(x *engine.Term) bool { return x.Op == "call" && hasSuffix(x.Str, "unpackTarballs") }) {
								k = "tarball"
							}
						}
						if k == "" {
							c.Fail("expand", con, where(ev), "the dependencies of something else are taken: "+short(e.SV(e.Load(ev.G, ev.Arg(0)))), nil)
						}
						if !ok || v != (k == "description") {
							c.Fail("expand", con, where(ev), "the Suggests of a "+k+" are not treated as documented", nil)
						}
						got["dep "+k] = true
						return []engine.Outcome{{Res: []engine.Val{{e.T("deps", k, resType(ev, 0))}}}}
					case "append":
						for _, t := range ev.Arg(1) {
							for _, x := range vlistArgs(t) {
								if k := isName(x); k != "" {
									got["add "+k] = true
									ev.G.Auto["did:"+k] = "1"
									if skip && !(ignored && ev.G.Auto["none equal"] == "1") {
										c.Fail("expand", con, where(ev), "a package that is to be left out is requested: "+what, nil)
									}
								}
							}
						}
					case fnResolve:
						got["resolve"] = true
						ok := ev.Arg(0).All(func(t *engine.Term) bool {
							return t.Contains(func(x *engine.Term) bool { return isField(x, "Packages") })
						})
						if !ok {
							c.Fail("expand", con, where(ev), "the packages resolved are not those requested: "+short(e.SV(ev.Arg(0))), nil)
						}
						return []engine.Outcome{{Exit: "none"}}
					}
					return nil
				}
				each := newEach(e)
				for _, k := range []string{"tarball", "description"} {
					k := k
					each.Track(k, func(t *engine.Term) bool { return kind(t) == k })
				}
				pb := e.Branch
				e.Branch = func(b *engine.BranchEv) {
					pb(b)
					t, v := b.Term, b.Val
					for t.Op == "un" && t.Str == "!" {
						t, v = t.Args[0], !v
					}
					if t.Op == "bin" && t.Str == "==" && v {
						x, y := deref(t.Args[0]), deref(t.Args[1])
						if isName(y) != "" {
							x, y = y, x
						}
						if isName(x) != "" && y.Op == "elem" && y.Args[0].Contains(func(z *engine.Term) bool { return isField(z, "Packages") }) {
							b.G.Auto["listed"] = "T"
						}
					}
					if coll := collOf(e, t); coll != nil {
						if kind(coll) != "" {
							delete(b.G.Auto, "none equal")
						} else if isField(deref(coll), "IgnorePackages") && !v {
							// all have been compared and none was equal: not this case
							b.G.Auto["none equal"] = "1"
						}
					}
				}
				each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
					if g.Auto["did:"+key] != "1" && g.Auto["listed"] != "T" && !skip {
						c.Fail("expand", con, at, "a package that a "+key+" depends on is not requested: "+what, g.Path(6))
					}
					delete(g.Auto, "listed")
				}
				e.Run(fn, e.Start())
				c.Absorb(e)
				c.Obl("expand", con)
				for _, k := range []string{"dep tarball", "dep description", "add tarball", "add description", "resolve"} {
					if !got[k] && !(skip && strings.HasPrefix(k, "add")) {
						c.Fail("expand", con, "", "not found: "+k+" ("+what+")", nil)
					}
				}
			}
		}
	}
}
