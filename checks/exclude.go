package checks

import (
	"fmt"
	"go/types"
	"slices"

	"verif/engine"
)

func init() {
	register("C12", "Abstract interpretation of the planning function: every package to be ignored leaves every list of every repository before anything is selected; base packages leave the request (decided by name); the setting for recommended packages reaches every place that applies it.", c12)
}

const (
	fnRemoveBase = "cmd.removeBasePackages"
	fnPkgs       = "(*cran.PkgNexus).GetPackages"
	fnSetCustom  = "configlib.SetPlanCustomizations"
)

func c12(c *C) {
	c.Rule("ignored", "before anything is selected, every package to be ignored is taken out of the source and the binary list of every repository")
	c.Rule("base", "the packages selected and planned are those requested without the base packages of R, and only without those")
	c.Rule("recommended", "the setting for recommended packages is in force for the graph, for its layers and for packages with settings of their own")
	c12plan(c)
	c12base(c)
	c12deps(c)
}

// planEng interprets the planning function down to the resolution.
func planEng(c *C) *engine.Eng {
	e := c.Eng()
	e.MaxParts = 100
	e.Relevant = rel(`^cmd\.|^delete$|^gpsr\.ResolveInstallationReqs$`)
	opaqueBut(e, c, "cmd.")
	for f := range c.P.Reaching(rel(`^delete$`)) {
		delete(e.Opaque, c.P.FnName(f))
	}
	for _, n := range []string{"cmd.unpackTarballs", "cmd.unpackDescriptions", fnRemoveBase, "cmd.logAdditionalPackageOrigins", "cmd.logUserPackageRepos", "cmd.logDependencyRepos"} {
		e.Opaque[n] = true
	}
	return e
}

func c12plan(c *C) {
	fn := c.Fn(fnPlanning)
	con := c.P.FnName(fn)
	e := planEng(c)
	// two repositories, each with both lists, and two packages to be ignored:
	// every removal is told apart
	e.UnrollFew = true
	isIgn := func(t *engine.Term) bool {
		return isField(t, "IgnorePackages") || t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Str == "IgnorePackages"
	}
	var dbs []*engine.Term
	ignored := []string{"ignored1", "ignored2"}
	e.Known = func(t *engine.Term) *engine.Term {
		et := types.Type(nil)
		if t.Type != nil {
			if sl, ok := t.Type.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		switch {
		case et == nil:
		case isIgn(t):
			return e.T("vlist", "", t.Type, e.Str(ignored[0]), e.Str(ignored[1]))
		case isField(t, "Db") || t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Str == "Db":
			if dbs == nil {
				dbs = []*engine.Term{e.Sym("database1", et), e.Sym("database2", et)}
			}
			return e.T("vlist", "", t.Type, dbs...)
		}
		return nil
	}
	dbOf := func(t *engine.Term) string {
		for i, d := range dbs {
			if t.ContainsTerm(d) {
				return fmt.Sprint(i + 1)
			}
		}
		return ""
	}
	// list tells which list of which database the map is
	list := func(t *engine.Term) (string, string) {
		t = deref(e.Unprev(t))
		db := dbOf(t)
		if t.Op == "val" && isField(deref(t.Args[0]), "DescriptionsBySourceType") {
			return db, "every"
		}
		m, k := lookupOf(t)
		if m == nil || !isField(m, "DescriptionsBySourceType") {
			return "", ""
		}
		k = engine.Strip(e.Unprev(k))
		if k.Op == "key" && isField(deref(k.Args[0]), "DescriptionsBySourceType") {
			return db, "every"
		}
		switch i, ok := k.ConstInt(); {
		case ok && i == 1:
			return db, "source"
		case ok && i == 2:
			return db, "binary"
		}
		return "", ""
	}
	// a loop over the lists of one repository: what every iteration removes
	each := newEach(e)
	each.Track("types", func(t *engine.Term) bool { return isField(deref(t), "DescriptionsBySourceType") })
	each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
		for _, d := range []string{"1", "2"} {
			for _, p := range ignored {
				k := d + ":" + p
				if g.Auto["del:"+k+":every"] != "1" {
					g.Auto["not:"+k] = "1"
				} else {
					g.Auto["did:"+k] = "1"
				}
				delete(g.Auto, "del:"+k+":every")
			}
		}
	}
	pb := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		pb(b)
		g := b.G
		if g.Auto["all:types"] != "1" {
			return
		}
		delete(g.Auto, "all:types")
		coll := collOf(e, b.Term)
		for _, d := range []string{"1", "2"} {
			for _, p := range ignored {
				k := d + ":" + p
				if g.Auto["did:"+k] == "" && g.Auto["not:"+k] == "" && coll != nil && dbOf(coll) == d {
					// the repository has no list
					g.Auto["del:"+k+":source"], g.Auto["del:"+k+":binary"] = "1", "1"
				}
				if g.Auto["did:"+k] == "1" && g.Auto["not:"+k] == "" {
					g.Auto["del:"+k+":source"], g.Auto["del:"+k+":binary"] = "1", "1"
				}
				delete(g.Auto, "did:"+k)
				delete(g.Auto, "not:"+k)
			}
		}
	}
	missing := func(g *engine.G) string {
		for _, d := range []string{"1", "2"} {
			for _, p := range ignored {
				for _, l := range []string{"source", "binary"} {
					if g.Auto["del:"+d+":"+p+":"+l] != "1" {
						return fmt.Sprintf("the %s list of repository %s of 2 still has the package %s", l, d, p)
					}
				}
			}
		}
		return ""
	}
	n, dels := 0, 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnNewDb:
			return symRes(ev, "nexus", "error")
		case "delete":
			for _, t := range ev.Arg(0) {
				d, l := list(t)
				if len(ev.Arg(0)) > 1 || d == "" || l == "" {
					continue
				}
				dels++
				for _, k := range ev.Arg(1) {
					p, ok := engine.Strip(e.Unprev(k)).ConstString()
					if !ok || !slices.Contains(ignored, p) {
						c.Fail("ignored", con, where(ev), "a package is taken out that is not to be ignored: "+short(e.SV(ev.Arg(1))), nil)
					} else if len(ev.Arg(1)) == 1 {
						ev.G.Auto["del:"+d+":"+p+":"+l] = "1"
					}
				}
			}
		case fnPkgs, fnGetPackage, fnResolve, "(*cran.PkgNexus).GetAllPkgsByName":
			n++
			c.Obl("ignored", con)
			g := ev.G
			if m := missing(g); m != "" {
				c.Fail("ignored", con, where(ev), "packages are selected although "+m, g.Path(10))
			}
			if ev.Name == fnPkgs || ev.Name == fnResolve {
				i := 0
				if ev.Name == fnPkgs {
					i = 1
				}
				c.Obl("base", con)
				if !ev.Arg(i).All(func(t *engine.Term) bool {
					t = deref(e.Unprev(t))
					return t.Op == "call" && t.Str == fnRemoveBase && t.Args[0].Contains(func(x *engine.Term) bool { return isField(x, "Packages") })
				}) {
					c.Fail("base", con, where(ev), "the packages of "+ev.Name+" are not those requested without the base packages: "+short(e.SV(ev.Arg(i))), ev.G.Path(6))
				}
			}
			if ev.Name == fnResolve {
				c.Obl("recommended", con)
				cfg := func(v engine.Val) bool {
					return v.All(func(t *engine.Term) bool {
						t = deref(e.Unprev(t))
						return isField(t, "NoRecommended") && !isField(deref(t.Args[0]), "Default")
					})
				}
				d := e.FieldOf(ev.G, ev.Arg(2), "Default.NoRecommended")
				if !cfg(d) {
					c.Fail("recommended", con, where(ev), "the default settings for dependencies have NoRecommended = "+short(e.SV(d)), nil)
				}
				last := ev.Arg(len(ev.Args) - 1)
				if !cfg(last) {
					c.Fail("recommended", con, where(ev), "the resolution has NoRecommended = "+short(e.SV(last)), nil)
				}
				return []engine.Outcome{{Exit: "none"}}
			}
		case fnSetCustom:
			d := e.FieldOf(ev.G, ev.Arg(1), "Default.NoRecommended")
			if !d.All(func(t *engine.Term) bool { return isField(deref(e.Unprev(t)), "NoRecommended") }) {
				c.Fail("recommended", con, where(ev), "the settings of packages derive from defaults with NoRecommended = "+short(e.SV(d)), nil)
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("ignored", n, 2, "selections")
	c.Min("ignored", dels, 1, "removals of packages to be ignored")
}

// c12base decides the filter for base packages, name by name.
func c12base(c *C) {
	fn := c.Fn(fnRemoveBase)
	con := c.P.FnName(fn)
	names := append(append([]string{"dplyr", "base64enc", ""}, basePackages...), recommendedPackages...)
	for _, name := range names {
		e := c.Eng()
		e.Relevant = rel(`^cmd\.`)
		isName := func(t *engine.Term) bool {
			t = deref(e.Unprev(t))
			return t.Op == "elem" && deref(t.Args[0]).Op == "param"
		}
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if isName(t) {
				return name, true
			}
			return nil, false
		}
		m.Use(e)
		e.KeyIs = func(k *engine.Term) *engine.Term {
			if isName(k) {
				return e.Str(name)
			}
			return nil
		}
		base := depCase{name: name}.excluded()
		each := newEach(e)
		each.Track("list", func(t *engine.Term) bool { return deref(t).Op == "param" })
		kept := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name == "append" {
				for _, t := range ev.Arg(1) {
					for _, x := range vlistArgs(t) {
						if !isName(x) {
							c.Fail("base", con, where(ev), "something else is added: "+e.S(x), nil)
							continue
						}
						kept++
						ev.G.Auto["did:list"] = "1"
						ev.G.Auto["had"] = "1"
						if base {
							c.Fail("base", con, where(ev), "the base package "+name+" is kept", nil)
						}
					}
				}
			}
			return nil
		}
		each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
			if !base && g.Auto["did:list"] != "1" {
				c.Fail("base", con, at, fmt.Sprintf("the package %q is dropped", name), g.Path(6))
			}
		}
		xs := e.Run(fn, e.Start())
		c.Absorb(e)
		c.Obl("base", con)
		for _, x := range xs {
			if x.Kind != "return" {
				c.Fail("base", con, c.P.InstrPos(x.At), "ends with "+x.Kind, nil)
				continue
			}
			if x.G.Auto["all:list"] != "1" {
				c.Fail("base", con, c.P.InstrPos(x.At), "not all packages are examined", x.G.Path(6))
			}
			if x.G.Auto["had"] == "1" && !x.Res[0].Any(func(t *engine.Term) bool { return t.Contains(isName) }) {
				c.Fail("base", con, c.P.InstrPos(x.At), "the list returned is another: "+short(e.SV(x.Res[0])), nil)
			}
		}
		if !base && kept == 0 {
			c.Fail("base", con, "", fmt.Sprintf("the package %q is dropped", name), nil)
		}
	}
}

// c12deps decides what the settings of single packages are made from.
func c12deps(c *C) {
	fn := c.Fn(fnSetCustom)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^configlib\.`)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == "mapstore" && ev.Arg(0).Any(func(t *engine.Term) bool { return isField(deref(t), "Deps") }) {
			n++
			v := e.FieldOf(ev.G, ev.Arg(2), "NoRecommended")
			if !v.All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				if !isField(t, "NoRecommended") {
					return false
				}
				b := deref(t.Args[0])
				m, _ := lookupOf(b)
				return isField(b, "Default") || m != nil && isField(m, "Deps") || b.Op == "param"
			}) {
				c.Fail("recommended", con, where(ev), "a package's own settings have NoRecommended = "+short(e.SV(v)), nil)
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Obl("recommended", con)
	c.Min("recommended", n, 1, "settings of single packages")
}
