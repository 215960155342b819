package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C38", "Abstract interpretation of the code that applies the configuration's repositories, suggested packages and customisations, for every combination of settings of an arbitrary package and repository.", c38)
}

func c38(c *C) {
	c.Rule("suggests", "with Suggests set, exactly the listed packages have their suggested packages installed, everything else as by default")
	c.Rule("package", "each setting a package's customisation has is applied to that package with the value given, and one it does not have is not")
	c.Rule("is-set", "a setting counts as given exactly when the customisation of that package has it")
	c.Rule("repositories", "every configured repository is used, with its name, address and suffix, in the order of the configuration")
	c.Rule("repo-settings", "the type of a customised repository is the one given, else binary for MPN, else the default; its suffix is kept")

	c38suggests(c)
	c38package(c)
	c38isset(c)
	c38repos(c)
	c38expand(c)
}

// c38expand checks what reading the configuration makes of its repositories.
func c38expand(c *C) {
	fn := c.Fn("configlib.NewConfig")
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`homedir\.Expand$`)
	for _, o := range []string{"configlib.loadConfigFromPath", "configlib.getLibraryPath", "rcmd.NewRSettings", "rcmd.GetRVersion"} {
		e.Opaque[o] = true
	}
	isRepos := func(t *engine.Term) bool {
		t = deref(e.Unprev(t))
		return isField(t, "Repos") && !containsField(t.Args[0], "Customizations")
	}
	isText := func(t types.Type) bool {
		if t == nil {
			return false
		}
		m, ok := t.Underlying().(*types.Map)
		return ok && isString(m.Key()) && isString(m.Elem())
	}
	isPair := func(t *engine.Term) bool { t = deref(e.Unprev(t)); return t.Op == "elem" && isRepos(t.Args[0]) }
	ofPair := func(t *engine.Term, op string) bool {
		t = engine.Strip(e.Unprev(t))
		if m, k := lookupOf(t); m != nil {
			return op == "val" && isPair(m) && engine.Strip(e.Unprev(k)).Op == "key"
		}
		return t.Op == op && isPair(t.Args[0])
	}
	each := newEach(e)
	each.Track("repos", isRepos)
	each.Track("pair", isPair)
	n := 0
	e.InstrHook = func(_ *ssa.Function, _ *engine.Ctx, in ssa.Instruction, st *engine.State) {
		if m, ok := in.(*ssa.MakeMap); ok && isText(m.Type()) {
			st.G().Auto["fresh"] = "1"
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch {
		case ev.Name == "mapstore" && ev.Arg(0).All(func(t *engine.Term) bool { return isText(t.Type) }) && ev.Arg(2).Any(func(t *engine.Term) bool { return t.Contains(func(u *engine.Term) bool { return ofPair(u, "val") }) }):
			n++
			if !ev.Arg(1).All(func(t *engine.Term) bool { return ofPair(t, "key") }) {
				c.Fail("repositories", con, where(ev), "an address is kept under the name "+short(e.SV(ev.Arg(1))), ev.G.Path(6))
			}
			if !ev.Arg(2).All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				if t.Op == "res" {
					t = t.Args[0]
				}
				if t.Op == "call" && hasSuffix(t.Str, "homedir.Expand") {
					t = t.Args[0]
				}
				return ofPair(t, "val")
			}) {
				c.Fail("repositories", con, where(ev), "the address of a repository becomes "+short(e.SV(ev.Arg(2))), ev.G.Path(6))
			}
			ev.G.Auto["did:pair"] = "1"
		case ev.Name == "append" && ev.Arg(1).Any(func(t *engine.Term) bool {
			l := vlistArgs(t)
			return len(l) > 0 && isText(l[0].Type)
		}):
			if ev.G.Auto["fresh"] != "1" {
				c.Fail("repositories", con, where(ev), "repositories share one entry", ev.G.Path(6))
			}
			ev.G.Auto["did:repos"] = "1"
		}
		return nil
	}
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		switch key {
		case "pair":
			if g.Auto["did:pair"] != "1" {
				g.Auto["lost"] = at
			}
		case "repos":
			if g.Auto["did:repos"] != "1" || g.Auto["all:pair"] != "1" {
				g.Auto["lost"] = at
			}
			delete(g.Auto, "all:pair")
			delete(g.Auto, "fresh")
		}
	}
	rets := 0
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		rets++
		var cfg engine.Val
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				cfg = engine.Val{e.T("param", p.Name(), p.Type())}
			}
		}
		if e.FieldOf(x.G, cfg, "Repos").All(isRepos) {
			continue // as they were
		}
		if at := x.G.Auto["lost"]; at != "" {
			c.Fail("repositories", con, at, "a configured repository is lost while the configuration is read", x.G.Path(6))
		}
		if x.G.Auto["all:repos"] != "1" {
			c.Fail("repositories", con, c.P.InstrPos(x.At), "not all configured repositories are kept while the configuration is read", x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Obl("repositories", con)
	c.Min("repositories", rets, 1, "ways to read the configuration")
}

// isDeps: the map of settings of single packages.
func isDeps(t *engine.Term) bool { return isField(deref(t), "Deps") }

// depsRecord checks the settings stored for a package: Suggests as wanted and
// everything else from the defaults.
func depsRecord(e *engine.Eng, g *engine.G, v engine.Val, suggests func(engine.Val) bool) string {
	if s := e.FieldOf(g, v, "Suggests"); !suggests(s) {
		return "Suggests = " + short(e.SV(s))
	}
	for _, f := range []string{"Depends", "Imports", "LinkingTo", "NoRecommended"} {
		d := e.FieldOf(g, v, f)
		if !d.All(func(t *engine.Term) bool {
			t = engine.Strip(e.Unprev(t))
			return isField(t, f) && isField(deref(t.Args[0]), "Default")
		}) {
			return f + " = " + short(e.SV(d)) + ", not as by default"
		}
	}
	return ""
}

func c38suggests(c *C) {
	fn := c.Fn(fnSetCustom)
	con := c.P.FnName(fn)
	for _, on := range []bool{false, true} {
		e := c.Eng()
		e.Relevant = rel(`^configlib\.`)
		m := &Model{}
		isPkgs := func(t *engine.Term) bool {
			return isField(deref(t), "Packages") && !containsField(deref(t).Args[0], "Customizations")
		}
		isPkg := func(t *engine.Term) bool { t = deref(e.Unprev(t)); return t.Op == "elem" && isPkgs(t.Args[0]) }
		m.Atom = func(t *engine.Term) (any, bool) {
			if isField(t, "Suggests") && deref(t.Args[0]).Op == "param" {
				return on, true
			}
			if t.Op == "bin" && t.Str == "<" && t.Args[1].Op == "call" && t.Args[1].Str == "len" && t.Args[1].Args[0].Contains(func(x *engine.Term) bool { return isField(x, "Customizations") }) {
				return false, true // no package is customised
			}
			return nil, false
		}
		m.Use(e)
		each := newEach(e)
		each.Track("pkgs", isPkgs)
		n := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != "mapstore" || !ev.Arg(0).Any(isDeps) {
				return nil
			}
			n++
			if !on {
				c.Fail("suggests", con, where(ev), "a package gets settings of its own although Suggests is not set", nil)
			}
			if !ev.Arg(1).All(isPkg) {
				c.Fail("suggests", con, where(ev), "settings are stored for "+short(e.SV(ev.Arg(1))), nil)
			}
			if s := depsRecord(e, ev.G, ev.Arg(2), func(v engine.Val) bool { return e.IsTrue(ev.G, v) }); s != "" {
				c.Fail("suggests", con, where(ev), "the settings stored have "+s, nil)
			}
			ev.G.Auto["did:pkgs"] = "1"
			return nil
		}
		each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
			if on && g.Auto["did:pkgs"] != "1" {
				c.Fail("suggests", con, at, "a listed package is passed over", g.Path(6))
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("suggests", con)
			if on && x.Kind == "return" && x.G.Auto["all:pkgs"] != "1" {
				c.Fail("suggests", con, c.P.InstrPos(x.At), "not all listed packages are visited", x.G.Path(6))
			}
		}
		c.Absorb(e)
		if on {
			c.Min("suggests", n, 1, "settings of listed packages")
		}
	}
}

func c38package(c *C) {
	fn := c.Fn(fnSetCustom)
	con := c.P.FnName(fn)
	settings := []string{"Suggests", "Repo", "Type"}
	for bits := 0; bits < 8; bits++ {
		set := map[string]bool{}
		what := ""
		for i, s := range settings {
			set[s] = bits>>i&1 == 1
			what += fmt.Sprintf(" %s=%v", s, set[s])
		}
		e := c.Eng()
		e.Relevant = rel(`^configlib\.|SetPackage(Repo|Type)$`)
		e.Opaque["configlib.IsCustomizationSet"] = true
		isList := func(t *engine.Term) bool {
			t = deref(t)
			return isField(t, "Packages") && containsField(t.Args[0], "Customizations")
		}
		isMap := func(t *engine.Term) bool { t = deref(e.Unprev(t)); return t.Op == "elem" && isList(t.Args[0]) }
		isPkg := func(t *engine.Term) bool { t = engine.Strip(e.Unprev(t)); return t.Op == "key" && isMap(t.Args[0]) }
		value := func(v engine.Val, f string) bool {
			return v.All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				if !isField(t, f) {
					return false
				}
				b := deref(e.Unprev(t.Args[0]))
				if m, k := lookupOf(b); m != nil {
					return isMap(m) && isPkg(k)
				}
				return b.Op == "val" && isMap(b.Args[0])
			})
		}
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			switch {
			case isField(t, "Suggests") && deref(t.Args[0]).Op == "param":
				return false, true
			case t.Op == "bin" && t.Str == "<" && t.Args[1].Op == "call" && t.Args[1].Str == "len" && isList(t.Args[1].Args[0]) && t.Args[0].CV != nil:
				return true, true
			case t.Op == "empty" && isList(t.Args[0]):
				return false, true
			}
			return nil, false
		}
		m.Use(e)
		each := newEach(e)
		each.Track("list", isList)
		each.Track("map", isMap)
		n := 0
		did := func(ev *engine.Ev, s string) {
			n++
			ev.G.Auto["did:map:"+s] = "1"
			if !set[s] {
				c.Fail("package", con, where(ev), "the "+s+" of a package is changed although its customisation has none", nil)
			}
		}
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch {
			case ev.Name == "configlib.IsCustomizationSet":
				if !ev.Arg(2).All(isPkg) {
					c.Fail("package", con, where(ev), "the setting looked for is of "+short(e.SV(ev.Arg(2))), nil)
				}
				if len(ev.Arg(0)) == 1 {
					if k, ok := ev.Arg(0)[0].ConstString(); ok {
						v, known := set[k]
						if known {
							return []engine.Outcome{{Res: []engine.Val{{e.Bool(v)}}}}
						}
					}
				}
				c.Fail("package", con, where(ev), "an unknown setting is looked for: "+e.SV(ev.Arg(0)), nil)
			case ev.Name == "mapstore" && ev.Arg(0).Any(isDeps):
				did(ev, "Suggests")
				if !ev.Arg(1).All(isPkg) {
					c.Fail("package", con, where(ev), "settings are stored for "+short(e.SV(ev.Arg(1))), nil)
				}
				if s := depsRecord(e, ev.G, ev.Arg(2), func(v engine.Val) bool { return value(v, "Suggests") }); s != "" {
					c.Fail("package", con, where(ev), "the settings stored have "+s, nil)
				}
			case strings.HasSuffix(ev.Name, ".SetPackageRepo") || strings.HasSuffix(ev.Name, ".SetPackageType"):
				s := "Repo"
				if strings.HasSuffix(ev.Name, "Type") {
					s = "Type"
				}
				did(ev, s)
				if !ev.Arg(1).All(isPkg) || !value(ev.Arg(2), s) {
					c.Fail("package", con, where(ev), "the "+s+" of "+short(e.SV(ev.Arg(1)))+" is set to "+short(e.SV(ev.Arg(2))), nil)
				}
				return []engine.Outcome{{Res: []engine.Val{{e.Nil()}}}}
			}
			return nil
		}
		each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
			if key == "list" {
				if g.Auto["all:map"] != "1" {
					c.Fail("package", con, at, "not all customisations are applied", g.Path(6))
				}
				delete(g.Auto, "all:map")
				return
			}
			for s, v := range set {
				if v && g.Auto["did:map:"+s] != "1" {
					c.Fail("package", con, at, "the "+s+" of a package is not applied:"+what, g.Path(6))
				}
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("package", con)
			if x.Kind == "return" && x.G.Auto["all:list"] != "1" {
				c.Fail("package", con, c.P.InstrPos(x.At), "not all customisations are applied", x.G.Path(6))
			}
		}
		c.Absorb(e)
		if bits > 0 {
			c.Min("package", n, 1, "settings applied")
		}
	}
}

func c38isset(c *C) {
	fn := c.Fn("configlib.IsCustomizationSet")
	con := c.P.FnName(fn)
	e := c.Eng()
	e.SymMaps = true
	key := e.T("param", fn.Params[0].Name(), fn.Params[0].Type())
	elem := e.T("param", fn.Params[2].Name(), fn.Params[2].Type())
	isElems := func(t *engine.Term) bool { t = deref(t); return t.Op == "param" && t.Str == fn.Params[1].Name() }
	has := func(t *engine.Term, f func(*engine.Term) bool) bool { return t.Contains(f) }
	ofElem := func(t *engine.Term) bool {
		return has(t, func(x *engine.Term) bool { return x.Op == "elem" && isElems(x.Args[0]) })
	}
	nested := func(t *engine.Term) bool {
		return has(t, func(x *engine.Term) bool { return (x.Op == "val" || x.Op == "lookup") && ofElem(x.Args[0]) })
	}
	each := newEach(e)
	each.Track("elems", isElems)
	each.Track("settings", func(t *engine.Term) bool { return !isElems(t) && ofElem(t) && !nested(t) })
	each.Track("set", func(t *engine.Term) bool { return nested(t) })
	watch(e, func(t *engine.Term) string {
		var k, m *engine.Term
		switch {
		case t.Op == "bin" && t.Str == "==":
			x, y := engine.Strip(t.Args[0]), engine.Strip(t.Args[1])
			if y.Op == "key" {
				x, y = y, x
			}
			if x.Op != "key" {
				return ""
			}
			m, k = x.Args[0], y
		case t.Op == "haskey":
			m, k = lookupOf(t)
		case t.Op == "istype":
			// what has not the form of settings has none
			if nested(t.Args[0]) {
				return "is2"
			}
			if ofElem(t.Args[0]) {
				return "is"
			}
			return ""
		default:
			return ""
		}
		k = engine.Strip(k)
		switch {
		case nested(m) && (k == key || k.ContainsTerm(key)):
			return "k2"
		case ofElem(m) && !nested(m) && (k == elem || k.ContainsTerm(elem)):
			return "k"
		}
		return ""
	})
	over := func(g *engine.G, at string) {
		switch {
		case g.Auto["k"] == "T" && g.Auto["k2"] == "T":
			c.Fail("is-set", con, at, "a setting that was found is passed over", g.Path(6))
		case g.Auto["k"] == "T" && g.Auto["all:set"] != "1" && g.Auto["k2"] == "" && g.Auto["is2"] != "F":
			c.Fail("is-set", con, at, "the settings of the package are passed over", g.Path(6))
		}
	}
	each.Iter = func(k string, _ *engine.Term, g *engine.G, at string) {
		switch k {
		case "set":
			if g.Auto["k2"] == "T" && g.Auto["k"] == "T" {
				c.Fail("is-set", con, at, "a setting that was found is passed over", g.Path(6))
			}
			delete(g.Auto, "k2")
		case "settings":
			over(g, at)
			delete(g.Auto, "all:set")
			delete(g.Auto, "k")
			delete(g.Auto, "k2")
			delete(g.Auto, "is2")
		case "elems":
			over(g, at)
			if g.Auto["all:settings"] != "1" && g.Auto["k"] == "" && g.Auto["is"] != "F" {
				c.Fail("is-set", con, at, "a customisation is passed over", g.Path(6))
			}
			for _, k := range []string{"all:settings", "all:set", "k", "k2", "is", "is2"} {
				delete(g.Auto, k)
			}
		}
	}
	n := 0
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		c.Obl("is-set", con)
		at := c.P.InstrPos(x.At)
		found := x.G.Auto["k"] == "T" && x.G.Auto["k2"] == "T"
		switch {
		case e.IsTrue(x.G, x.Res[0]):
			n++
			if !found {
				c.Fail("is-set", con, at, "a setting counts as given that the package's customisation does not have", x.G.Path(8))
			}
		case e.IsFalse(x.G, x.Res[0]):
			if found || x.G.Auto["all:elems"] != "1" {
				c.Fail("is-set", con, at, "a setting counts as not given although it was found, or not all were looked at", x.G.Path(8))
			}
		default:
			c.Fail("is-set", con, at, "undecided: "+short(e.SV(x.Res[0])), nil)
		}
	}
	c.Absorb(e)
	c.Min("is-set", n, 1, "settings found")
}

func c38repos(c *C) {
	fn := c.Fn(fnPlanning)
	con := c.P.FnName(fn)
	types := []string{"", "binary", "Binary", "source", "SOURCE"}
	kinds := []string{"", "MPN", "mpn", "RSPM", "other"}
	for _, typ := range types {
		for _, kind := range kinds {
			for _, suffix := range []string{"", "Sub-X"} {
				if suffix != "" && typ != kind { // one suffix is enough for most
					continue
				}
				e := planEng(c)
				e.Opaque["configlib.GetRepoCustomizationByName"] = true
				delete(e.Opaque, "cran.NewInstallConfig")
				what := fmt.Sprintf("RepoType %q, Type %q, suffix %q", kind, typ, suffix)
				isList := func(t *engine.Term) bool {
					t = deref(t)
					return isField(t, "Repos") && isField(deref(t.Args[0]), "Customizations")
				}
				isRepos := func(t *engine.Term) bool {
					t = deref(t)
					return isField(t, "Repos") && !isField(deref(t.Args[0]), "Customizations")
				}
				inMap := func(t *engine.Term, list func(*engine.Term) bool) bool {
					t = deref(e.Unprev(t))
					return t.Op == "elem" && list(t.Args[0])
				}
				value := func(t *engine.Term) string {
					t = engine.Strip(e.Unprev(t))
					if t.Op != "field" {
						return ""
					}
					b := deref(e.Unprev(t.Args[0]))
					if b.Op == "val" && inMap(b.Args[0], isList) {
						return t.Str
					}
					if m, k := lookupOf(b); m != nil && inMap(m, isList) && engine.Strip(e.Unprev(k)).Op == "key" {
						return t.Str
					}
					return ""
				}
				m := &Model{}
				m.Atom = func(t *engine.Term) (any, bool) {
					switch value(t) {
					case "Type":
						return typ, true
					case "RepoType":
						return kind, true
					case "RepoSuffix":
						return suffix, true
					}
					return nil, false
				}
				m.Use(e)
				each := newEach(e)
				each.Track("repos", isRepos)
				each.Track("one", func(t *engine.Term) bool { return inMap(t, isRepos) })
				each.Track("list", isList)
				each.Track("custom", func(t *engine.Term) bool { return inMap(t, isList) })
				wantType := int64(0)
				switch {
				case strings.EqualFold(typ, "binary"):
					wantType = 2
				case strings.EqualFold(typ, "source"):
					wantType = 1
				case strings.EqualFold(kind, "MPN"):
					wantType = 2
				}
				n := map[string]int{}
				e.Call = func(ev *engine.Ev) []engine.Outcome {
					g := ev.G
					switch ev.Name {
					case "configlib.GetRepoCustomizationByName":
						if !ev.Arg(0).All(func(t *engine.Term) bool {
							t = engine.Strip(e.Unprev(t))
							return t.Op == "key" && inMap(t.Args[0], isRepos)
						}) {
							c.Fail("repositories", con, where(ev), "the suffix is looked up for "+short(e.SV(ev.Arg(0))), nil)
						}
						return symRes(ev, "customisation", "found")
					case "append":
						for _, t := range ev.Arg(1) {
							for _, x := range vlistArgs(t) {
								if !isNamed("RepoURL")(x.Type) {
									continue
								}
								n["repo"]++
								g.Auto["did:one"] = "1"
								v := engine.Val{x}
								name := e.FieldOf(g, v, "Name")
								url := e.FieldOf(g, v, "URL")
								suf := e.FieldOf(g, v, "Suffix")
								if !name.All(func(t *engine.Term) bool {
									t = engine.Strip(e.Unprev(t))
									return t.Op == "key" && inMap(t.Args[0], isRepos)
								}) {
									c.Fail("repositories", con, where(ev), "a repository is named "+short(e.SV(name)), nil)
								}
								if !url.All(func(t *engine.Term) bool {
									t = engine.Strip(e.Unprev(t))
									if t.Op == "val" {
										return inMap(t.Args[0], isRepos)
									}
									m, _ := lookupOf(t)
									return m != nil && inMap(m, isRepos)
								}) {
									c.Fail("repositories", con, where(ev), "the address of a repository is "+short(e.SV(url)), nil)
								}
								if !suf.All(func(t *engine.Term) bool {
									t = engine.Strip(e.Unprev(t))
									return isField(t, "RepoSuffix") && e.S(deref(t.Args[0])) == "customisation" || isField(t, "RepoSuffix") && strings.Contains(e.S(t), "customisation")
								}) {
									c.Fail("repositories", con, where(ev), "the suffix of a repository is "+short(e.SV(suf)), nil)
								}
							}
						}
					case "mapstore":
						if !ev.Arg(2).Any(func(t *engine.Term) bool { return isNamed("RepoConfig")(t.Type) }) {
							return nil
						}
						n["custom"]++
						g.Auto["did:custom"] = "1"
						c.Obl("repo-settings", con)
						if !ev.Arg(1).All(func(t *engine.Term) bool {
							t = engine.Strip(e.Unprev(t))
							return t.Op == "key" && inMap(t.Args[0], isList)
						}) {
							c.Fail("repo-settings", con, where(ev), "settings are stored for "+short(e.SV(ev.Arg(1))), nil)
						}
						got, ok := m.EvalVal(e.FieldOf(g, ev.Arg(2), "DefaultSourceType"))
						if !ok || got != wantType {
							c.Fail("repo-settings", con, where(ev), fmt.Sprintf("the type is %v, not %d: %s", short(e.SV(e.FieldOf(g, ev.Arg(2), "DefaultSourceType"))), wantType, what), nil)
						}
						rt, want := e.FieldOf(g, ev.Arg(2), "RepoType"), int64(0)
						if n := map[string]string{"mpn": "MPN", "rspm": "RSPM"}[strings.ToLower(kind)]; n != "" {
							want, _ = c.P.ConstInt("cran", n)
						}
						if got, ok := m.EvalVal(rt); !ok || got != want {
							c.Fail("repo-settings", con, where(ev), "the kind of the repository is "+short(e.SV(rt))+": "+what, nil)
						}
						s, ok := m.EvalVal(e.FieldOf(g, ev.Arg(2), "RepoSuffix"))
						if !ok || s != suffix {
							c.Fail("repo-settings", con, where(ev), "the suffix is "+short(e.SV(e.FieldOf(g, ev.Arg(2), "RepoSuffix")))+": "+what, nil)
						}
						g.Auto["stored"] = "1"
					case fnNewDb:
						n["db"]++
						c.Obl("repositories", con)
						if g.Auto["all:repos"] != "1" || g.Auto["all:list"] != "1" {
							c.Fail("repositories", con, where(ev), "not all configured repositories or customisations were visited", g.Path(6))
						}
						if g.Auto["had:repo"] == "1" && !ev.Arg(0).Any(func(t *engine.Term) bool {
							return t.Contains(func(x *engine.Term) bool { return isNamed("RepoURL")(x.Type) })
						}) {
							c.Fail("repositories", con, where(ev), "the repositories used are "+short(e.SV(ev.Arg(0))), nil)
						}
						return []engine.Outcome{{Exit: "none"}}
					}
					return nil
				}
				each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
					switch key {
					case "one":
						if g.Auto["did:one"] != "1" {
							c.Fail("repositories", con, at, "a configured repository is passed over", g.Path(6))
						}
					case "custom":
						if g.Auto["did:custom"] != "1" && (wantType != 0 || suffix != "") {
							c.Fail("repo-settings", con, at, "a repository's customisation is passed over: "+what, g.Path(6))
						}
					case "repos":
						if g.Auto["all:one"] != "1" {
							c.Fail("repositories", con, at, "a configured repository is passed over", g.Path(6))
						}
						delete(g.Auto, "all:one")
					case "list":
						if g.Auto["all:custom"] != "1" {
							c.Fail("repo-settings", con, at, "a repository's customisation is passed over", g.Path(6))
						}
						delete(g.Auto, "all:custom")
					}
				}
				e.Run(fn, e.Start())
				c.Absorb(e)
				c.Min("repositories", n["repo"], 1, "repositories")
				c.Min("repositories", n["db"], 1, "uses of the repositories")
				c.Min("repo-settings", n["custom"], 1, "customised repositories")
			}
		}
	}
}
