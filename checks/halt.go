package checks

import (
	"strings"

	"verif/engine"
)

func init() {
	register("C10", "Abstract interpretation of planning and of the install and plan commands: every path on which something requested is missing, unreadable, unresolvable or contradictory ends the program with an error before the library is touched.", c10)
}

func c10(c *C) {
	c.Rule("classify", "every requested package is either reported missing or in the list of those found, with what was selected for it")
	c.Rule("missing", "planning with a missing package ends the program with an error, or gives an empty plan where the command may go on without one")
	c.Rule("failed", "planning ends the program when the package lists could not be had or the graph could not be resolved")
	c.Rule("inputs", "every tarball and DESCRIPTION file that was named is read, or the program ends")
	c.Rule("customised", "a customisation that names no configured repository or no type ends the program")
	c.Rule("strict", "in strict mode a missing library is neither created nor installed to, and the run fails")
	c.Rule("order", "install and plan stop at a missing package, and nothing is done in the library before planning is over")

	c10classify(c)
	c10plan(c)
	c10inputs(c)
	c10custom(c)
	c10install(c)
}

// emptiness recognises a test for the emptiness of a list.
func emptiness(t *engine.Term, list func(*engine.Term) bool) (empty, ok bool) {
	switch {
	case t.Op == "empty" && list(engine.Strip(t.Args[0])):
		return true, true
	case t.Op == "bin":
		for i, a := range t.Args {
			if a.Op == "call" && a.Str == "len" && list(engine.Strip(a.Args[0])) {
				n, isC := t.Args[1-i].ConstInt()
				switch {
				case t.Str == "==" && isC && n == 0:
					return true, true
				case t.Str == "<" && i == 1 && isC && n == 0:
					return false, true
				case t.Str == "<" && i == 0 && isC && n == 1:
					return true, true
				}
			}
		}
	case t.Op == "un" && t.Str == "!":
		e, ok := emptiness(t.Args[0], list)
		return !e, ok
	}
	return false, false
}

func c10classify(c *C) {
	fn := c.Fn(fnPkgs)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Opaque[fnGetPackage] = true
	isReq := func(t *engine.Term) bool {
		t = e.Unprev(t)
		return t.Op == "elem" && deref(t.Args[0]).Op == "param"
	}
	each := newEach(e)
	each.Track("pkgs", func(t *engine.Term) bool { return deref(t).Op == "param" })
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnGetPackage:
			n++
			if !ev.Arg(1).All(isReq) {
				c.Fail("classify", con, where(ev), "the package selected is not the one requested: "+short(e.SV(ev.Arg(1))), nil)
			}
			d, k := e.Sym("selected description", resType(ev, 0)), e.Sym("selected config", resType(ev, 1))
			return []engine.Outcome{
				{Res: []engine.Val{{d}, {k}, {e.Bool(true)}}, Set: map[string]string{"found": "T"}},
				{Res: []engine.Val{{d}, {k}, {e.Bool(false)}}, Set: map[string]string{"found": "F"}},
			}
		case "append":
			for _, t := range ev.Arg(1) {
				for _, x := range vlistArgs(t) {
					if isReq(x) {
						ev.G.Auto["did:pkgs:missing"] = "1"
						ev.G.Auto["had:missing"] = "1"
						continue
					}
					v := engine.Val{x}
					is := func(f, want string) bool {
						return e.FieldOf(ev.G, v, f).All(func(t *engine.Term) bool {
							t = engine.Strip(e.Unprev(t))
							return t.Op == "sym" && t.Str == want || e.S(t) == want
						})
					}
					if isNamed("PkgDl")(x.Type) || x.Op == "record" {
						if is("Package", "selected description") && is("Config", "selected config") {
							ev.G.Auto["did:pkgs:selected"] = "1"
							ev.G.Auto["had:selected"] = "1"
						} else {
							c.Fail("classify", con, where(ev), "the package listed is not the one selected", nil)
						}
					}
				}
			}
		}
		return nil
	}
	each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
		miss, sel := g.Auto["did:pkgs:missing"] == "1", g.Auto["did:pkgs:selected"] == "1"
		switch g.Auto["found"] {
		case "F":
			if !miss {
				c.Fail("classify", con, at, "a package that no repository offers is not reported missing", g.Path(6))
			}
		case "T":
			if miss {
				c.Fail("classify", con, at, "a package that was found is reported missing", g.Path(6))
			}
			if !sel {
				c.Fail("classify", con, at, "a package that was found is dropped", g.Path(6))
			}
		default:
			c.Fail("classify", con, at, "a requested package is not looked for", g.Path(6))
		}
		delete(g.Auto, "found")
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		c.Obl("classify", con)
		if x.G.Auto["all:pkgs"] != "1" {
			c.Fail("classify", con, c.P.InstrPos(x.At), "not all requested packages are looked for", x.G.Path(6))
		}
		if x.G.Auto["had:missing"] == "1" && !e.FieldOf(x.G, x.Res[0], "Missing").Any(func(t *engine.Term) bool { return t.Contains(isReq) }) {
			c.Fail("classify", con, c.P.InstrPos(x.At), "the missing packages are not in what is returned", x.G.Path(6))
		}
		if x.G.Auto["had:selected"] == "1" && !e.FieldOf(x.G, x.Res[0], "Packages").Any(func(t *engine.Term) bool {
			return t.Op == "mayelem" || t.Op == "list" || t.Op == "call" || t.Contains(func(y *engine.Term) bool { return strings.Contains(e.S(y), "selected description") })
		}) {
			c.Fail("classify", con, c.P.InstrPos(x.At), "the packages found are not in what is returned: "+short(e.SV(e.FieldOf(x.G, x.Res[0], "Packages"))), x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Min("classify", n, 1, "selections")
}

// endsBadly: the call ends the program with an error.
func endsBadly(ev *engine.Ev) bool {
	if ev.Name == "os.Exit" {
		return ev.Arg(0).All(func(t *engine.Term) bool { n, ok := t.ConstInt(); return ok && n != 0 })
	}
	return engine.NoReturn(ev.Name) != ""
}

func c10plan(c *C) {
	fn := c.Fn(fnPlanning)
	con := c.P.FnName(fn)
	e := planEng(c)
	isMissing := func(t *engine.Term) bool { return isField(deref(e.Unprev(t)), "Missing") }
	watch(e, func(t *engine.Term) string {
		if empty, ok := emptiness(t, isMissing); ok {
			if empty {
				return "complete"
			}
			return "incomplete"
		}
		return ""
	})
	n := map[string]int{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnNewDb:
			n["db"]++
			return okFail(ev, nil, map[string]string{"failed": "the package lists could not be had"})
		case fnResolve:
			n["resolve"]++
			return okFail(ev, map[string]string{"resolved": "1"}, map[string]string{"failed": "the graph could not be resolved"})
		case fnPkgs:
			n["pkgs"]++
			ev.G.Auto["selected"] = "1"
			return symRes(ev, "available")
		case "os.Exit":
			if !endsBadly(ev) {
				c.Fail("missing", con, where(ev), "the program ends as if it had succeeded", ev.G.Path(6))
			}
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		g, at := x.G, c.P.InstrPos(x.At)
		if x.Kind != "return" {
			continue
		}
		n["return"]++
		c.Obl("missing", con)
		c.Obl("failed", con)
		if f := g.Auto["failed"]; f != "" {
			c.Fail("failed", con, at, "planning goes on although "+f, g.Path(8))
			continue
		}
		if g.Auto["selected"] != "1" {
			c.Fail("missing", con, at, "planning ends without having looked for the requested packages", g.Path(8))
			continue
		}
		if g.Auto["complete"] == "T" || g.Auto["incomplete"] == "F" {
			if g.Auto["resolved"] != "1" {
				c.Fail("failed", con, at, "planning ends without having resolved the graph", g.Path(8))
			}
			continue
		}
		may := false
		for _, p := range fn.Params {
			if p.Type().String() == "bool" {
				v := e.T("param", p.Name(), p.Type())
				may = may || e.IsFalse(g, engine.Val{v})
			}
		}
		if !may {
			c.Fail("missing", con, at, "planning goes on although a requested package is missing", g.Path(8))
			continue
		}
		n["empty"]++
		for _, f := range []string{"StartingPackages", "DepDb", "PackageDownloads", "AdditionalPackageSources"} {
			if v := e.FieldOf(g, x.Res[1], f); !v.All(func(t *engine.Term) bool { return e.IsNil(g, engine.Val{t}) }) {
				c.Fail("missing", con, at, "a package is missing, but the plan is not empty: "+f+" is "+short(e.SV(v)), g.Path(8))
			}
		}
	}
	c.Absorb(e)
	for _, k := range []string{"db", "resolve", "pkgs", "return"} {
		c.Min("failed", n[k], 1, "events: "+k)
	}
}

func c10inputs(c *C) {
	for _, name := range []string{"cmd.unpackTarballs", "cmd.unpackDescriptions"} {
		fn := c.Fn(name)
		con := c.P.FnName(fn)
		e := c.Eng()
		e.Relevant = rel(`^cmd\.|^desc\.ParseDesc$|\.Open$`)
		opaqueBut(e, c, "cmd.")
		e.Opaque["cmd.untar"] = true
		each := newEach(e)
		each.Track("files", func(t *engine.Term) bool { t = deref(t); return t.Op == "param" })
		isParsed := func(t *engine.Term) bool {
			return t.Contains(func(x *engine.Term) bool { return strings.HasPrefix(e.S(x), "desc.ParseDesc#0") })
		}
		n := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch {
			case ev.Name == "desc.ParseDesc":
				n++
				ev.G.Auto["did:files:parsed"] = "1"
				return okFail(ev, nil, map[string]string{"failed": "a file could not be parsed"})
			case hasSuffix(ev.Name, ".Open") && errIndex(ev) == 1:
				return okFail(ev, nil, map[string]string{"failed": "a file could not be opened"})
			case ev.Name == "append":
				for _, t := range ev.Arg(1) {
					for _, x := range vlistArgs(t) {
						if isParsed(x) {
							ev.G.Auto["did:files:kept"] = "1"
						}
					}
				}
			case ev.Name == "mapstore" && ev.Arg(0).Any(func(t *engine.Term) bool { return t.Type != nil && strings.HasSuffix(t.Type.String(), "AdditionalPkg") }):
				ev.G.Auto["did:files:planned"] = "1"
				if !ev.Arg(1).All(func(t *engine.Term) bool { return isField(e.Unprev(t), "Package") && isParsed(t) }) {
					c.Fail("inputs", con, where(ev), "a tarball is planned under another name than its package's: "+short(e.SV(ev.Arg(1))), nil)
				}
				v := e.FieldOf(ev.G, ev.Arg(2), "InstallPath")
				if !v.All(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { return x.Op == "call" && x.Str == "cmd.untar" })
				}) {
					c.Fail("inputs", con, where(ev), "what is planned for installation is not the folder the tarball was extracted to: "+short(e.SV(v)), nil)
				}
			}
			return nil
		}
		each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
			if f := g.Auto["failed"]; f != "" {
				c.Fail("inputs", con, at, "goes on although "+f, g.Path(6))
			}
			if g.Auto["did:files:parsed"] != "1" || g.Auto["did:files:kept"] != "1" {
				c.Fail("inputs", con, at, "a file that was named is passed over", g.Path(6))
			}
			if name == "cmd.unpackTarballs" && g.Auto["did:files:planned"] != "1" {
				c.Fail("inputs", con, at, "a tarball is not planned for installation", g.Path(6))
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			if x.Kind != "return" {
				continue
			}
			c.Obl("inputs", con)
			if x.G.Auto["all:files"] != "1" || x.G.Auto["failed"] != "" {
				c.Fail("inputs", con, c.P.InstrPos(x.At), "returns without having read all files that were named", x.G.Path(6))
			}
		}
		c.Absorb(e)
		c.Min("inputs", n, 1, "files parsed in "+name)
	}
}

func c10custom(c *C) {
	fn := c.Fn(fnSetCustom)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^configlib\.|SetPackage(Repo|Type)$`)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if strings.HasSuffix(ev.Name, ".SetPackageRepo") || strings.HasSuffix(ev.Name, ".SetPackageType") {
			n++
			return okFail(ev, nil, map[string]string{"failed": "1"})
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		c.Obl("customised", con)
		if x.Kind == "return" && x.G.Auto["failed"] == "1" {
			c.Fail("customised", con, c.P.InstrPos(x.At), "planning goes on although a customisation could not be applied", x.G.Path(8))
		}
	}
	c.Absorb(e)
	c.Min("customised", n, 2, "customisations applied")
}

// c10install follows the install and plan commands.
func c10install(c *C) {
	for _, name := range []string{"cmd.rInstall", "cmd.plan"} {
		for _, absent := range []bool{false, true} {
			for _, strict := range []bool{false, true} {
				if name == "cmd.plan" && (absent || strict) {
					continue
				}
				fn := c.Fn(name)
				con := c.P.FnName(fn)
				e := c.Eng()
				e.Relevant = rel(`^cmd\.`, mutatingFS, runsCommand)
				opaqueBut(e, c, "cmd.")
				e.Opaque[fnPlanning] = true
				m := &Model{}
				m.Atom = func(t *engine.Term) (any, bool) {
					switch {
					case isField(t, "CreateLibrary"):
						return absent, true
					case isField(t, "Strict"):
						return strict, true
					}
					return nil, false
				}
				m.Use(e)
				n := 0
				inLib := func(v engine.Val) bool {
					return v.Any(func(t *engine.Term) bool {
						return t.Contains(func(x *engine.Term) bool { return x.Op == "field" && x.Str == "Library" })
					})
				}
				e.Call = func(ev *engine.Ev) []engine.Outcome {
					g := ev.G
					if ev.Name == fnPlanning {
						n++
						c.Obl("order", con)
						if !e.IsTrue(g, ev.Arg(1)) {
							c.Fail("order", con, where(ev), "the command goes on when a requested package is missing", nil)
						}
						g.Auto["planned"] = "1"
						return symRes(ev, "nexus", "plan", "rollback")
					}
					does := ""
					switch {
					case ev.Name == "rcmd.InstallPackagePlan" || ev.Name == "rcmd.Install":
						does = "packages are installed"
					case strings.HasSuffix(ev.Name, "PreparePackagesForUpdate") || strings.HasSuffix(ev.Name, "PrepareAdditionalPackagesForOverwrite"):
						does = "packages are set aside"
					default:
						for _, f := range fsEffects(ev) {
							if inLib(f.Path) || inLib(f.To) {
								does = "the library is changed (" + f.Kind + ")"
							}
						}
					}
					if does == "" {
						return nil
					}
					if g.Auto["planned"] != "1" {
						c.Fail("order", con, where(ev), does+" before planning is over", g.Path(6))
					}
					if absent && strict {
						c.Fail("strict", con, where(ev), does+" although the library does not exist, in strict mode", g.Path(6))
					}
					return nil
				}
				xs := e.Run(fn, e.Start())
				c.Absorb(e)
				c.Min("order", n, 1, "plannings in "+name)
				if !absent || !strict {
					continue
				}
				c.Obl("strict", con)
				for _, x := range xs {
					if x.Kind == "return" && e.IsNil(x.G, x.Res[0]) {
						c.Fail("strict", con, c.P.InstrPos(x.At), "the run succeeds although the library does not exist, in strict mode", x.G.Path(8))
					}
				}
			}
		}
	}
}
