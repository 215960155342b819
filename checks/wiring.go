package checks

import (
	"go/types"

	"verif/engine"
)

// libraryWorld gives the tests for the existence of the library their possible
// outcomes. The state carries lib: yes, no or unknown.
func libraryWorld(e *engine.Eng) func(ev *engine.Ev) []engine.Outcome {
	isLib := func(v engine.Val) bool {
		return len(v) > 0 && v.All(func(t *engine.Term) bool { return isField(deref(e.Unprev(t)), "Library") })
	}
	tell := func(ev *engine.Ev, arg int, first func(string) engine.Val) []engine.Outcome {
		if !isLib(ev.Arg(arg)) {
			return nil
		}
		var out []engine.Outcome
		for _, s := range []string{"yes", "no", "unknown"} {
			if l := ev.G.Auto["lib"]; l != "" && l != s {
				continue
			}
			err := engine.Val{e.Nil()}
			if s == "unknown" {
				err = engine.Val{e.NonNilErr("examining the library")}
			}
			out = append(out, engine.Outcome{Res: []engine.Val{first(s), err}, Set: map[string]string{"lib": s}})
		}
		return out
	}
	prev := e.Assume
	e.Assume = func(t *engine.Term) (bool, bool) {
		u := engine.Strip(t)
		if u.Op == "bin" && u.Str == "==" && engine.Strip(u.Args[0]).Str == "library" && u.Args[1].Op == "nil" {
			return false, true
		}
		if u.Op == "call" && len(u.Args) > 0 {
			a := engine.Strip(u.Args[0])
			switch {
			case u.Str == "os.IsNotExist" || u.Str == "errors.Is":
				switch {
				case a.Str == "no such library":
					return true, true
				case a.Str == "examining the library":
					return false, true
				}
			case hasSuffix(u.Str, "FileInfo).IsDir") && a.Str == "library":
				return true, true
			}
		}
		if prev != nil {
			return prev(t)
		}
		return false, false
	}
	return func(ev *engine.Ev) []engine.Outcome {
		yes := func(s string) engine.Val {
			return engine.Val{e.Bool(s == "yes")}
		}
		switch {
		case ev.Name == "github.com/spf13/afero.DirExists" || ev.Name == "github.com/spf13/afero.Exists":
			return tell(ev, 1, yes)
		case hasSuffix(ev.Name, "Fs).Stat") || ev.Name == "os.Stat":
			i := len(ev.Args) - 1
			out := tell(ev, i, func(s string) engine.Val {
				if s == "yes" {
					return engine.Val{e.Sym("library", resType(ev, 0))}
				}
				return engine.Val{e.Nil()}
			})
			for j := range out {
				if out[j].Set["lib"] == "no" {
					out[j].Res[1] = engine.Val{e.NonNilErr("no such library")}
				}
			}
			return out
		}
		return nil
	}
}

// c02known checks that the rollback knows the library as it was.
func c02known(c *C) {
	// what the plan says about the library's creation
	resolve := c.Fn(fnResolve)
	exists := -1
	{
		e := c.Eng()
		e.Relevant = rel(`^gpsr\.`)
		for _, n := range []string{fnAppend, fnLayers, fnGetPackage, "pacman.GetOutdatedPackages", "(*cran.PkgNexus).GetPackages", fnPack} {
			e.Opaque[n] = true
		}
		con := "CreateLibrary of the plan"
		n := 0
		for _, x := range e.Run(resolve, e.Start()) {
			if x.Kind != "return" || !e.IsNil(x.G, x.Res[len(x.Res)-1]) {
				continue
			}
			n++
			c.Obl("previous-known", con)
			for _, t := range e.FieldOf(x.G, x.Res[0], "CreateLibrary") {
				u := engine.Strip(e.Not(t))
				ok := false
				for i, p := range resolve.Params {
					if u.Op == "param" && u.Str == p.Name() && types.Identical(p.Type(), types.Typ[types.Bool]) {
						ok = exists < 0 || exists == i
						exists = i
					}
				}
				for i, p := range resolve.Params { // decided by a test of it
					b, is := t.ConstBool()
					if !is || !types.Identical(p.Type(), types.Typ[types.Bool]) {
						continue
					}
					if factKnown(x.G, !b, func(f *engine.Term) bool { return f.Op == "param" && f.Str == p.Name() }) && (exists < 0 || exists == i) {
						ok, exists = true, i
					}
				}
				if !ok {
					c.Fail("previous-known", con, c.P.InstrPos(x.At), "is "+short(e.S(t))+", not that the library does not exist", x.G.Path(8))
				}
			}
		}
		c.Absorb(e)
		c.Min("previous-known", n, 1, "plans made")
	}
	if exists < 0 {
		return
	}

	fn := c.Fn(fnPlanning)
	e := planEng(c)
	c.Fn("rollback.CreateRollbackPlan")
	delete(e.Opaque, "rollback.CreateRollbackPlan")
	rel0 := e.Relevant
	e.Relevant = func(n string) bool {
		return rel0(n) || n == "rollback.CreateRollbackPlan" || n == "pacman.GetPriorInstalledPackages" || n == "github.com/spf13/afero.DirExists"
	}
	c.Fn("pacman.GetPriorInstalledPackages")
	world := libraryWorld(e)
	read := func(v engine.Val) bool {
		return len(v) > 0 && v.All(func(t *engine.Term) bool {
			t = engine.Strip(e.Unprev(t))
			return t.Op == "call" && t.Str == "pacman.GetPriorInstalledPackages" && isField(deref(e.Unprev(t.Args[len(t.Args)-1])), "Library")
		})
	}
	n := map[string]int{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if o := world(ev); o != nil {
			return o
		}
		g := ev.G
		if ev.Name == fnResolve {
			con := "resolution in " + c.P.FnName(ev.Fn())
			c.Obl("previous-known", con)
			n[g.Auto["lib"]]++
			var installed engine.Val
			for i, p := range resolve.Params {
				if m, ok := p.Type().Underlying().(*types.Map); ok && isNamed("desc.Desc")(m.Elem()) {
					installed = ev.Arg(i)
				}
			}
			is := e.Truth(g, ev.Arg(exists)[0])
			switch g.Auto["lib"] {
			case "yes":
				if is != 1 {
					c.Fail("previous-known", con, where(ev), "the library that exists counts as one to be created: "+short(e.SV(ev.Arg(exists))), g.Path(8))
				}
				if !read(installed) {
					c.Fail("previous-known", con, where(ev), "the installed packages are "+short(e.SV(installed)), g.Path(8))
				}
			case "no":
				if is != -1 {
					c.Fail("previous-known", con, where(ev), "a library that does not exist counts as existing: "+short(e.SV(ev.Arg(exists))), g.Path(8))
				}
			default:
				c.Fail("previous-known", con, where(ev), "planning goes on although it is not known whether the library exists", g.Path(8))
			}
			g.Auto["resolved"] = "1"
			return symRes(ev, "plan")
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" || x.G.Auto["resolved"] == "" || x.G.Auto["lib"] == "unknown" {
			continue
		}
		g, at := x.G, c.P.InstrPos(x.At)
		n["return"]++
		con := "rollback plan of " + c.P.FnName(fn)
		c.Obl("previous-known", con)
		rb := x.Res[len(x.Res)-1]
		if lib := e.FieldOf(g, rb, "Library"); !lib.All(func(t *engine.Term) bool { return isField(deref(e.Unprev(t)), "Library") }) {
			c.Fail("previous-known", con, at, "the library is "+short(e.SV(lib)), g.Path(8))
		}
		if pre := e.FieldOf(g, rb, "PreinstalledPackages"); g.Auto["lib"] == "yes" && !read(pre) {
			c.Fail("previous-known", con, at, "the packages installed before are "+short(e.SV(pre)), g.Path(8))
		}
		for _, f := range []string{"CreateLibrary", "AdditionalPackageSources", "OutdatedPackages", "StartingPackages", "DepDb"} {
			a, b := e.FieldOf(g, rb, "InstallPlan."+f), e.FieldOf(g, x.Res[1], f)
			if e.SV(a) != e.SV(b) {
				c.Fail("previous-known", con, at, f+" of its plan is "+short(e.SV(a))+", and "+short(e.SV(b))+" in the plan that is carried out", g.Path(8))
			}
		}
	}
	c.Absorb(e)
	c.Min("previous-known", n["yes"], 1, "resolutions with a library")
	c.Min("previous-known", n["no"], 1, "resolutions without a library")
	c.Min("previous-known", n["return"], 1, "rollback plans")
}

// c02read checks that the packages of a library that could not be read are not
// taken to be absent.
func c02read(c *C) {
	fn := c.Fn("pacman.GetPriorInstalledPackages")
	e := c.Eng()
	con := c.P.FnName(fn)
	e.Assume = func(t *engine.Term) (bool, bool) {
		u := engine.Strip(t)
		if u.Op == "call" && (u.Str == "os.IsNotExist" || u.Str == "errors.Is") && len(u.Args) > 0 {
			switch engine.Strip(u.Args[0]).Str {
			case "no such library":
				return true, true
			case "unreadable library":
				return false, true
			}
		}
		return false, false
	}
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		lists := hasSuffix(ev.Name, ".Readdir") || hasSuffix(ev.Name, ".ReadDir") || hasSuffix(ev.Name, ".Readdirnames")
		opens := hasSuffix(ev.Name, "Fs).Open") || ev.Name == "os.Open" || hasSuffix(ev.Name, "Fs).OpenFile")
		if !lists && !opens || errIndex(ev) != 1 {
			return nil
		}
		if opens || !hasSuffix(ev.Name, "File).Readdir") && !hasSuffix(ev.Name, "File).ReadDir") && !hasSuffix(ev.Name, "File).Readdirnames") {
			lib := false
			for _, a := range ev.Args {
				if a.All(func(t *engine.Term) bool {
					t = engine.Strip(e.Unprev(t))
					return t.Op == "param" && t.Str == fn.Params[len(fn.Params)-1].Name()
				}) {
					lib = true
				}
			}
			if !lib {
				return nil
			}
		}
		if lists {
			n++
		}
		c.Obl("library-read", ev.Name+" in "+c.P.FnName(ev.Fn()))
		out := []engine.Outcome{
			{Res: []engine.Val{{e.Sym("entries", resType(ev, 0))}, {e.Nil()}}},
			{Res: []engine.Val{{e.Nil()}, {e.NonNilErr("unreadable library")}}, Set: map[string]string{"unread": "1"}},
		}
		if lists { // also one that fails midway
			out = append(out, engine.Outcome{Res: []engine.Val{{e.NonNilErr("some entries")}, {e.NonNilErr("unreadable library")}}, Set: map[string]string{"unread": "1"}})
		}
		if opens {
			out = append(out, engine.Outcome{Res: []engine.Val{{e.Nil()}, {e.NonNilErr("no such library")}}})
			out[0].Res[0] = engine.Val{e.Sym("opened library", resType(ev, 0))}
		}
		return out
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind == "return" && x.G.Auto["unread"] == "1" {
			if len(x.Res) > 1 && e.IsNonNil(x.G, x.Res[len(x.Res)-1]) {
				continue // reported; the caller is looked at separately
			}
			c.Fail("library-read", con, c.P.InstrPos(x.At), "the packages of a library that could not be read are reported as not installed", x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Min("library-read", n, 1, "readings of the library")
}
