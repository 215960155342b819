package checks

import (
	"fmt"
	"path"

	"verif/engine"
)

func init() {
	register("C39", "Abstract interpretation of staging and of the scan of the library with paths evaluated as texts, for every combination of what an interrupted run left behind.", c39)
}

// c39 checks that a run copes with what an interrupted one left in the library.
func c39(c *C) {
	c.Rule("staged", "a package is moved aside even if a saved copy of it is left over from an earlier run")
	c.Rule("only-copy", "a saved copy is only removed while the package itself is there")
	c.Rule("not-installed", "a saved copy is not taken for an installed package, which every other folder with a DESCRIPTION is")

	backups := map[string]bool{}
	for _, active := range []bool{true, false} {
		for _, leftover := range []bool{true, false} {
			for _, name := range []string{"(*rollback.RollbackPlan).PreparePackagesForUpdate", "(*rollback.RollbackPlan).PrepareAdditionalPackagesForOverwrite"} {
				c39stage(c, name, active, leftover, backups)
			}
		}
	}
	c.Min("staged", len(backups), 1, "names of saved copies")
	for b := range backups {
		c39scan(c, b, false)
	}
	c39scan(c, "pkg", true)
	c39scan(c, "old", true)
}

func c39stage(c *C, name string, active, leftover bool, backups map[string]bool) {
	const lib, act = "/lib", "/lib/pkg"
	fn := c.Fn(name)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^rollback\.|^\(\*rollback\.|Exists$|Stat$`, mutatingFS)
	tx := &Text{M: &Model{Atom: func(t *engine.Term) (any, bool) {
		t = engine.Strip(e.Unprev(engine.Strip(t)))
		switch {
		case t.Op == "param" && isString(t.Type), isField(t, "Library"):
			return lib, true
		case isField(t, "Package"):
			return "pkg", true
		case t.Op == "key" && containsField(t, "AdditionalPackageSources"):
			return "pkg", true
		case isMember(t, func(*engine.Term) bool { return true }):
			return true, true
		case t.Op == "haskey" && isField(deref(t.Args[0]), "PreinstalledPackages"):
			return true, true
		}
		return nil, false
	}}}
	tx.Use(e)
	each := newEach(e)
	each.Track("packages", func(t *engine.Term) bool {
		t = deref(t)
		return isField(t, "AdditionalPackageSources") || t.Op != "param" && !isStrings(t.Type)
	})
	tag := fmt.Sprintf("installed %v, saved copy left over %v", active, leftover)
	removed := func(g *engine.G, p string) bool { return g.Auto["did:removed "+p] != "" }
	renames := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		norm := func(v engine.Val) string {
			var u engine.Val
			for _, t := range v {
				u = append(u, e.Unprev(engine.Strip(t)))
			}
			s, ok := tx.NormVal(u)
			if !ok {
				return ""
			}
			return path.Clean(s)
		}
		if hasSuffix(ev.Name, "Exists") || hasSuffix(ev.Name, ".Stat") || hasSuffix(ev.Name, ".Lstat") {
			if ev.Callee != nil && c.P.InModule(ev.Callee) {
				return nil
			}
			p := ""
			for i, a := range ev.Args {
				if i == 0 && !a.All(func(t *engine.Term) bool { return t.Type == nil || isString(t.Type) }) {
					continue
				}
				p = norm(a)
			}
			there := p == act && active && ev.G.Auto["did:moved"] == "" || p != act && leftover && !removed(ev.G, p)
			if p == "" {
				return nil
			}
			if ev.Sig.Results().Len() == 2 && ev.Sig.Results().At(0).Type().String() == "bool" {
				return []engine.Outcome{{Res: []engine.Val{{e.Bool(there)}, {e.Nil()}}}}
			}
			o := okFail(ev, nil, nil)
			if there {
				return o[:1]
			}
			return o[1:]
		}
		for _, f := range fsEffects(ev) {
			p := norm(f.Path)
			switch f.Kind {
			case "remove", "removeall":
				c.Obl("only-copy", con)
				if p == "" || p == lib || p == act {
					c.Fail("only-copy", con, where(ev), "removes "+short(e.SV(f.Path)), ev.G.Path(8))
				} else if !active || ev.G.Auto["did:moved"] != "" {
					c.Fail("only-copy", con, where(ev), "the saved copy is removed although the package is not there ("+tag+")", ev.G.Path(8))
				}
				return okFail(ev, map[string]string{"did:removed " + p: "1"}, map[string]string{"did:stuck": "1"})
			case "rename":
				to := norm(f.To)
				if p != act || to == "" || to == act {
					c.Fail("staged", con, where(ev), "moves "+short(e.SV(f.Path))+" to "+short(e.SV(f.To)), ev.G.Path(8))
					return okFail(ev, nil, nil)
				}
				renames++
				backups[path.Base(to)] = true
				c.Obl("staged", con)
				if active && leftover && !removed(ev.G, to) && ev.G.Auto["did:stuck"] == "" {
					c.Fail("staged", con, where(ev), "the package is moved to "+to+", where the saved copy of an interrupted run is in the way", ev.G.Path(8))
				}
				return okFail(ev, map[string]string{"did:moved": "1"}, nil)
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	if active {
		c.Min("staged", renames, 1, "packages moved aside by "+name+" ("+tag+")")
	}
}

func c39scan(c *C, folder string, want bool) {
	fn := c.Fn("pacman.GetPriorInstalledPackages")
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^pacman\.`)
	e.Opaque["desc.ParseDesc"] = true
	listing := func(t *engine.Term) bool {
		return t.Contains(func(y *engine.Term) bool {
			return y.Op == "call" && (hasSuffix(y.Str, "ListDirNames") || hasSuffix(y.Str, ".Readdirnames") || hasSuffix(y.Str, ".Readdir") || hasSuffix(y.Str, "ReadDir") || hasSuffix(y.Str, ".Glob"))
		})
	}
	tx := &Text{M: &Model{Atom: func(t *engine.Term) (any, bool) {
		t = engine.Strip(e.Unprev(engine.Strip(t)))
		switch {
		case t.Op == "call" && hasSuffix(t.Str, ".Name") && listing(t):
			return folder, true
		case t.Op == "call" && hasSuffix(t.Str, ".IsDir") && listing(t):
			return true, true
		case t.Op == "elem" && isString(t.Type) && listing(t):
			return folder, true
		case isField(t, "Package"):
			return "pkg", true
		}
		return nil, false
	}}}
	tx.Use(e)
	stored := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch {
		case ev.Name == "mapstore" && isDescMap(ev.Arg(0)[0].Type):
			c.Obl("not-installed", con)
			stored++
			if !want {
				c.Fail("not-installed", con, where(ev), "the saved copy "+folder+" is taken for an installed package", ev.G.Path(8))
			}
		case errIndex(ev) >= 0 && (ev.Callee == nil || !c.P.InModule(ev.Callee) || ev.Name == "desc.ParseDesc"):
			return okFail(ev, nil, nil)
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Obl("not-installed", con)
	if want {
		c.Min("not-installed", stored, 1, "folders taken for installed packages")
	}
}
