package checks

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C11", "Abstract interpretation of the package selection under every combination of customised repository, customised type, repository default and availability.", c11)
}

const fnGetPackage = "(*cran.PkgNexus).GetPackage"

func c11(c *C) {
	c.Rule("selection", "for every combination of settings, the selection takes the first repository in order that is allowed for the package and offers it in the type that applies, and reports the repository and type it took it from")
	c.Rule("not-found", "a package is reported missing only when no repository qualifies")
	c.Rule("order", "the database of the n-th configured repository is the n-th searched, whatever the order in which the downloads end")
	c.Rule("default", "the type offered by a repository is the one configured for it, else the default of the run; its address, name and suffix are the configured ones")
	c.Rule("settings", "a customised repository or type is recorded for the package it names, and an unknown one is an error")

	fn := c.Fn(fnGetPackage)
	n := 0
	for cfg := 0; cfg < 9; cfg++ { // customised?, type (0,1,2) x repo (none, this, other)
		var has bool
		var ctype int64
		repo := "" // "", "this", or another name
		switch cfg {
		case 0:
		case 1:
			has, ctype = true, 1
		case 2:
			has, ctype = true, 2
		case 3:
			has, repo = true, "this"
		case 4:
			has, repo = true, "Name"
		case 5:
			has, ctype, repo = true, 1, "this"
		case 6:
			has, ctype, repo = true, 2, "this"
		case 7:
			has, ctype, repo = true, 2, "NAME2"
		case 8:
			has, repo = true, "AM"
		}
		for _, ndef := range []int64{1, 2} {
			for _, rdef := range []int64{0, 1, 2} {
				for avail := 0; avail < 4; avail++ {
					n++
					c11one(c, fn, has, ctype, repo, ndef, rdef, avail&1 != 0, avail&2 != 0)
				}
			}
		}
	}
	c.Min("selection", n, 216, "settings combinations evaluated")
	c11order(c)
	c11default(c)
	c11settings(c)
}

func c11one(c *C, fn *ssa.Function, has bool, ctype int64, repo string, ndef, rdef int64, inSrc, inBin bool) {
	want := ndef
	switch {
	case ctype != 0:
		want = ctype
	case rdef != 0:
		want = rdef
	}
	avail := map[int64]bool{1: inSrc, 2: inBin}
	found := avail[want] && (repo == "" || repo == "this")
	what := fmt.Sprintf("customised=%v type=%d repo=%q default=%d repository default=%d source=%v binary=%v", has, ctype, repo, ndef, rdef, inSrc, inBin)
	e := c.Eng()
	isDb := func(t *engine.Term) bool {
		t = deref(t)
		return t.Op == "elem" && isField(t.Args[0], "Db")
	}
	isCfg := func(t *engine.Term) bool {
		m, _ := lookupOf(t)
		return engine.Strip(t).Op != "haskey" && m != nil && isField(m, "Packages")
	}
	m := &Model{}
	m.Atom = func(t *engine.Term) (any, bool) {
		if mp, k := lookupOf(t); mp != nil && t.Op == "haskey" {
			if isField(mp, "Packages") {
				return has, true
			}
			if db, st := lookupOf(mp); db != nil && chain(db, isDb, "DescriptionsBySourceType") && k.Op == "param" {
				if v, ok := m.Eval(st); ok {
					return avail[v.(int64)], true
				}
			}
			if chain(mp, isDb, "DescriptionsBySourceType") {
				return true, true
			}
		}
		switch {
		case chain(t, isCfg, "Type"):
			return ctype, true
		case chain(t, isCfg, "Repo", "Name"):
			switch repo {
			case "this":
				return "NAME", true
			}
			return repo, true
		case chain(t, isDb, "Repo", "Name"):
			return "NAME", true
		case chain(t, isDb, "DefaultSourceType"):
			return rdef, true
		case t.Op == "field" && t.Str == "DefaultSourceType":
			return ndef, true
		}
		return nil, false
	}
	m.Use(e)
	if found {
		e.BackEdge = func(f *ssa.Function, h *ssa.BasicBlock, g *engine.G) {
			if f == fn || f.Parent() == fn {
				c.Fail("selection", c.P.FnName(fn), c.P.FnName(f), "a repository that qualifies is passed over: "+what, nil)
			}
		}
	}
	each := newEach(e)
	each.Track("db", func(t *engine.Term) bool { return isField(t, "Db") })
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	c.Obl("selection", c.P.FnName(fn))
	c.Obl("not-found", c.P.FnName(fn))
	ok := 0
	for _, x := range xs {
		if x.Kind != "return" {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "ends with "+x.Kind+": "+what, nil)
			continue
		}
		if len(x.Res) != 3 {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "the result shape changed", nil)
			continue
		}
		if e.IsFalse(x.G, x.Res[2]) {
			if found && x.G.Auto["all:db"] != "1" {
				c.Fail("not-found", c.P.FnName(fn), c.P.InstrPos(x.At), "reported missing although a repository qualifies: "+what, nil)
			}
			continue
		}
		if !e.IsTrue(x.G, x.Res[2]) {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "undecided result: "+what, nil)
			continue
		}
		ok++
		if !found {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "a package is taken although no repository qualifies: "+what, nil)
			continue
		}
		var from *engine.Term
		d := x.Res[0].All(func(t *engine.Term) bool {
			mp, k := lookupOf(t)
			if mp == nil || k.Op != "param" {
				return false
			}
			db, st := lookupOf(mp)
			if db == nil || !chain(db, isDb, "DescriptionsBySourceType") {
				return false
			}
			from = deref(db.Args[0])
			v, k2 := m.Eval(st)
			return k2 && v == any(want)
		})
		if !d {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "the description returned is not the package's entry of the type that applies, but "+short(e.SV(x.Res[0]))+": "+what, nil)
			continue
		}
		ty, k := m.EvalVal(e.FieldOf(x.G, x.Res[1], "Type"))
		if !k || ty != any(want) {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), fmt.Sprintf("the type reported is %v, the one that applies is %d: %s", ty, want, what), nil)
		}
		if !e.FieldOf(x.G, x.Res[1], "Repo").All(func(t *engine.Term) bool {
			return chain(t, func(b *engine.Term) bool { return b == from }, "Repo")
		}) {
			c.Fail("selection", c.P.FnName(fn), c.P.InstrPos(x.At), "the repository reported is not the one the package was found in: "+short(e.SV(x.Res[1])), nil)
		}
	}
	if found && ok == 0 {
		c.Fail("not-found", c.P.FnName(fn), "", "never found although a repository qualifies: "+what, nil)
	}
}

func c11order(c *C) {
	fn := c.Fn("cran.NewPkgDb")
	e := c.Eng()
	e.Relevant = rel(`^cran\.NewRepoDb$`)
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == "cran.NewRepoDb" {
			return []engine.Outcome{{Res: []engine.Val{{e.T("call", "repodb", resType(ev, 0), ev.Arg(0)...)}, {e.Sym("fetch error", resType(ev, 1))}}}}
		}
		return nil
	}
	n := 0
	e.SplitRecv = func(_ ssa.Instruction, _ *engine.Ctx, v *engine.Term, g *engine.G) { g.Auto["received"] = v.Op }
	e.StoreHook = func(ev *engine.Ev, addr, val engine.Val) {
		for _, v := range val {
			w := engine.Strip(v)
			if w.Op != "call" || w.Str != "repodb" {
				continue
			}
			for _, a := range addr {
				if a.Op != "iaddr" {
					continue
				}
				n++
				at := "database stored in " + c.P.FnName(ev.Fn())
				c.Obl("order", at)
				u := engine.Strip(w.Args[0])
				if u.Op != "elem" || len(u.Args) < 2 || engine.Strip(u.Args[1]) != engine.Strip(a.Args[1]) {
					c.Fail("order", at, where(ev), "the database of "+short(e.S(u))+" is stored at index "+short(e.S(a.Args[1])), ev.G.Path(6))
				}
			}
		}
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("order", n, 1, "stores of a repository's database")
}

// c11default runs the making of a repository's database.
func c11default(c *C) {
	fn := c.Fn(fnNewRepo)
	con := c.P.FnName(fn)
	param := func(typ string) string {
		for _, p := range fn.Params {
			if isNamed(typ)(p.Type()) {
				return p.Name()
			}
		}
		return "?"
	}
	rc, def, url := param("cran.RepoConfig"), param("cran.SourceType"), param("cran.RepoURL")
	of := func(name string) func(*engine.Term) bool {
		return func(t *engine.Term) bool { return t.Op == "param" && t.Str == name }
	}
	n := 0
	for _, run := range []int64{1, 2} {
		for _, own := range []int64{0, 1, 2} {
			for _, suffix := range []string{"", "sfx"} {
				what := fmt.Sprintf(" (default %d, configured %d, suffix %q)", run, own, suffix)
				e := c.Eng()
				e.Opaque["(*cran.RepoDb).FetchPackages"] = true
				m := &Model{Atom: func(t *engine.Term) (any, bool) {
					switch {
					case chain(t, of(rc), "DefaultSourceType"):
						return own, true
					case chain(t, of(rc), "RepoSuffix"):
						return suffix, true
					case chain(t, of(url), "Suffix"):
						return suffix, true
					case of(def)(engine.Strip(t)):
						return run, true
					}
					return nil, false
				}}
				m.Use(e)
				want := run
				if own != 0 {
					want = own
				}
				for _, x := range e.Run(fn, e.Start()) {
					if x.Kind != "return" {
						continue
					}
					n++
					c.Obl("default", con)
					at := c.P.InstrPos(x.At)
					db := e.Load(x.G, x.Res[0])
					if v, ok := m.EvalVal(e.FieldOf(x.G, db, "DefaultSourceType")); !ok || v != any(want) {
						c.Fail("default", con, at, "the type is "+short(e.SV(e.FieldOf(x.G, db, "DefaultSourceType")))+what, nil)
					}
					if v, ok := m.EvalVal(e.FieldOf(x.G, db, "RepoSuffix")); !ok || v != any(suffix) {
						c.Fail("default", con, at, "the suffix is "+short(e.SV(e.FieldOf(x.G, db, "RepoSuffix")))+what, nil)
					}
					for _, f := range []string{"Name", "URL"} {
						if v := e.FieldOf(x.G, db, "Repo."+f); !v.All(func(t *engine.Term) bool { return chain(t, of(url), f) }) {
							c.Fail("default", con, at, "the "+f+" is "+short(e.SV(v))+what, nil)
						}
					}
				}
				c.Absorb(e)
			}
		}
	}
	c.Min("default", n, 12, "databases made")
}

func c11settings(c *C) {
	for _, s := range []struct{ fn, field string }{{"(*cran.PkgNexus).SetPackageRepo", "Repo"}, {"(*cran.PkgNexus).SetPackageType", "Type"}} {
		fn := c.Fn(s.fn)
		e := c.Eng()
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name == "mapstore" && ev.Arg(0).All(func(t *engine.Term) bool { return isField(t, "Packages") }) {
				ev.G.Auto["stored"] = "1"
				at := c.P.FnName(fn) + " stores"
				c.Obl("settings", at)
				if !ev.Arg(1).All(func(t *engine.Term) bool {
					return engine.Strip(t).Op == "param" && engine.Strip(t).Str == fn.Params[1].Name()
				}) {
					c.Fail("settings", at, where(ev), "the setting is stored for "+short(e.SV(ev.Arg(1))), nil)
				}
				v := e.FieldOf(ev.G, ev.Arg(2), s.field)
				if s.field == "Repo" {
					if !v.All(func(t *engine.Term) bool {
						return chain(t, func(b *engine.Term) bool { return b.Op == "elem" && isField(b.Args[0], "Db") }, "Repo")
					}) {
						c.Fail("settings", at, where(ev), "the repository stored is "+short(e.SV(v)), nil)
					} else if !factKnown(ev.G, true, func(t *engine.Term) bool {
						return t.Op == "bin" && t.Str == "==" && chain(engine.Strip(t.Args[0]), nil, "Repo", "Name") != chain(engine.Strip(t.Args[1]), nil, "Repo", "Name")
					}) {
						c.Fail("settings", at, where(ev), "the repository stored was not compared with the name asked for", nil)
					}
				} else {
					if !v.All(func(t *engine.Term) bool { i, ok := t.ConstInt(); return ok && (i == 1 || i == 2) }) {
						c.Fail("settings", at, where(ev), "the type stored is "+short(e.SV(v)), nil)
					}
				}
				// the other setting is kept
				other := map[string]string{"Repo": "Type", "Type": "Repo"}[s.field]
				ov := e.FieldOf(ev.G, ev.Arg(2), other)
				if !ov.All(func(t *engine.Term) bool {
					return chain(t, func(b *engine.Term) bool { m, _ := lookupOf(b); return m != nil && isField(m, "Packages") }, other)
				}) {
					c.Fail("settings", at, where(ev), "the other customisation of the package is lost: "+short(e.SV(ov)), nil)
				}
			}
			return nil
		}
		nok := 0
		for _, x := range e.Run(fn, e.Start()) {
			if x.Kind != "return" {
				continue
			}
			at := c.P.FnName(fn) + " return"
			c.Obl("settings", at)
			if e.IsNil(x.G, x.Res[0]) {
				nok++
				if x.G.Auto["stored"] != "1" {
					c.Fail("settings", at, c.P.InstrPos(x.At), "no error although nothing was recorded", nil)
				}
			} else if !e.IsNonNil(x.G, x.Res[0]) {
				c.Fail("settings", at, c.P.InstrPos(x.At), "the error is undecided: "+short(e.SV(x.Res[0])), nil)
			}
		}
		c.Absorb(e)
		c.Min("settings", nok, 1, "successful returns of "+s.fn)
	}
	c11types(c)
}

// c11types runs the recording of a type on names of types: "source" and
// "binary" in any case are what they say, and nothing else is a type.
func c11types(c *C) {
	fn := c.Fn("(*cran.PkgNexus).SetPackageType")
	con := c.P.FnName(fn) + " on names"
	for _, name := range []string{"source", "Source", "SOURCE", "binary", "Binary", "BINARY", "bin", "sources", "src", "both", "default"} {
		want := map[string]int64{"source": 1, "binary": 2}[strings.ToLower(name)]
		e := c.Eng()
		m := &Model{Atom: func(t *engine.Term) (any, bool) {
			if t.Op == "param" && t.Str == fn.Params[2].Name() {
				return name, true
			}
			return nil, false
		}}
		m.Use(e)
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name == "mapstore" && ev.Arg(0).All(func(t *engine.Term) bool { return isField(t, "Packages") }) {
				v, ok := m.EvalVal(e.FieldOf(ev.G, ev.Arg(2), "Type"))
				if want == 0 || !ok || v != any(want) {
					c.Fail("settings", con, where(ev), fmt.Sprintf("the type %q is recorded as %s", name, short(e.SV(e.FieldOf(ev.G, ev.Arg(2), "Type")))), nil)
				}
			}
			return nil
		}
		c.Obl("settings", con)
		for _, x := range e.Run(fn, e.Start()) {
			if x.Kind == "return" && e.IsNil(x.G, x.Res[0]) != (want != 0) {
				c.Fail("settings", con, c.P.InstrPos(x.At), fmt.Sprintf("the type %q: the error is %s", name, short(e.SV(x.Res[0]))), nil)
			}
		}
		c.Absorb(e)
	}
}
