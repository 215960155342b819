package checks

import (
	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C27", "Abstract interpretation of the install command and of the installation plan: what is passed on from the planning to the downloads, the installations and the listed tarballs, for every element of every list gone through.", c27)
}

func c27(c *C) {
	c.Rule("plan-passed", "the install command downloads exactly the packages of the plan just made, and runs that plan with what was downloaded, for the configured library")
	c.Rule("tarballs", "every tarball of the plan is installed from where it was unpacked, under its own name and to the configured library, whether or not the plan or another tarball failed")
	c.Rule("request", "a package is installed with what was downloaded for it and with the settings, cache and arguments given to the plan")
	c.Rule("waiting", "each package that waits for others is found under every one of them once they are installed")
	c27command(c)
	c27request(c)
	c27inverse(c)
}

// c27command follows what the planning returned through the install command.
func c27command(c *C) {
	of := func(t *engine.Term, name string) bool {
		return engine.Strip(t).Op == "param" && engine.Strip(t).Str == name
	}
	part := func(t *engine.Term, name, field string) bool {
		t = engine.Strip(t)
		return t.Op == "field" && t.Str == field && of(t.Args[0], name)
	}
	argOf := func(ev *engine.Ev, typ string) engine.Val {
		for i := 0; i < ev.Sig.Params().Len() && i < len(ev.Args); i++ {
			if isNamed(typ)(ev.Sig.Params().At(i).Type()) {
				return ev.Arg(i)
			}
		}
		return nil
	}
	// the configured library, made absolute
	library := func(v engine.Val) bool {
		return len(v) > 0 && v.All(func(t *engine.Term) bool {
			t = engine.Strip(t)
			for t.Op == "res" || t.Op == "call" && t.Str == "path/filepath.Abs" {
				t = engine.Strip(t.Args[0])
			}
			return isField(t, "Library") && !t.Contains(func(x *engine.Term) bool { return x.Op == "param" })
		})
	}
	isTars := func(t *engine.Term) bool { return part(t, "plan", "AdditionalPackageSources") }
	isTarName := func(t *engine.Term) bool {
		t = engine.Strip(t)
		for t.Op == "prev" {
			t = t.Args[0]
		}
		return t.Op == "key" && isTars(t.Args[0])
	}
	nd, np, nt := 0, 0, 0
	var each *Each
	_, xs := installWorld(c, func(e *engine.Eng) {
		each = newEach(e)
		each.Track("tars", isTars)
		each.Track("names", func(t *engine.Term) bool { // a list of their names made first
			return (t.Op == "list" || t.Op == "vlist") && len(t.Args) > 0 && isTarName(t.Args[0])
		})
		each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
			c.Obl("tarballs", "each tarball")
			if key == "tars" && g.Auto["did:tars:kept"] == "1" {
				g.Auto["by-name"] = "1"
				return
			}
			if g.Auto["did:"+key] != "1" && g.Auto["trouble"] != "1" {
				c.Fail("tarballs", "each tarball", at, "a tarball can be passed over", g.Path(10))
			}
		}
	}, func(ev *engine.Ev) []engine.Outcome {
		e, g := ev.E, ev.G
		at := ev.Name + " from " + c.P.FnName(ev.Fn())
		switch ev.Name {
		case "append":
			if ev.Arg(1).Any(func(t *engine.Term) bool { return t.Op == "vlist" && len(t.Args) == 1 && isTarName(t.Args[0]) }) {
				g.Auto["did:tars:kept"] = "1"
			}
		case "path/filepath.Abs":
			// of no interest here: that it fails is C04's subject
			return []engine.Outcome{{Res: []engine.Val{{e.T("call", ev.Name, resType(ev, 0), e.Alt(ev.Arg(0)))}, {e.Nil()}}},
				{Res: []engine.Val{{e.Str("")}, {e.NonNilErr("abs")}}, Set: map[string]string{"trouble": "1"}}}
		case fnDownload:
			nd++
			c.Obl("plan-passed", at)
			list := engine.Val(nil)
			for i := range ev.Args {
				for _, t := range ev.Arg(i) {
					if part(t, "plan", "PackageDownloads") {
						list = ev.Arg(i)
					}
				}
			}
			if len(list) != 1 {
				c.Fail("plan-passed", at, where(ev), "what is downloaded is not the list of the plan", g.Path(8))
			}
			return []engine.Outcome{
				{Res: []engine.Val{{e.Sym("downloaded", resType(ev, 0))}, {e.Nil()}}, Set: map[string]string{"downloaded": "1"}},
				{Res: []engine.Val{{e.Sym("partly", resType(ev, 0))}, {e.NonNilErr("download")}}}}
		case fnPlan:
			np++
			c.Obl("plan-passed", at)
			if p := argOf(ev, "InstallPlan"); len(p) != 1 || !of(p[0], "plan") {
				c.Fail("plan-passed", at, where(ev), "runs "+short(e.SV(p))+" instead of the plan just made", g.Path(8))
			}
			if p := argOf(ev, "PkgMap"); len(p) != 1 || !of(p[0], "downloaded") {
				c.Fail("plan-passed", at, where(ev), "runs with "+short(e.SV(p))+" instead of what was downloaded for the plan", g.Path(8))
			}
			if l := e.FieldOf(g, argOf(ev, "InstallArgs"), "Library"); g.Auto["trouble"] == "" && !library(l) {
				c.Fail("plan-passed", at, where(ev), "installs to "+short(e.SV(l))+" instead of the configured library", g.Path(8))
			}
		case fnInstall:
			nt++
			c.Obl("tarballs", at)
			g.Auto["did:tars"] = "1"
			g.Auto["did:names"] = "1"
			g.Auto["installed"] = "1"
			bad := ""
			from := func(t *engine.Term) bool {
				t = e.Unprev(engine.Strip(t))
				for t.Op == "call" && t.Str == "path/filepath.Abs" {
					t = e.Unprev(engine.Strip(t.Args[0]))
				}
				return isField(t, "InstallPath") && t.Contains(func(x *engine.Term) bool { return isTars(x) })
			}
			if !ev.Arg(1).All(isTarName) {
				bad = "installs it under the name " + short(e.SV(ev.Arg(1)))
			}
			if g.Auto["trouble"] == "" && !ev.Arg(2).All(from) {
				bad = "installs it from " + short(e.SV(ev.Arg(2)))
			}
			if l := e.FieldOf(g, argOf(ev, "InstallArgs"), "Library"); g.Auto["trouble"] == "" && !library(l) {
				bad = "installs it to " + short(e.SV(l))
			}
			if bad != "" {
				c.Fail("tarballs", at, where(ev), bad, g.Path(8))
			}
		case fnRollback:
			return okFail(ev, nil, nil)
		}
		return nil
	})
	c.Min("plan-passed", nd, 1, "downloads in the install command")
	c.Min("plan-passed", np, 1, "installation plans run by the install command")
	c.Min("tarballs", nt, 1, "installations of tarballs")
	for _, x := range xs {
		if x.Kind != "return" || x.G.Auto["planned"] != "1" || x.G.Auto["trouble"] == "1" {
			continue
		}
		c.Obl("tarballs", "end of the command")
		none := factKnown(x.G, true, func(t *engine.Term) bool { return t.Op == "empty" && isTars(t.Args[0]) })
		a := x.G.Auto
		// a list of one or two names is followed without a loop
		byName := a["by-name"] != "1" || a["all:names"] == "1" || a["installed"] == "1" && a["in:names"] == ""
		if (a["all:tars"] != "1" || !byName) && !none {
			c.Fail("tarballs", "end of the command", c.P.InstrPos(x.At), "the command can end without having gone through the tarballs of the plan", x.G.Path(12))
		}
	}
}

// c27request checks what a package is installed with.
func c27request(c *C) {
	fn := c.Fn(fnPlan)
	e := c.Eng()
	e.MaxParts = 400
	e.Relevant = rel(`^rcmd\.InstallThroughBinary$|InstallQueue|Worker\)|^rcmd\.New`)
	for _, n := range []string{fnTwoPhase, "(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies", "(*cran.PkgMap).Get"} {
		e.Opaque[n] = true
	}
	n, ni := 0, 0
	var request *engine.Term
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, val *engine.Term, g *engine.G) {
		if recvKind(val) == "request" {
			request = val
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		switch {
		case ev.Name == "send" && recvKind(ev.Arg(1)[0]) == "request":
			n++
			at := "request to install"
			c.Obl("request", at)
			r := ev.Arg(1)
			name := e.FieldOf(g, r, "Package")
			for f, typ := range map[string]string{"InstallArgs": "InstallArgs", "RSettings": "RSettings", "ExecSettings": "ExecSettings", "Cache": "PackageCache"} {
				v := e.FieldOf(g, r, f)
				c.Need(len(v) == 1 && v[0].Op == "param" && isNamed(typ)(v[0].Type), "request", f+" of a request", where(ev), "is "+short(e.SV(v))+", not what the plan was given")
			}
			m := e.FieldOf(g, r, "Metadata")
			got := m.All(func(t *engine.Term) bool {
				t = engine.Strip(t)
				if t.Op == "res" {
					t = engine.Strip(t.Args[0])
				}
				return t.Op == "call" && hasSuffix(t.Str, "PkgMap).Get") && len(t.Args) == 2 && name.Any(func(p *engine.Term) bool { return p == t.Args[1] })
			})
			c.Need(got && len(name) == 1, "request", "Metadata of a request", where(ev), "is "+short(e.SV(m))+" for package "+short(e.SV(name)))
		case ev.Name == fnTwoPhase:
			ni++
			at := "installation by a worker"
			c.Obl("request", at)
			whole := false
			for i := range ev.Args {
				if isNamed("InstallRequest")(ev.Sig.Params().At(i).Type()) {
					whole = ev.Arg(i).All(func(t *engine.Term) bool {
						return request != nil && e.Unprev(engine.Strip(t)).Op == "recv" || t == request
					})
				}
			}
			c.Need(whole, "request", at, where(ev), "a worker does not install the request it took")
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("request", n, 1, "requests pushed to the queue")
	c.Min("request", ni, 1, "installations by workers")
}

// c27inverse checks that the table of waiting packages is complete.
func c27inverse(c *C) {
	fn := c.Fn("(*gpsr.InstallPlan).InvertDependencies")
	e := c.Eng()
	e.Relevant = func(string) bool { return true }
	deps := func(t *engine.Term) bool {
		return isField(t, "DepDb") || t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Str == "DepDb"
	}
	inner := func(t *engine.Term) bool {
		t = e.Unprev(engine.Strip(t))
		return (t.Op == "val" || t.Op == "lookup") && deps(t.Args[0])
	}
	each := newEach(e)
	each.Track("packages", deps)
	each.Track("needs", inner)
	at := "table of waiting packages"
	each.Iter = func(key string, _ *engine.Term, g *engine.G, pos string) {
		c.Obl("waiting", at)
		switch key {
		case "needs":
			if g.Auto["did:needs"] != "1" {
				c.Fail("waiting", at, pos, "a package is not entered under one of its dependencies; it may never be installed", g.Path(8))
			}
		case "packages":
			if g.Auto["all:needs"] != "1" {
				c.Fail("waiting", at, pos, "the dependencies of a package are not all gone through", g.Path(8))
			}
			delete(g.Auto, "all:needs")
		}
	}
	grows := false
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != "mapstore" {
			return nil
		}
		key := ev.Arg(1).All(func(t *engine.Term) bool {
			t = e.Unprev(engine.Strip(t))
			return t.Op == "elem" && inner(t.Args[0])
		})
		val := ev.Arg(2).Any(func(t *engine.Term) bool {
			return t.Contains(func(x *engine.Term) bool { return x.Op == "key" && deps(x.Args[0]) })
		})
		if key && val {
			n++
			ev.G.Auto["did:needs"] = "1"
			if ev.Arg(2).Any(func(t *engine.Term) bool {
				return t.Op == "list" || t.Op == "vlist" && len(t.Args) > 1 || t.Op == "make"
			}) {
				grows = true
			}
		}
		return nil
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("waiting", n, 1, "entries in the table of waiting packages")
	c.Need(grows, "waiting", "packages that wait for the same one", c.P.FnName(fn), "only the last package that waits for another is kept")
	for _, x := range xs {
		if x.Kind == "return" && x.G.Auto["all:packages"] != "1" {
			c.Fail("waiting", at, c.P.InstrPos(x.At), "the table can be returned before all packages were gone through", x.G.Path(8))
		}
	}
}
