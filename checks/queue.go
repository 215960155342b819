package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

const fnTwoPhase = "rcmd.InstallThroughBinary"

func init() {
	register("C04", "Abstract interpretation of one package installation and of the installation plan: every way an installation can fail is followed to the error that reports it.", c04)
	register("C05", "Abstract interpretation of the installation plan's scheduler: what must hold at each request to install a package.", c05)
	register("C06", "Abstract interpretation of the three kinds of goroutine of the installation queue, counting wait-group operations, requests and updates on every path.", c06)
}

// runsCommand recognises the call that runs an external command to its end.
func runsCommand(n string) bool {
	switch n {
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Wait":
		return true
	}
	return false
}

func c04(c *C) {
	c.Rule("success-means-ran", "the single-package install returns no error only on paths where the R command ran and reported success")
	c.Rule("failure-means-error", "where the working directory or package file is missing, or the R command failed, an error is returned")
	c.Rule("two-phase-failure", "the two-phase install returns no error only if every install command it ran succeeded, the last of them to the library, or the package was there already")
	c.Rule("plan-failure", "when any package's update reports an error, the installation plan ends with an error")
	c.Rule("worker-reports", "the update a worker sends carries the error, result and package of the request it handled")
	c.Rule("named", "the package of every update that reports an error is kept or logged by name")

	// one R CMD INSTALL
	fn := c.Fn(fnInstall)
	e := c.Eng()
	e.Relevant = rel(`^\(\*os/exec\.Cmd\)|^os/exec\.`)
	for _, n := range []string{"(rcmd.InstallArgs).CliArgs", "rcmd.configureEnv", "rcmd.writeDescriptionInfo"} {
		e.Opaque[n] = true
	}
	runs := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if runsCommand(ev.Name) {
			runs++
			return okFail(ev, map[string]string{"ran": "ok"}, map[string]string{"ran": "fail"})
		}
		return nil
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("success-means-ran", runs, 1, "commands run by the single-package install")
	ie := errResult(fn)
	for _, x := range xs {
		if x.Kind != "return" {
			continue
		}
		at := c.P.FnName(fn) + " return"
		c.Obl("success-means-ran", at)
		if e.IsNonNil(x.G, x.Res[ie]) {
			continue
		}
		switch x.G.Auto["ran"] {
		case "ok":
		case "fail":
			c.Fail("failure-means-error", at, c.P.InstrPos(x.At), "the R command failed and no error is returned", x.G.Path(8))
		default:
			c.Fail("success-means-ran", at, c.P.InstrPos(x.At), "the R command was not run and the error can be nil: "+short(e.SV(x.Res[ie])), x.G.Path(8))
		}
	}

	// the two-phase install
	fn = c.Fn(fnTwoPhase)
	e = c.Eng()
	e.Relevant = rel(`^rcmd\.Install$`)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnInstall {
			n++
			lib := "scratch"
			for i := range ev.Args {
				if ev.Sig.Params().Len() > i && isNamed("InstallArgs")(ev.Sig.Params().At(i).Type()) &&
					e.FieldOf(ev.G, ev.Arg(i), "Library").Any(func(t *engine.Term) bool { return containsField(t, "Library") }) {
					lib = "final"
				}
			}
			return installOutcomes(ev, map[string]string{"did": lib}, map[string]string{"failed": "1"})
		}
		return nil
	}
	xs = e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("two-phase-failure", n, 2, "install commands in the two-phase install")
	ie = errResult(fn)
	for _, x := range xs {
		if x.Kind != "return" {
			continue
		}
		at := c.P.FnName(fn) + " return"
		c.Obl("two-phase-failure", at)
		if e.IsNonNil(x.G, x.Res[ie]) {
			continue
		}
		if x.G.Auto["failed"] == "1" {
			c.Fail("two-phase-failure", at, c.P.InstrPos(x.At), "an install command failed and the error can be nil: "+short(e.SV(x.Res[ie])), x.G.Path(8))
		}
		if x.G.Auto["did"] == "scratch" {
			c.Fail("two-phase-failure", at, c.P.InstrPos(x.At), "success is reported although the package was only built, not installed to the library: "+short(e.SV(x.Res[ie])), x.G.Path(8))
		}
		if x.G.Auto["did"] == "" {
			here := factKnown(x.G, true, func(t *engine.Term) bool {
				return t.Contains(func(x *engine.Term) bool {
					return x.Op == "call" && (hasSuffix(x.Str, ".DirExists") || hasSuffix(x.Str, ".Exists"))
				}) &&
					containsField(t, "Library")
			})
			if !here {
				c.Fail("two-phase-failure", at, c.P.InstrPos(x.At), "success is reported although nothing was installed and the package was not found in the library", x.G.Path(8))
			}
		}
	}

	// the plan
	ps := planRun(c)
	nf := 0
	for _, x := range ps {
		at := "exit (" + x.Kind + ") of the installation plan"
		c.Obl("plan-failure", at)
		if x.G.Auto["failed"] != "1" && x.G.Auto["cur"] != "fail" {
			continue
		}
		nf++
		if x.Kind == "return" && !x.E.IsNonNil(x.G, x.Res[0]) {
			c.Fail("plan-failure", at, c.P.InstrPos(x.At), "a package failed and the plan can end without an error", x.G.Path(12))
		}
	}
	c.Min("plan-failure", nf, 1, "failing paths through the installation plan")
}

func hasSuffix(s, suf string) bool { return strings.HasSuffix(s, suf) }

// errResult is the index of fn's error result.
func errResult(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.TypeString(rs.At(i).Type(), nil) == "error" {
			return i
		}
	}
	return -1
}

// exitE is an exit together with the engine that produced it.
type exitE struct {
	*engine.Exit
	E *engine.Eng
}

// recvKind names the kind of record received from one of the queue's channels.
func recvKind(t *engine.Term) string {
	if t.Type == nil {
		return ""
	}
	s := types.TypeString(t.Type, nil)
	switch {
	case hasSuffix(s, "rcmd.InstallUpdate"):
		return "update"
	case hasSuffix(s, "rcmd.InstallRequest"):
		return "request"
	case s == "string":
		return "package"
	}
	return ""
}

// has reports whether the running check decides the rule.
func (c *C) has(rule string) bool { return c.rules[rule] != "" }

func (c *C) obl2(rule, at string) {
	if c.has(rule) {
		c.Obl(rule, at)
	}
}

func (c *C) fail2(rule, at, where, detail string, path []string) {
	if c.has(rule) {
		c.Fail(rule, at, where, detail, path)
	}
}

// planRun interprets the installation plan with its real scheduler, queue and
// workers; the two-phase install of a package succeeds or fails. The state
// carries, besides the program's memory:
//
//	cur      outcome of the update being handled (ok, fail)
//	failed   an earlier update reported a failure
//	w        worker: idle, busy (request received), sent (update sent)
//	c        consumer: idle, 0, 1, 2 (requests pushed or given up)
//	seen     consumer: the package was requested before (T, F)
//	marked   consumer: the package was recorded as requested
//	pushed   consumer: an installation was requested
//	u        updater: idle, 0, 1, 2 (Done calls)
//	credit   Add calls not yet used up by a send
//	depsof   the package whose dependencies were all gone through
func planRun(c *C) []exitE {
	fn := c.Fn(fnPlan)
	c.Fn(fnTwoPhase)
	e := c.Eng()
	e.MaxParts = 400
	e.SymMaps = true
	e.Relevant = rel(`^rcmd\.InstallThroughBinary$|InstallQueue|Worker\)|^\(\*sync\.WaitGroup\)|^rcmd\.New`)
	for _, n := range []string{"(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies", "(*cran.PkgMap).Get"} {
		e.Opaque[n] = true
	}
	bump := func(g *engine.G, k string) {
		switch g.Auto[k] {
		case "", "idle", "0":
			g.Auto[k] = "1"
		default:
			g.Auto[k] = "2"
		}
	}
	kindOf := map[ssa.Instruction]string{} // what a goroutine receives
	nsend, npush, ndone := 0, 0, 0
	cnt := map[string]int{}

	e.PreRecv = func(in ssa.Instruction, ctx *engine.Ctx, g *engine.G) {
		where := c.P.InstrPos(in)
		switch kindOf[ctx.Goroutine()] {
		case "request":
			if g.Auto["w"] == "busy" {
				c.fail2("worker-answers", "worker loop", where, "the worker takes the next request without having sent the update for the last one", g.Path(8))
			}
			g.Auto["w"] = "idle"
			delete(g.Auto, "inst")
		case "package":
			switch g.Auto["c"] {
			case "0":
				c.fail2("request-accounted", "consumer loop", where, "a requested package is neither pushed to the queue nor marked done; the install waits for it forever", g.Path(8))
			case "2":
				c.fail2("request-accounted", "consumer loop", where, "a requested package is counted twice", g.Path(8))
			}
			if g.Auto["pushed"] == "1" {
				if g.Auto["seen"] != "F" {
					c.fail2("at-most-once", "consumer loop", where, "an installation was pushed without a check that it had not been requested before", g.Path(8))
				}
				if g.Auto["marked"] != "1" {
					c.fail2("at-most-once", "consumer loop", where, "an installation was pushed without recording that it had been requested", g.Path(8))
				}
			}
			g.Auto["c"] = "idle"
			delete(g.Auto, "pushed")
			delete(g.Auto, "seen")
			delete(g.Auto, "marked")
		case "update":
			switch g.Auto["u"] {
			case "0":
				c.fail2("update-accounted", "updater loop", where, "an update is handled without marking its package done; the install waits for it forever", g.Path(8))
			case "2":
				c.fail2("update-accounted", "updater loop", where, "an update marks its package done twice", g.Path(8))
			}
			if g.Auto["cur"] == "fail" && g.Auto["u"] != "" && g.Auto["u"] != "idle" {
				c.obl2("named", "updater loop")
				if g.Auto["named"] != "1" {
					c.fail2("named", "updater loop", where, "the name of a package that failed to install is neither kept nor logged", g.Path(8))
				}
			}
			delete(g.Auto, "named")
			if g.Auto["credit"] != "" {
				c.fail2("send-counted", "updater loop", where, "the wait group is increased for a package that is not requested", g.Path(8))
			}
			g.Auto["u"] = "idle"
		}
	}
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, val *engine.Term, g *engine.G) {
		k := recvKind(val)
		if k == "" {
			return
		}
		cnt[k]++
		kindOf[ctx.Goroutine()] = k
		switch k {
		case "request":
			g.Auto["w"] = "busy"
		case "package":
			g.Auto["c"] = "0"
		case "update":
			g.Auto["u"] = "0"
			g.Auto["pkg"] = e.S(e.FieldOf(g, engine.Val{val}, "Package")[0])
			if g.Auto["cur"] == "fail" {
				g.Auto["failed"] = "1"
			}
			g.Auto["cur"] = "ok"
			if !e.IsNil(g, e.FieldOf(g, engine.Val{val}, "Err")) {
				g.Auto["cur"] = "fail"
			}
		}
	}
	// dependency checks
	depLoop := map[*ssa.BasicBlock]bool{}
	isDeps := func(t *engine.Term) *engine.Term {
		t = engine.Strip(t)
		if (t.Op == "lookup" || t.Op == "mapval" || t.Op == "index") && isField(t.Args[0], "DepDb") {
			return t.Args[1]
		}
		return nil
	}
	watch(e, func(t *engine.Term) string {
		if isMember(t, func(m *engine.Term) bool { return m.Op == "make" }) && len(t.Args) > 1 {
			return "seen"
		}
		return ""
	})
	pb := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		pb(b)
		g := b.G
		if kindOf[b.Ctx.Goroutine()] == "update" {
			delete(g.Auto, "seen")
		}
		if coll := collOf(e, b.Term); coll != nil {
			if p := isDeps(coll); p != nil {
				neg := b.Term.Op == "un"
				depLoop[b.If.Block()] = true
				if b.Val == neg {
					g.Auto["depsof"] = candidate(e, p)
				}
			}
		}
	}
	e.BackEdge = func(fn *ssa.Function, h *ssa.BasicBlock, g *engine.G) {
		// a new candidate: forget what was found about the last one
		if !depLoop[h] {
			delete(g.Auto, "depsof")
		}
	}
	started := newEach(e)
	started.Track("start", func(t *engine.Term) bool { return isField(t, "StartingPackages") })
	started.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		c.obl2("start-all", "starting packages")
		if g.Auto["did:start"] != "1" {
			c.fail2("start-all", "starting packages", at, "a starting package can be passed over", g.Path(8))
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		gor := kindOf[ev.Ctx.Goroutine()]
		at := ev.Name + " in " + c.P.FnName(ev.Fn())
		if gor == "update" && g.Auto["cur"] == "fail" && ev.Callee == nil {
			for _, a := range ev.Args {
				if a.Any(func(t *engine.Term) bool {
					return t.Contains(func(u *engine.Term) bool { return recvKind(u) == "package" && e.S(u) == g.Auto["pkg"] })
				}) {
					g.Auto["named"] = "1"
				}
			}
		}
		switch ev.Name {
		case fnTwoPhase:
			return installOutcomes(ev, map[string]string{"inst": "ok"}, map[string]string{"inst": "fail"})
		case "send":
			switch sent := ev.Arg(1); recvKind(sent[0]) {
			case "package":
				nsend++
				c.obl2("send-counted", at)
				if g.Auto["credit"] != "1" && g.Auto["credit"] != "bulk" {
					c.fail2("send-counted", at, where(ev), "a package is requested without the wait group having been increased by one for it", g.Path(8))
				}
				if g.Auto["credit"] != "bulk" {
					delete(g.Auto, "credit")
				}
				if gor == "update" {
					c.obl2("deps-first", at)
					c.obl2("halt-after-failure", at)
					if g.Auto["failed"] == "1" || g.Auto["cur"] == "fail" {
						c.fail2("halt-after-failure", at, where(ev), "a package is requested after a failure", g.Path(8))
					}
					if !sent.All(func(t *engine.Term) bool { return g.Auto["depsof"] == candidate(e, t) }) {
						c.fail2("deps-first", at, where(ev), "a package is requested without all of its dependencies having been checked (checked: "+short(g.Auto["depsof"])+")", g.Path(8))
					}
				} else {
					c.obl2("deps-first", at)
					g.Auto["did:start"] = "1"
					if !sent.All(func(t *engine.Term) bool {
						t = e.Unprev(t)
						return t.Op == "elem" && isField(t.Args[0], "StartingPackages")
					}) {
						c.fail2("deps-first", at, where(ev), "requests "+short(e.SV(sent))+", which is not a starting package", g.Path(8))
					}
				}
			case "request":
				npush++
				c.obl2("at-most-once", at)
				c.obl2("halt-after-failure", at)
				g.Auto["pushed"] = "1"
				bump(g, "c")
				if g.Auto["failed"] == "1" || g.Auto["cur"] == "fail" && g.Auto["u"] == "idle" {
					c.fail2("halt-after-failure", at, where(ev), "an installation is pushed to the queue after a failure", g.Path(8))
				}
			case "update":
				c.obl2("worker-answers", at)
				c.obl2("worker-reports", at)
				if g.Auto["w"] != "busy" {
					c.fail2("worker-answers", at, where(ev), "a second update for one request", g.Path(8))
				}
				g.Auto["w"] = "sent"
				err := e.FieldOf(g, ev.Arg(1), "Err")
				switch g.Auto["inst"] {
				case "ok":
				case "fail":
					if !e.IsNonNil(g, err) {
						c.fail2("worker-reports", at, where(ev), "the update for a failed installation carries the error "+short(e.SV(err)), g.Path(8))
					}
				default:
					c.fail2("worker-reports", at, where(ev), "an update is sent for a package that was not installed", g.Path(8))
				}
				if !e.IsTrue(g, e.FieldOf(g, ev.Arg(1), "ShouldUpdate")) {
					c.fail2("worker-answers", at, where(ev), "the update is marked as one to be ignored", g.Path(8))
				}
			}
		case "mapstore":
			if gor == "package" {
				g.Auto["marked"] = "1"
			}
		case "(*sync.WaitGroup).Add":
			a := ev.Arg(1)
			one := a.All(func(t *engine.Term) bool { i, ok := t.ConstInt(); return ok && i == 1 })
			bulk := a.All(func(t *engine.Term) bool {
				return t.Op == "call" && t.Str == "len" && isField(t.Args[0], "StartingPackages")
			})
			c.obl2("add-before-done", at)
			if gor == "update" && g.Auto["u"] != "0" {
				c.fail2("add-before-done", at, where(ev), "the wait group is increased after the package that leads to it was marked done", g.Path(8))
			}
			switch {
			case bulk && gor == "":
				g.Auto["credit"] = "bulk"
			case one && g.Auto["credit"] == "":
				g.Auto["credit"] = "1"
			default:
				g.Auto["credit"] = "many"
			}
		case "(*sync.WaitGroup).Done":
			ndone++
			c.obl2("update-accounted", at)
			switch gor {
			case "package":
				bump(g, "c")
			case "update":
				bump(g, "u")
			default:
				c.fail2("update-accounted", at, where(ev), "a package is marked done outside the consumer and the updater", g.Path(8))
			}
		case "(*sync.WaitGroup).Wait":
			if gor == "" {
				c.obl2("start-all", "wait")
				if g.Auto["all:start"] != "1" && !factKnown(g, true, func(t *engine.Term) bool { return t.Op == "empty" && isField(t.Args[0], "StartingPackages") }) {
					c.fail2("start-all", "wait", where(ev), "the plan waits before having requested every starting package", g.Path(8))
				}
				g.Auto["waited"] = "1"
				if g.Auto["credit"] == "bulk" {
					delete(g.Auto, "credit")
				}
			}
		}
		return nil
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	var out []exitE
	for _, x := range xs {
		out = append(out, exitE{x, e})
		at := "exit (" + x.Kind + ") of the installation plan"
		c.obl2("wait-before-end", at)
		if x.Kind != "return" {
			continue
		}
		a := x.G.Auto
		if a["waited"] != "1" {
			c.fail2("wait-before-end", at, c.P.InstrPos(x.At), "the plan can end without waiting for the packages it requested", x.G.Path(8))
		}
		if a["c"] != "" && a["c"] != "idle" {
			c.fail2("request-accounted", at, c.P.InstrPos(x.At), "the goroutine that takes requests can end while handling one", x.G.Path(8))
		}
		if a["u"] != "" && a["u"] != "idle" {
			c.fail2("update-accounted", at, c.P.InstrPos(x.At), "the goroutine that handles updates can end while handling one", x.G.Path(8))
		}
		if a["w"] == "busy" || a["w"] == "sent" {
			c.fail2("worker-answers", at, c.P.InstrPos(x.At), "a worker can end while handling a request", x.G.Path(8))
		}
	}
	for _, m := range []struct {
		rule, what string
		n, min     int
	}{
		{"send-counted", "package requests", nsend, 2}, {"at-most-once", "pushes to the queue", npush, 1}, {"update-accounted", "Done calls", ndone, 1},
		{"worker-answers", "requests received by workers", cnt["request"], 1}, {"update-accounted", "updates received", cnt["update"], 1},
		{"request-accounted", "packages received by the consumer", cnt["package"], 1},
	} {
		if c.has(m.rule) {
			c.Min(m.rule, m.n, m.min, m.what)
		}
	}
	return out
}

// candidate names the package a term stands for: the loop variable when it is
// an element of a list gone through.
func candidate(e *engine.Eng, t *engine.Term) string {
	t = engine.Strip(t)
	if t.Op == "elem" && len(t.Args) > 1 {
		return "elem " + e.S(t.Args[1])
	}
	return e.S(e.Unprev(t))
}

// readyRun follows the updater with a package that one other depends on, which
// itself depends on two. The state carries dep:one and dep:two (what was found
// out about them), cur and failed as in planRun, and what was requested.
func readyRun(c *C) {
	fn := c.Fn(fnPlan)
	e := c.Eng()
	e.MaxParts = 400
	e.SymMaps = true
	e.Relevant = rel(`^rcmd\.InstallThroughBinary$|InstallQueue|Worker\)|^\(\*sync\.WaitGroup\)|^rcmd\.New`)
	for _, n := range []string{"(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies", "(*cran.PkgMap).Get"} {
		e.Opaque[n] = true
	}
	str := types.Typ[types.String]
	var one, two, next *engine.Term
	inverse := func(t *engine.Term) bool {
		t = engine.Strip(t)
		return t.Op == "call" && hasSuffix(t.Str, "InvertDependencies")
	}
	e.Known = func(t *engine.Term) *engine.Term {
		if t.Op != "lookup" {
			return nil
		}
		if one == nil {
			one, two, next = e.Sym("one", str), e.Sym("two", str), e.Sym("next", str)
		}
		switch m := engine.Strip(t.Args[0]); {
		case isField(m, "DepDb"):
			return e.T("vlist", "", t.Type, one, two)
		case inverse(m):
			return e.T("vlist", "", t.Type, next)
		}
		return nil
	}
	installed := map[*engine.Term]bool{} // where the dependencies are looked up
	recorded := map[*engine.Term]func(){}
	watch(e, func(t *engine.Term) string {
		if t.Op == "haskey" && inverse(t.Args[0]) {
			return "waited-for"
		}
		if isMember(t, func(m *engine.Term) bool { return m.Op == "make" }) && len(t.Args) > 1 {
			switch engine.Strip(t.Args[1]) {
			case one:
				installed[engine.Strip(t.Args[0])] = true
				return "dep:one"
			case two:
				return "dep:two"
			}
		}
		return ""
	})
	kind := map[ssa.Instruction]string{}
	nsend, nend := 0, 0
	at := "dependent of an installed package"
	e.PreRecv = func(in ssa.Instruction, ctx *engine.Ctx, g *engine.G) {
		if kind[ctx.Goroutine()] != "update" {
			return
		}
		a := g.Auto
		if a["cur"] == "ok" && a["failed"] != "1" && a["handling"] == "1" {
			nend++
			c.obl2("released", at)
			if a["dep:one"] != "F" && a["dep:two"] != "F" && a["waited-for"] != "F" && a["asked"] != "1" {
				c.fail2("released", at, c.P.InstrPos(in), "its dependencies may all be installed and it is not requested; it would never be installed", g.Path(10))
			}
		}
		for _, k := range []string{"dep:one", "dep:two", "waited-for", "asked", "handling"} {
			delete(a, k)
		}
	}
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, val *engine.Term, g *engine.G) {
		k := recvKind(val)
		if k == "" {
			return
		}
		kind[ctx.Goroutine()] = k
		if k == "update" {
			g.Auto["handling"] = "1"
			if g.Auto["cur"] == "fail" {
				g.Auto["failed"] = "1"
			}
			g.Auto["cur"] = "ok"
			if !e.IsNil(g, e.FieldOf(g, engine.Val{val}, "Err")) {
				g.Auto["cur"] = "fail"
			}
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		switch {
		case ev.Name == fnTwoPhase:
			return installOutcomes(ev, nil, nil)
		case ev.Name == "mapstore" && kind[ev.Ctx.Goroutine()] == "update" && g.Auto["cur"] == "fail" && recvKind(ev.Arg(1)[0]) == "package":
			for _, m := range ev.Arg(0) {
				w, p := where(ev), g.Path(8)
				recorded[engine.Strip(m)] = func() {
					c.fail2("deps-first", at, w, "a package whose installation failed is recorded as installed", p)
				}
			}
		case ev.Name == "send" && recvKind(ev.Arg(1)[0]) == "package" && kind[ev.Ctx.Goroutine()] == "update":
			nsend++
			c.obl2("deps-first", at)
			if !ev.Arg(1).All(func(t *engine.Term) bool { return e.Unprev(engine.Strip(t)) == next }) {
				c.fail2("deps-first", at, where(ev), "requests "+short(e.SV(ev.Arg(1)))+", which does not depend on the package just installed", g.Path(8))
			}
			if g.Auto["dep:one"] != "T" || g.Auto["dep:two"] != "T" {
				c.fail2("deps-first", at, where(ev), "it is requested although only some of its dependencies were found to be installed", g.Path(10))
			}
			g.Auto["asked"] = "1"
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	for m, fail := range recorded {
		if installed[m] {
			fail()
		}
	}
	if c.has("deps-first") {
		c.Min("deps-first", nsend, 1, "requests of a dependent package")
	}
	if c.has("released") {
		c.Min("released", nend, 1, "updates of installed packages")
	}
}

func c05(c *C) {

	c.Rule("deps-first", "a package that is not a starting package is requested only after all entries of its dependency list were gone through, and with two dependencies only on paths where both were found among the installed packages; only successful updates record a package as installed")
	c.Rule("at-most-once", "a request is pushed to the queue only when the package was found not to have been requested before, and it is then recorded as requested")
	c.Rule("halt-after-failure", "once a failure has been recorded, no further package is requested or pushed")
	c.Rule("released", "when a package was installed, nothing has failed, and the dependencies of a package that waits for it are all installed, that package is requested")
	planRun(c)
	readyRun(c)
}

func c06(c *C) {
	c.Rule("send-counted", "every request for a package is preceded by exactly one increase of the wait group for it")
	c.Rule("request-accounted", "every requested package is either pushed to the queue or marked done, exactly once, and the goroutine that takes requests does not end while handling one")
	c.Rule("worker-answers", "a worker sends exactly one update, marked to be handled, for every request it takes")
	c.Rule("update-accounted", "every update marks its package done exactly once, on every path")
	c.Rule("add-before-done", "the wait group is increased for dependent packages before the update that releases them is marked done")
	c.Rule("start-all", "every starting package is requested before the plan waits")
	c.Rule("wait-before-end", "the plan ends only after waiting for the packages it requested")
	c.Rule("workers", "for every number of threads configured the plan is given at least one worker, and with one worker something takes requests from the queue")
	c.Assume("the queue's channels have room for the requests in flight (capacities 2000 and 500); R processes end")
	planRun(c)
	workers(c)
}

// workers checks that someone takes requests from the queue.
func workers(c *C) {
	fn := c.Fn(fnPlan)
	e := c.Eng()
	e.MaxParts = 400
	e.Relevant = rel(`^rcmd\.InstallThroughBinary$|InstallQueue|Worker\)|^rcmd\.New`)
	for _, n := range []string{fnTwoPhase, "(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies", "(*cran.PkgMap).Get"} {
		e.Opaque[n] = true
	}
	var args []engine.Val
	for _, p := range fn.Params {
		v := e.Sym(p.Name(), p.Type())
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v = e.Int(1)
		}
		args = append(args, engine.Val{v})
	}
	taken := 0
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, val *engine.Term, g *engine.G) {
		if recvKind(val) == "request" {
			taken++
		}
	}
	e.Run(fn, e.Start(), args...)
	c.Absorb(e)
	c.Obl("workers", "one worker")
	c.Need(taken > 0, "workers", "one worker", c.P.FnName(fn), "with one worker nothing takes requests from the queue; the install waits for ever")

	// how many there are
	e = c.Eng()
	e.Relevant = rel(`^rcmd\.InstallPackagePlan$`)
	for _, n := range []string{"rcmd.NewRSettings", "rcmd.GetRVersion", "configlib.SetCustomizations", fnPlanning, fnDownload, "rcmd.NewPackageCache", "cmd.installAdditionalPackages"} {
		e.Opaque[n] = true
	}
	n := 0
	e.Branch = func(b *engine.BranchEv) {
		if t := b.Term; t.Op == "bin" && t.Str == "<" {
			b.G.Auto["cmp:"+e.S(t)] = fmt.Sprint(b.Val) // keeps the cases apart
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == "runtime.GOMAXPROCS" || ev.Name == "runtime.NumCPU" {
			v := e.Sym("processors", types.Typ[types.Int])
			return []engine.Outcome{{Res: []engine.Val{{v}}, Facts: map[*engine.Term]bool{e.Bin(token.LSS, v, e.Int(1), types.Typ[types.Bool]): false}}}
		}
		if ev.Name != fnPlan {
			return nil
		}
		for i := 0; i < ev.Sig.Params().Len(); i++ {
			if b, ok := ev.Sig.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			n++
			c.Obl("workers", "number of workers")
			for _, t := range ev.Arg(i) {
				k, isConst := t.ConstInt()
				if isConst && k >= 1 || !isConst && e.IsFalse(ev.G, engine.Val{e.Bin(token.LSS, t, e.Int(1), types.Typ[types.Bool])}) {
					continue
				}
				c.Fail("workers", "number of workers", where(ev), "the plan is run with "+short(e.S(t))+" workers, which may be none", ev.G.Path(8))
			}
		}
		return []engine.Outcome{{Res: []engine.Val{{e.Nil()}}}}
	}
	e.Run(c.Fn("cmd.rInstall"), e.Start())
	c.Absorb(e)
	c.Min("workers", n, 1, "calls of the installation plan")
}
