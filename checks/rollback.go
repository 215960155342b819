package checks

import (
	"fmt"
	"strings"

	"verif/engine"
)

const (
	fnPlan     = "rcmd.InstallPackagePlan"
	fnInstall  = "rcmd.Install"
	fnRollback = "rollback.RollbackPackageEnvironment"
	fnPlanning = "cmd.planInstall"
	fnDownload = "cran.DownloadPackages"
)

var planSyms = []string{"nexus", "plan", "rollbackPlan"}

func init() {
	register("C01", "Abstract interpretation of the install command with every installation step given the outcomes success, error and non-zero exit; typestate failed -> rolled back before the command ends, unless rollback is switched off.", c01)
	register("C02", "Abstract interpretation of the rollback: every file-system effect and its path provenance; every new package removed, every staged package restored, nothing else touched; staging records agree with what the rollback consumes.", c02)
	register("C03", "Effect ordering in the install command: what is moved aside, when, and when the moved copies may be deleted.", c03)
}

// installEntry analyses the install command with the planning, download and
// installation steps replaced by their possible outcomes.
func installEntry(c *C, hook func(ev *engine.Ev) []engine.Outcome) (*engine.Eng, []*engine.Exit) {
	return installWorld(c, nil, hook)
}

// installWorld is installEntry in a setting that setup decides.
func installWorld(c *C, setup func(*engine.Eng), hook func(ev *engine.Ev) []engine.Outcome) (*engine.Eng, []*engine.Exit) {
	fn := c.Fn("cmd.rInstall")
	for _, n := range []string{fnPlan, fnInstall, fnRollback, fnPlanning, fnDownload} {
		c.Fn(n)
	}
	e := c.Eng()
	e.Relevant = rel(`^rcmd\.Install|RollbackPackageEnvironment|planInstall|DownloadPackages|^rollback\.|RollbackPlan\)`, mutatingFS)
	for _, n := range []string{"rcmd.NewRSettings", "rcmd.GetRVersion", "rcmd.configureEnv", "configlib.SetCustomizations"} {
		e.Opaque[n] = true
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case "logger.AddLogFile":
			return []engine.Outcome{{}}
		}
		if o := hook(ev); o != nil {
			return o
		}
		switch ev.Name {
		case "path/filepath.Abs":
			return okFail(ev, nil, map[string]string{"trouble": "1"})
		case fnPlanning:
			return symRes(ev, planSyms...)
		case fnDownload:
			return okFail(ev, map[string]string{"downloaded": "1"}, nil)
		case fnPlan:
			return okFail(ev, map[string]string{"planned": "1"}, map[string]string{"failed": "1", "planned": "1"})
		case fnInstall:
			return installOutcomes(ev, nil, map[string]string{"failed": "1"})
		}
		return nil
	}
	if setup != nil {
		setup(e)
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	return e, xs
}

func noRollback(g *engine.G, val bool) bool {
	return factKnown(g, val, func(t *engine.Term) bool { return isField(t, "NoRollback") })
}

func c01(c *C) {
	c.Rule("rollback-on-failure", "every path of the install command on which a package failed to install calls the rollback before it ends, unless the no-rollback option is known to be set")
	c.Rule("no-rollback-otherwise", "the rollback is called only on paths where a package failed and the no-rollback option is known to be off")
	c.Rule("rollback-of-this-plan", "the rollback is given the rollback plan made by the planning step of the same run")
	c.Rule("installs-before-rollback", "no package is installed once the rollback has run")
	n := 0
	_, xs := installEntry(c, func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		switch ev.Name {
		case fnRollback:
			n++
			at := "call of the rollback in " + c.P.FnName(ev.Fn())
			c.Obl("no-rollback-otherwise", at)
			if g.Auto["failed"] != "1" && g.Auto["trouble"] != "1" {
				c.Fail("no-rollback-otherwise", at, where(ev), "reached on a path where no installation failed", g.Path(12))
			}
			if !noRollback(g, false) {
				c.Fail("no-rollback-otherwise", at, where(ev), "reached without the no-rollback option known to be off", g.Path(12))
			}
			ok := ev.Arg(1).All(func(t *engine.Term) bool {
				return t.Contains(func(x *engine.Term) bool { return x.Op == "param" && x.Str == "rollbackPlan" })
			})
			c.Need(ok, "rollback-of-this-plan", at, where(ev), "argument is "+short(ev.E.SV(ev.Arg(1))))
			return okFail(ev, map[string]string{"rolledback": "ok"}, map[string]string{"rolledback": "err"})
		case fnPlan, fnInstall:
			at := ev.Name + " from " + c.P.FnName(ev.Fn())
			c.Obl("installs-before-rollback", at)
			if g.Auto["rolledback"] != "" {
				c.Fail("installs-before-rollback", at, where(ev), "runs after the rollback", g.Path(12))
			}
		}
		return nil
	})
	c.Min("rollback-on-failure", n, 1, "rollback calls in the install command")
	nf := 0
	for _, x := range xs {
		at := "exit (" + x.Kind + ") of the install command"
		c.Obl("rollback-on-failure", at)
		if x.G.Auto["failed"] != "1" {
			continue
		}
		nf++
		if x.G.Auto["rolledback"] == "" && !noRollback(x.G, true) {
			c.Fail("rollback-on-failure", at, c.P.InstrPos(x.At), "a package failed and the command ends without rolling back", x.G.Path(14))
		}
	}
	c.Min("rollback-on-failure", nf, 2, "failing paths through the install command")
}

// backupName returns the constant that marks a moved-aside directory.
func backupMark(from, to *engine.Term) string {
	mark := ""
	to.Contains(func(x *engine.Term) bool {
		if s, ok := x.ConstString(); ok && s != "" && s != "/" && !from.ContainsTerm(x) {
			mark = s
		}
		return false
	})
	return mark
}

func c02(c *C) {
	c.Rule("effect-allowed", "the rollback only removes the library it created, removes a package recorded as new, removes the current directory of a package recorded as moved aside, or moves its backup to where it was")
	c.Rule("new-removed", "every package recorded as new is removed from the library (loop over all of them, no iteration without the removal unless an error is returned)")
	c.Rule("staged-restored", "every package recorded as moved aside is moved back, to a place from which what may be there was removed")
	c.Rule("created-library-removed", "when the library was created by this run, it is removed")
	c.Rule("success-means-done", "the rollback reports success only after all of the above")
	c.Rule("records-agree", "staging moves a package directory and records exactly the two paths that the rollback later uses, in the field it uses them from")
	c.Rule("only-moved-recorded", "a package whose directory could not be moved aside is not recorded, so the rollback does not delete it")
	c.Rule("previous-known", "the rollback plan is made for the plan that is carried out, with the packages read from the configured library; the library counts as one to be created exactly when it is known not to exist, and nothing is planned when that is not known")
	c.Rule("library-read", "the packages of a library that could not be read are never taken for packages that are not installed")
	c.Rule("new-means-absent", "a package is recorded as new exactly when the plan installs it and it was not in the library before")

	fn := c.Fn(fnRollback)
	e := c.Eng()
	each := newEach(e)
	for _, f := range []string{"NewPackages", "UpdateRollbacks", "AdditionalPkgRollbacks"} {
		f := f
		each.Track(f, func(t *engine.Term) bool { return isField(t, f) })
	}
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		delete(g.Auto, "away")
		rule := "staged-restored"
		if key == "NewPackages" {
			rule = "new-removed"
		}
		c.Obl(rule, key)
		if g.Auto["did:"+key] != "1" {
			c.Fail(rule, key, at, "an element can be passed over", g.Path(12))
		}
	}
	created := func(g *engine.G, v bool) bool {
		return factKnown(g, v, func(t *engine.Term) bool { return isField(t, "CreateLibrary") })
	}
	isElem := func(t *engine.Term, list string) bool {
		t = engine.Strip(t)
		for t.Op == "prev" {
			t = t.Args[0]
		}
		return (t.Op == "elem" || t.Op == "index" || t.Op == "val") && isField(t.Args[0], list)
	}
	classify := func(ef Effect, p *engine.Term) (string, string) {
		pp := pathParts(p)
		if len(pp) == 1 && isField(pp[0], "Library") {
			return "library", ""
		}
		if len(pp) == 2 && isField(pp[0], "Library") && isElem(pp[1], "NewPackages") {
			return "new", "NewPackages"
		}
		t := engine.Strip(p)
		if t.Op == "field" {
			for _, l := range []string{"UpdateRollbacks", "AdditionalPkgRollbacks"} {
				if isElem(t.Args[0], l) {
					return t.Str, l
				}
			}
		}
		return "", ""
	}
	n := 0
	// a package is moved back only to where nothing is left
	away := func(g *engine.G, dir *engine.Term) { g.Auto["away"] = e.S(e.Unprev(dir)) }
	watchGone(e, func(path *engine.Term, gone bool, g *engine.G) {
		if k, _ := classify(Effect{}, path); k == "ActivePackageDirectory" && gone {
			away(g, path)
		}
	})
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		undo := map[string]string{}
		for _, ef := range fsEffects(ev) {
			n++
			for _, p := range ef.Path {
				k, l := classify(ef, p)
				if k == "ActivePackageDirectory" && ef.Kind == "removeall" {
					undo["away"] = e.S(e.Unprev(engine.Strip(p)))
				}
				at := ef.Kind + " " + short(e.S(p))
				c.Obl("effect-allowed", at)
				bad := ""
				switch {
				case ef.Kind == "removeall" && k == "library":
					if !created(ev.G, true) {
						bad = "the library is removed although it may have existed before"
					} else {
						ev.G.Auto["rmlib"] = "1"
					}
				case ef.Kind == "removeall" && k == "new":
					ev.G.Auto["did:NewPackages"] = "1"
				case ef.Kind == "removeall" && k == "ActivePackageDirectory":
				case ef.Kind == "rename" && k == "BackupPackageDirectory":
					for _, q := range ef.To {
						if ev.G.Auto["away"] != e.S(e.Unprev(engine.Strip(q))) {
							c.Fail("staged-restored", l, where(ev), "the backup is moved back without what is in its place having been removed", ev.G.Path(10))
						}
						k2, l2 := classify(ef, q)
						if k2 != "ActivePackageDirectory" || l2 != l || engine.Strip(q).Args[0] != engine.Strip(p).Args[0] {
							bad = "the backup is moved to " + short(e.S(q)) + " instead of where the package was"
						}
					}
					if bad == "" {
						ev.G.Auto["did:"+l] = "1"
					}
				default:
					bad = "not an effect a rollback may have"
				}
				if bad != "" {
					c.Fail("effect-allowed", at, where(ev), bad, ev.G.Path(10))
				}
			}
		}
		if len(fsEffects(ev)) > 0 && errIndex(ev) >= 0 {
			return okFail(ev, undo, map[string]string{"undone": "1"})
		}
		return nil
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("effect-allowed", n, 4, "file-system effects in the rollback")
	for _, x := range xs {
		if x.Kind != "return" {
			c.Fail("success-means-done", x.Kind, c.P.InstrPos(x.At), "the rollback can end the process", x.G.Path(10))
			continue
		}
		if !e.IsNil(x.G, x.Res[0]) {
			continue
		}
		c.Obl("success-means-done", "nil return")
		if x.G.Auto["undone"] == "1" {
			c.Fail("success-means-done", "nil return", c.P.InstrPos(x.At), "success although something could not be removed or moved back; the backups are then deleted", x.G.Path(10))
		}
		if x.G.Auto["rmlib"] == "1" {
			continue
		}
		if !created(x.G, false) {
			c.Fail("created-library-removed", "nil return", c.P.InstrPos(x.At), "success without having removed a created library", x.G.Path(10))
		}
		for _, l := range []string{"NewPackages", "UpdateRollbacks", "AdditionalPkgRollbacks"} {
			empty := factKnown(x.G, true, func(t *engine.Term) bool {
				return t.Op == "empty" && isField(t.Args[0], l)
			})
			if x.G.Auto["all:"+l] != "1" && !empty {
				c.Fail("success-means-done", "nil return", c.P.InstrPos(x.At), "success without having gone through all of "+l, x.G.Path(10))
			}
		}
	}
	for _, l := range []string{"NewPackages", "UpdateRollbacks", "AdditionalPkgRollbacks"} {
		rule := "staged-restored"
		if l == "NewPackages" {
			rule = "new-removed"
		}
		c.Need(c.obls[rule+" | "+l] != nil, rule, l, c.P.FnName(fn), "no loop over "+l+" was found in the rollback")
	}
	c02records(c)
	c02new(c)
	c02known(c)
	c02read(c)
}

// c02records checks the staging side: each move made is recorded.
func c02records(c *C) {
	fields := map[string]int{}
	renames := 0
	var moved [][2]string
	e, _ := installEntry(c, func(ev *engine.Ev) []engine.Outcome {
		e := ev.E
		for _, ef := range fsEffects(ev) {
			if ef.Kind == "rename" && ev.G.Auto["planned"] == "" {
				renames++
				for _, f := range ef.Path {
					for _, t := range ef.To {
						moved = append(moved, [2]string{e.S(e.Unprev(f)), e.S(e.Unprev(t))})
					}
				}
			}
		}
		if ev.Name == fnPlan {
			return []engine.Outcome{{Res: []engine.Val{{e.NonNilErr("plan")}}, Set: map[string]string{"failed": "1", "planned": "1"}}}
		}
		if ev.Name != fnRollback {
			return nil
		}
		for _, l := range []string{"UpdateRollbacks", "AdditionalPkgRollbacks"} {
			list := e.FieldOf(ev.G, ev.Arg(1), l)
			for _, t := range list {
				if t.Op != "list" && t.Op != "vlist" {
					continue
				}
				for _, el := range e.Val1(ev.G, engine.Val{t}) {
					if r := e.S(el); strings.HasPrefix(r, "rollbackPlan.") {
						continue // empty in a new plan, see records-agree below
					}
					a := e.Unprev(e.FieldOf(ev.G, engine.Val{el}, "ActivePackageDirectory")[0])
					b := e.Unprev(e.FieldOf(ev.G, engine.Val{el}, "BackupPackageDirectory")[0])
					fields[l]++
					at := l + " recorded by staging"
					c.Obl("records-agree", at)
					ok := false
					for _, m := range moved {
						if m[0] == e.S(a) && m[1] == e.S(b) {
							ok = true
						}
					}
					if !ok {
						c.Fail("records-agree", at, where(ev), "the record says "+short(e.S(b))+" -> "+short(e.S(a))+", which is not the move that staging made", nil)
					}
					// it must be this library and this package's directory
					pp := pathParts(a)
					if len(pp) != 2 || !isField(pp[0], "Library") {
						c.Fail("records-agree", at, where(ev), "the restored directory "+short(e.S(a))+" is not a package of the library", nil)
					}
				}
			}
		}
		return []engine.Outcome{{Res: []engine.Val{{e.Nil()}}, Set: map[string]string{"rolledback": "ok"}}}
	})
	_ = e
	c.Min("records-agree", renames, 2, "staging moves before installation")
	c.Need(fields["UpdateRollbacks"] > 0, "records-agree", "UpdateRollbacks recorded by staging", "", "what staging moved is not in the plan that the rollback is given")
	recorded := false
	installEntry(c, func(ev *engine.Ev) []engine.Outcome {
		for _, ef := range fsEffects(ev) {
			if ef.Kind == "rename" && ev.G.Auto["planned"] == "" {
				return []engine.Outcome{{Res: []engine.Val{{ev.E.NonNilErr("rename")}}}}
			}
		}
		if ev.Name == fnPlan {
			return []engine.Outcome{{Res: []engine.Val{{ev.E.NonNilErr("plan")}}, Set: map[string]string{"failed": "1", "planned": "1"}}}
		}
		if ev.Name == fnRollback {
			recorded = true
			for _, l := range []string{"UpdateRollbacks", "AdditionalPkgRollbacks"} {
				at := l + " when nothing could be moved"
				c.Obl("only-moved-recorded", at)
				for _, t := range ev.E.FieldOf(ev.G, ev.Arg(1), l) {
					for _, el := range ev.E.Val1(ev.G, engine.Val{t}) {
						if t.Op != "nil" && t.Op != "zero" && !strings.HasPrefix(ev.E.S(el), "each(rollbackPlan.") {
							c.Fail("only-moved-recorded", at, where(ev), "records "+short(ev.E.S(el))+"; the rollback would delete a package that was never moved aside", ev.G.Path(8))
						}
					}
				}
			}
			return []engine.Outcome{{Res: []engine.Val{{ev.E.Nil()}}, Set: map[string]string{"rolledback": "ok"}}}
		}
		return nil
	})
	c.Need(recorded, "only-moved-recorded", "analysis of failing moves", "", "the rollback is not reached when moving fails")
	c.Need(fields["AdditionalPkgRollbacks"] > 0, "records-agree", "AdditionalPkgRollbacks recorded by staging", "", "what staging moved is not in the plan that the rollback is given")
}

// c02new checks what the plan records as new.
func c02new(c *C) {
	fn := c.Fn("rollback.CreateRollbackPlan")
	e := c.Eng()
	e.Opaque["(*gpsr.InstallPlan).GetAllPackages"] = true
	each := newEach(e)
	all := func(t *engine.Term) bool {
		return t.Contains(func(x *engine.Term) bool { return x.Op == "call" && strings.HasSuffix(x.Str, "GetAllPackages") })
	}
	each.Track("all", all)
	watch(e, func(t *engine.Term) string {
		if isMember(t, func(m *engine.Term) bool { return m.Op == "param" && m.Str == fn.Params[2].Name() }) {
			return "did:all:present"
		}
		return ""
	})
	added := false
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == "append" && ev.Arg(1).Any(func(t *engine.Term) bool {
			return t.Contains(func(x *engine.Term) bool { return x.Op == "elem" && all(x.Args[0]) })
		}) {
			ev.G.Auto["did:all:added"] = "T"
		}
		return nil
	}
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		c.Obl("new-means-absent", "planned packages")
		p, a := g.Auto["did:all:present"], g.Auto["did:all:added"]
		if p == "" || (p == "T") == (a == "T") {
			c.Fail("new-means-absent", "planned packages", at, "a planned package is recorded="+a+" when it was installed before="+p, g.Path(8))
		}
	}
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	for _, x := range xs {
		if x.Kind != "return" {
			continue
		}
		for _, f := range []struct{ field, param string }{{"InstallPlan", fn.Params[1].Name()}, {"Library", fn.Params[0].Name()}, {"PreinstalledPackages", fn.Params[2].Name()}} {
			v := e.FieldOf(x.G, x.Res[0], f.field)
			at := "field " + f.field + " of the rollback plan"
			c.Need(len(v) == 1 && v[0].Op == "param" && v[0].Str == f.param, "records-agree", at, c.P.FnName(fn), "is "+short(e.SV(v)))
		}
		for _, l := range []string{"UpdateRollbacks", "AdditionalPkgRollbacks"} {
			v := e.FieldOf(x.G, x.Res[0], l)
			c.Need(v.All(func(t *engine.Term) bool { return t.Op == "nil" || t.Op == "zero" }), "records-agree", l+" of a new rollback plan", c.P.FnName(fn), "is "+short(e.SV(v)))
		}
		for _, t := range e.FieldOf(x.G, x.Res[0], "NewPackages") {
			c.Obl("new-means-absent", "planned packages")
			switch t.Op {
			case "nil", "zero":
			case "list", "vlist":
				added = true
				for _, el := range e.Val1(x.G, engine.Val{t}) {
					el = e.Unprev(el)
					if !(el.Op == "elem" && all(el.Args[0])) {
						c.Fail("new-means-absent", "planned packages", c.P.FnName(fn), "records "+short(e.S(el))+" as new", nil)
					}
				}
			default:
				c.Fail("new-means-absent", "planned packages", c.P.FnName(fn), "new packages are "+short(e.S(t)), nil)
			}
		}
	}
	c.Need(added, "new-means-absent", "planned packages", c.P.FnName(fn), "no package is ever recorded as new")
}

// backupOf recognises the path of a moved-aside package: a sibling of the
// package directory under a marked name. It returns the package's directory.
func backupOf(e *engine.Eng, t *engine.Term) (dir, name *engine.Term, ok bool) {
	pp := pathParts(e.Unprev(engine.Strip(t)))
	if len(pp) != 2 {
		return nil, nil, false
	}
	n := engine.Strip(pp[1])
	if n.Op == "bin" && n.Str == "+" {
		if s, is := engine.Strip(n.Args[0]).ConstString(); is && s != "" {
			return engine.Strip(pp[0]), engine.Strip(n.Args[1]), true
		}
		if s, is := engine.Strip(n.Args[1]).ConstString(); is && s != "" {
			return engine.Strip(pp[0]), engine.Strip(n.Args[0]), true
		}
	}
	return nil, nil, false
}

// stillThere says whether the package that the backup path is for was asked for
// and found in its own place (see watchPresent). That it was not moved away
// since is left to C39.
func stillThere(e *engine.Eng, g *engine.G, backup *engine.Term) bool {
	d, n, ok := backupOf(e, backup)
	return ok && g.Auto[presentKey(d, n)] == "T"
}

func presentKey(d, n *engine.Term) string {
	return fmt.Sprintf("present:%d/%d", d.ID, n.ID)
}

// watchGone calls f where the code learns that a path exists or does not.
func watchGone(e *engine.Eng, f func(path *engine.Term, gone bool, g *engine.G)) {
	prev := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		if prev != nil {
			prev(b)
		}
		t, there := b.Term, b.Val
		for t.Op == "un" && t.Str == "!" {
			t, there = t.Args[0], !there
		}
		t.Contains(func(y *engine.Term) bool {
			if y.Op == "call" && hasSuffix(y.Str, "IsNotExist") {
				there = !there
			}
			if y.Op != "call" || !hasSuffix(y.Str, "Exists") && !hasSuffix(y.Str, "Stat") {
				return false
			}
			for _, a := range y.Args {
				if a.Type == nil || isString(a.Type) {
					f(engine.Strip(a), !there, b.G)
				}
			}
			return false
		})
	}
}

// watchPresent records that packages were found in the library, until they are
// moved away.
func watchPresent(e *engine.Eng) {
	prev := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		if prev != nil {
			prev(b)
		}
		t, v := b.Term, b.Val
		for t.Op == "un" && t.Str == "!" {
			t, v = t.Args[0], !v
		}
		key := ""
		t.Contains(func(y *engine.Term) bool {
			if y.Op != "call" || !hasSuffix(y.Str, "Exists") && !hasSuffix(y.Str, "Stat") {
				return false
			}
			for _, a := range y.Args {
				if pp := pathParts(e.Unprev(engine.Strip(a))); len(pp) == 2 {
					key = presentKey(engine.Strip(pp[0]), engine.Strip(pp[1]))
				}
			}
			return key != ""
		})
		if key == "" {
			return
		}
		if t.Contains(func(y *engine.Term) bool { return y.Op == "call" && hasSuffix(y.Str, "IsNotExist") }) {
			v = !v
		}
		if v && b.G.Auto["planned"] == "" {
			b.G.Auto[key] = "T"
		} else {
			delete(b.G.Auto, key)
		}
	}
}

func c03(c *C) {
	c.Rule("staged-last", "packages are moved aside only on paths where every download has already succeeded")
	c.Rule("move-not-delete", "before installation, the only thing done to an installed package is moving its directory to a marked name beside it")
	c.Rule("backup-kept", "a moved-aside package is deleted only when the installation did not fail, or the rollback succeeded, or rollback is switched off")
	c.Rule("no-abrupt-end", "once packages have been moved aside, nothing in the installation ends the process (log.Fatal, os.Exit, panic) before the rollback had its chance")
	c.Assume("the operating system is one of those for which package binaries are named (linux, as analysed)")
	renames, removes := 0, 0
	_, xs := installWorld(c, watchPresent, func(ev *engine.Ev) []engine.Outcome {
		e, g := ev.E, ev.G
		for _, ef := range fsEffects(ev) {
			for _, p := range ef.Path {
				switch ef.Kind {
				case "rename":
					renames++
					at := "rename in " + c.P.FnName(ev.Fn())
					c.Obl("staged-last", at)
					if g.Auto["downloaded"] != "1" {
						c.Fail("staged-last", at, where(ev), "a package is moved aside before the downloads have succeeded", g.Path(10))
					}
					c.Obl("move-not-delete", at)
					from := pathParts(e.Unprev(engine.Strip(p)))
					for _, q := range ef.To {
						d, n, ok := backupOf(e, q)
						if !ok || len(from) != 2 || engine.Strip(from[0]) != d || engine.Strip(from[1]) != n || !isField(d, "Library") {
							c.Fail("move-not-delete", at, where(ev), "moves "+short(e.S(p))+" to "+short(e.S(q)), g.Path(10))
						}
					}
					g.Auto["staged"] = "1"
					for k := range g.Auto {
						if strings.HasPrefix(k, "present:") {
							delete(g.Auto, k)
						}
					}
				case "remove", "removeall":
					removes++
					at := ef.Kind + " in " + c.P.FnName(ev.Fn())
					c.Obl("backup-kept", at)
					_, _, isBackup := backupOf(e, p)
					if !isBackup {
						isBackup = engine.Strip(e.Unprev(p)).Op == "field" && engine.Strip(e.Unprev(p)).Str == "BackupPackageDirectory"
					}
					if !isBackup {
						c.Fail("move-not-delete", at, where(ev), "the install command removes "+short(e.S(p)), g.Path(10))
						continue
					}
					if g.Auto["planned"] != "1" && !stillThere(e, g, p) {
						c.Fail("backup-kept", at, where(ev), "a backup is deleted before the installation", g.Path(10))
					}
					if g.Auto["failed"] == "1" && g.Auto["rolledback"] != "ok" && !noRollback(g, true) {
						c.Fail("backup-kept", at, where(ev), "a backup is deleted after a failed installation although the rollback has not succeeded", g.Path(10))
					}
				}
			}
		}
		if ev.Name == fnRollback {
			return okFail(ev, map[string]string{"rolledback": "ok"}, map[string]string{"rolledback": "err"})
		}
		return nil
	})
	c.Min("staged-last", renames, 2, "moves in the install command")
	c.Min("backup-kept", removes, 1, "deletions in the install command")
	for _, x := range xs {
		at := "exit (" + x.Kind + ") of the install command"
		c.Obl("no-abrupt-end", at)
		if x.Kind != "return" && x.G.Auto["staged"] == "1" && x.G.Auto["rolledback"] == "" {
			c.Fail("no-abrupt-end", at, c.P.InstrPos(x.At), "the process ends here with packages moved aside", x.G.Path(12))
		}
	}
	// the steps that installEntry stands in for
	for _, name := range []string{"rcmd.InstallThroughBinary", fnInstall, fnPlan, "(*rcmd.Worker).Start"} {
		fn := c.Fn(name)
		e := c.Eng()
		e.Relevant = func(n string) bool { return endsProcess(n) }
		for _, n := range []string{"(rcmd.InstallArgs).CliArgs", "rcmd.configureEnv"} {
			e.Opaque[n] = true
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("no-abrupt-end", name)
			if x.Kind != "return" {
				c.Fail("no-abrupt-end", name, c.P.InstrPos(x.At), "the process can end here", x.G.Path(8))
			}
		}
		c.Absorb(e)
	}
}

// endsProcess recognises calls that do not return to their caller.
func endsProcess(n string) bool {
	i := strings.LastIndexByte(n, '.')
	switch n[i+1:] {
	case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln", "Exit", "Goexit", "builtin panic":
		return true
	}
	return n == "builtin panic"
}
