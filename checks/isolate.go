package checks

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C07", "Abstract interpretation of the two-step installation with paths evaluated as texts, for every combination of what exists and how each step ends.", c07)
	register("C08", "Abstract interpretation of the install command and of the installation of one package, with and without the packages being installed already.", c08)
}

// twoWorld is one scenario of the installation of a package.
type twoWorld struct {
	lib, path, work string
	present, cached bool
}

const (
	scratchDir = "/tmpdir/random"
	cacheDir   = "/cache"
)

func (w twoWorld) abs(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	if w.work == "" {
		return filepath.Join("/cwd", p)
	}
	return filepath.Join(w.work, p)
}

func (w twoWorld) String() string {
	return fmt.Sprintf("library %s, package %s, run in %q, installed %v, cached %v", w.lib, w.path, w.work, w.present, w.cached)
}

// twoRun follows the installation of one package. install is called for each
// R CMD INSTALL with its number, effect for each change of a file.
type twoRun struct {
	w       twoWorld
	e       *engine.Eng
	tx      *Text
	install func(ev *engine.Ev, path, lib string, ok bool)
	effect  func(ev *engine.Ev, path string, ok bool)
}

func (r *twoRun) run(c *C) []*engine.Exit {
	w := r.w
	fn := c.Fn(fnTwoPhase)
	e := c.Eng()
	r.e = e
	e.Relevant = rel(`^rcmd\.|Exists$|Stat$`, mutatingFS)
	for _, o := range []string{"rcmd.randomString", "cran.RepoURLHash", "(cran.RVersion).ToString"} {
		e.Opaque[o] = true
	}
	isReq := func(t *engine.Term) bool { return t.Op == "param" && isNamed("InstallRequest")(t.Type) }
	is := func(t *engine.Term, names ...string) bool { return chain(t, isReq, names...) }
	r.tx = &Text{M: &Model{Atom: func(t *engine.Term) (any, bool) {
		t = engine.Strip(t)
		switch {
		case is(t, "Package"), is(t, "Metadata", "Metadata", "Package", "Package"):
			return "pkg", true
		case is(t, "Metadata", "Metadata", "Package", "Version"):
			return "1.0", true
		case is(t, "InstallArgs", "Library"):
			return w.lib, true
		case is(t, "Metadata", "Path"):
			return w.path, true
		case is(t, "ExecSettings", "WorkDir"):
			return w.work, true
		case is(t, "RSettings", "Platform"):
			return "platform", true
		case t.Op == "field" && t.Str == "BaseDir":
			return cacheDir, true
		}
		return nil, false
	}}}
	r.tx.Extra = func(t *engine.Term) (any, bool) {
		t = engine.Strip(t)
		if t.Op == "call" {
			switch t.Str {
			case "os.TempDir":
				return "/tmpdir", true
			case "rcmd.randomString":
				return "random", true
			case "cran.RepoURLHash":
				return "repo", true
			case "(cran.RVersion).ToString":
				return "4.3", true
			case "os.Getwd":
				return "/cwd", true
			}
		}
		if t.Op == "res" && t.Str == "0" && deref(t.Args[0]).Op == "call" && deref(t.Args[0]).Str == "os.Getwd" {
			return "/cwd", true
		}
		return nil, false
	}
	r.tx.Use(e)
	there := func(ev *engine.Ev) []engine.Outcome {
		path, known := "", false
		for i, a := range ev.Args {
			if i == 0 && !a.All(func(t *engine.Term) bool { return t.Type == nil || isString(t.Type) }) {
				continue
			}
			if s, ok := r.tx.NormVal(a); ok {
				path, known = s, true
			}
		}
		yes, no := true, true
		if known {
			switch {
			case path == w.lib+"/pkg" || path == w.abs(w.lib)+"/pkg":
				yes, no = w.present, !w.present
			case strings.HasPrefix(path, cacheDir+"/") && strings.Contains(path, "/binary/"):
				yes, no = w.cached, !w.cached
			}
		}
		tag := "there:" + path
		var out []engine.Outcome
		if isBool := ev.Sig.Results().Len() == 2 && ev.Sig.Results().At(0).Type().String() == "bool"; isBool {
			if yes {
				out = append(out, engine.Outcome{Res: []engine.Val{{e.Bool(true)}, {e.Nil()}}, Set: map[string]string{tag: "1"}})
			}
			if no {
				out = append(out, engine.Outcome{Res: []engine.Val{{e.Bool(false)}, {e.Nil()}}, Set: map[string]string{tag: "0"}})
				out = append(out, engine.Outcome{Res: []engine.Val{{e.Bool(false)}, {e.NonNilErr("stat")}}, Set: map[string]string{tag: "0"}})
			}
			return out
		}
		o := okFail(ev, map[string]string{tag: "1"}, map[string]string{tag: "0"})
		if yes {
			out = append(out, o[0])
		}
		if no {
			out = append(out, o[1])
		}
		return out
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch {
		case ev.Name == fnInstall1:
			path, ok1 := r.tx.NormVal(ev.Arg(2))
			lib, ok2 := r.tx.NormVal(e.FieldOf(ev.G, ev.Arg(3), "Library"))
			ran := ""
			switch {
			case !ok2:
				ran = "elsewhere"
			case strings.HasPrefix(lib, scratchDir):
				ran = "scratch"
			default:
				ran = "library"
			}
			r.install(ev, path, lib, ok1 && ok2)
			n := ev.G.Auto["ran"]
			o := installOutcomes(ev, map[string]string{ran: "ok", "ran": n + "1"}, map[string]string{ran: "failed", "ran": n + "1"})
			for i := range o {
				name := fmt.Sprintf("result of %s.%d", ran, i)
				o[i].Res[0] = engine.Val{e.Sym(name, resType(ev, 0))}
				code := e.Field(o[i].Res[0][0], "ExitCode", nil)
				if i == 0 {
					o[i].Facts = map[*engine.Term]bool{eqT(e, code, e.Int(0)): true}
				} else {
					o[i].Facts = map[*engine.Term]bool{eqT(e, code, e.Int(0)): false}
					o[i].Res[1] = engine.Val{e.NonNilErr("error of " + ran)}
				}
			}
			return o
		case hasSuffix(ev.Name, "Exists") || hasSuffix(ev.Name, ".Stat") || hasSuffix(ev.Name, ".Lstat"):
			if ev.Callee != nil && c.P.InModule(ev.Callee) {
				return nil
			}
			return there(ev)
		}
		for _, f := range fsEffects(ev) {
			for _, v := range []engine.Val{f.Path, f.To} {
				if len(v) == 0 {
					continue
				}
				s, ok := r.tx.NormVal(v)
				r.effect(ev, s, ok)
			}
		}
		if ie := errIndex(ev); ie >= 0 && mutatingFS(ev.Name) {
			return okFail(ev, nil, nil)
		}
		return nil
	}
	return e.Run(fn, e.Start())
}

func c07(c *C) {
	c.Rule("scratch", "a package is first built in a new temporary folder, from its package file, and nothing outside that folder is changed meanwhile")
	c.Rule("promote", "the library only receives a binary: the cached one as it is, or the one built, once the build succeeded and the binary is there")
	c.Rule("failed", "when the build fails or leaves no binary, nothing is installed to the library and the failure is reported")
	c.Rule("result", "what is reported is the outcome of the installation to the library; the path of the binary is reported only when it was built in this run")
	c.Rule("paths", "the package file and the library are those of the request, whatever folder R runs in")
	fn := c.Fn(fnTwoPhase)
	con := c.P.FnName(fn)
	for _, lib := range []string{"/lib", "lib"} {
		for _, path := range []string{"/cache/repo/src/pkg_1.0.tar.gz", "pkgs/pkg_1.0.tar.gz"} {
			for _, work := range []string{"", "/work"} {
				for _, cached := range []bool{false, true} {
					if cached && (path[0] != '/') {
						continue
					}
					w := twoWorld{lib: lib, path: path, work: work, cached: cached}
					c07world(c, con, w)
				}
			}
		}
	}
}

func c07world(c *C, con string, w twoWorld) {
	r := &twoRun{w: w}
	builds, promotes := 0, 0
	r.effect = func(ev *engine.Ev, path string, ok bool) {
		c.Obl("scratch", con)
		if !ok || path != scratchDir && !strings.HasPrefix(path, scratchDir+"/") {
			c.Fail("scratch", con, where(ev), fmt.Sprintf("changes %q (%s)", path, w), ev.G.Path(8))
		}
	}
	r.install = func(ev *engine.Ev, path, lib string, ok bool) {
		g := ev.G
		fail := func(rule, msg string) { c.Fail(rule, con, where(ev), msg+" ("+w.String()+")", g.Path(10)) }
		if !ok {
			fail("paths", "installs "+short(r.e.SV(ev.Arg(2)))+" to "+short(r.e.SV(r.e.FieldOf(g, ev.Arg(3), "Library"))))
			return
		}
		if wd, ok := r.tx.NormVal(r.e.FieldOf(g, ev.Arg(5), "WorkDir")); !ok || !filepath.IsAbs(path) && wd != "" && wd != w.work {
			fail("paths", fmt.Sprintf("the package file %s is looked for in %q", path, wd))
		} else if !filepath.IsAbs(lib) && wd != "" && wd != w.work || !filepath.IsAbs(lib) && wd == "" && w.work != "" {
			fail("paths", fmt.Sprintf("the library %s is looked for in %q", lib, wd))
		}
		build := r.e.FieldOf(g, ev.Arg(3), "Build")
		switch {
		case strings.HasPrefix(lib, scratchDir):
			builds++
			c.Obl("scratch", con)
			c.Obl("paths", con)
			if g.Auto["ran"] != "" {
				fail("scratch", "the package is built again")
			}
			if path != w.path && path != w.abs(w.path) {
				fail("paths", "builds "+path)
			}
			if !build.All(func(t *engine.Term) bool {
				t = deref(t)
				if b, ok := t.ConstBool(); ok {
					return b
				}
				return isField(t, "Build")
			}) {
				fail("promote", "no binary is built")
			}
		case lib == w.lib || lib == w.abs(w.lib):
			promotes++
			c.Obl("promote", con)
			c.Obl("paths", con)
			cachedBin := strings.HasPrefix(path, cacheDir+"/") && strings.Contains(path, "/binary/")
			switch {
			case w.cached:
				if !cachedBin || g.Auto["ran"] != "" || g.Auto["there:"+path] != "1" {
					fail("promote", "installs "+path+" although a binary is cached")
				}
				if !r.e.IsFalse(g, build) {
					fail("promote", "builds the cached binary again")
				}
			case g.Auto["library"] != "":
				fail("promote", "installs to the library again")
			case g.Auto["scratch"] != "ok":
				fail("failed", "installs "+path+" to the library without a successful build")
			case !strings.HasPrefix(path, scratchDir+"/"):
				fail("promote", "installs "+path+" to the library, which is not the binary that was built")
			case g.Auto["there:"+path] != "1":
				fail("promote", "installs "+path+" to the library although it may not exist")
			}
		default:
			fail("paths", "installs to "+lib)
		}
	}
	for _, x := range r.run(c) {
		c.Obl("result", con)
		c.Obl("failed", con)
		if x.Kind != "return" || len(x.Res) != 3 {
			c.Fail("failed", con, c.P.InstrPos(x.At), "does not return ("+w.String()+")", x.G.Path(8))
			continue
		}
		bin, binOK := r.tx.NormVal(x.Res[1])
		okErr := r.e.IsNil(x.G, x.Res[2])
		bad := r.e.IsNonNil(x.G, x.Res[2])
		fail := func(rule, msg string) {
			c.Fail(rule, con, c.P.InstrPos(x.At), msg+" ("+w.String()+")", x.G.Path(10))
		}
		res := func(name string) bool {
			return x.Res[0].All(func(t *engine.Term) bool {
				return t.Contains(func(y *engine.Term) bool {
					return y.Op == "param" && strings.HasPrefix(y.Str, "result of "+name)
				})
			})
		}
		switch x.G.Auto["library"] {
		case "ok":
			if !okErr || !res("library") {
				fail("result", "the package was installed and this is not what is reported")
			}
			want := ""
			if !w.cached {
				want = scratchDir + "/"
			}
			if !binOK || (want == "") != (bin == "") || !strings.HasPrefix(bin, want) || want != "" && x.G.Auto["there:"+bin] != "1" {
				fail("result", "the binary reported is "+short(r.e.SV(x.Res[1])))
			}
		case "failed":
			if !bad || !res("library") {
				fail("result", "the installation to the library failed and this is not what is reported")
			}
		default:
			if !bad {
				fail("failed", "nothing was installed to the library and no failure is reported")
			}
			if !binOK || bin != "" {
				fail("result", "the binary reported is "+short(r.e.SV(x.Res[1])))
			}
		}
	}
	c.Absorb(r.e)
	if !w.cached {
		c.Min("scratch", builds, 1, "builds")
	}
	c.Min("promote", promotes, 1, "installations to the library")
}

func c08(c *C) {
	c.Rule("present", "a package whose folder is in the library is not built and not installed, no file is changed, and this is no failure")
	c.Rule("no-update", "without updates nothing is moved aside that is only outdated")
	c.Rule("planned", "with updates, of the outdated packages exactly those of the plan are moved aside")
	c.Rule("overwrite", "of the packages given as tarballs exactly those that are installed are moved aside")
	c.Rule("installers", "R installs nothing but packages of the plan, for which the library is looked at first, and the tarballs that were given")

	// one package
	fn := c.Fn(fnTwoPhase)
	con := c.P.FnName(fn)
	seen := map[ssa.Instruction]bool{}
	for _, cached := range []bool{false, true} {
		for _, path := range []string{"", "/cache/repo/src/pkg_1.0.tar.gz"} {
			for _, lib := range []string{"/lib", "lib"} {
				w := twoWorld{lib: lib, path: path, present: true, cached: cached}
				r := &twoRun{w: w}
				r.install = func(ev *engine.Ev, path, lib string, ok bool) {
					c.Fail("present", con, where(ev), "the package is installed again ("+w.String()+")", ev.G.Path(8))
				}
				r.effect = func(ev *engine.Ev, path string, ok bool) {
					c.Fail("present", con, where(ev), fmt.Sprintf("changes %q (%s)", path, w), ev.G.Path(8))
				}
				for _, x := range r.run(c) {
					c.Obl("present", con)
					if x.Kind != "return" || !r.e.IsNil(x.G, x.Res[2]) {
						c.Fail("present", con, c.P.InstrPos(x.At), "an installed package is reported as failed ("+w.String()+")", x.G.Path(8))
						continue
					}
					if s, ok := r.tx.NormVal(x.Res[1]); !ok || s != "" {
						c.Fail("present", con, c.P.InstrPos(x.At), "a binary is reported", x.G.Path(8))
					}
					code := r.e.FieldOf(x.G, x.Res[0], "ExitCode")
					if r.e.Truth(x.G, eqT(r.e, code[0], r.e.Int(-999))) != 1 {
						c.Fail("present", con, c.P.InstrPos(x.At), "the package is reported as installed now", x.G.Path(8))
					}
				}
				c.Absorb(r.e)
			}
		}
	}

	// the command
	cmdCon := c.P.FnName(c.Fn("cmd.rInstall"))
	type kinds struct{ noUpdate, planned, installed bool }
	for _, k := range []kinds{{false, true, true}, {false, false, true}, {true, true, true}, {false, true, false}} {
		outdated := func(t *engine.Term) bool { return containsField(t, "OutdatedPackages") }
		tarball := func(t *engine.Term) bool { return containsField(t, "AdditionalPackageSources") }
		done := map[string]int{}
		var each *Each
		setup := func(e *engine.Eng) {
			m := &Model{Atom: func(t *engine.Term) (any, bool) {
				switch {
				case isField(t, "NoUpdate"):
					return k.noUpdate, true
				case isMember(t, func(l *engine.Term) bool { return isField(deref(l), "AllPackages") }):
					return k.planned, true
				case t.Op == "haskey" && isField(deref(t.Args[0]), "PreinstalledPackages"):
					return k.installed, true
				}
				return nil, false
			}}
			m.Use(e)
			each = newEach(e)
			each.Track("outdated", func(t *engine.Term) bool {
				t = deref(t)
				return isField(t, "OutdatedPackages")
			})
			each.Track("tarballs", func(t *engine.Term) bool { return isField(deref(t), "AdditionalPackageSources") })
		}
		_, _ = installWorld(c, setup, func(ev *engine.Ev) []engine.Outcome {
			e := ev.E
			switch ev.Name {
			case fnRollback:
				return okFail(ev, nil, nil)
			case fnInstall1:
				seen[ev.Instr] = true
				c.Obl("installers", cmdCon)
				if !ev.Arg(1).All(func(t *engine.Term) bool {
					t = engine.Strip(e.Unprev(t))
					return t.Op == "key" && tarball(t)
				}) {
					c.Fail("installers", cmdCon, where(ev), "installs "+short(e.SV(ev.Arg(1)))+" outside the plan", nil)
				}
			}
			for _, f := range fsEffects(ev) {
				if f.Kind != "rename" {
					continue
				}
				switch {
				case f.Path.Any(tarball):
					done["tarball"]++
					c.Obl("overwrite", cmdCon)
					if !k.installed {
						c.Fail("overwrite", cmdCon, where(ev), "a tarball's package is moved aside although it is not installed", ev.G.Path(8))
					}
				case f.Path.Any(outdated):
					done["outdated"]++
					if k.noUpdate {
						c.Fail("no-update", cmdCon, where(ev), "an outdated package is moved aside without updates", ev.G.Path(8))
					}
					if !k.planned {
						c.Fail("planned", cmdCon, where(ev), "a package is moved aside that is not part of the plan", ev.G.Path(8))
					}
				default:
					c.Fail("planned", cmdCon, where(ev), "moves aside "+short(e.SV(f.Path)), ev.G.Path(8))
				}
			}
			return nil
		})
		c.Obl("no-update", cmdCon)
		if k.planned && !k.noUpdate {
			c.Min("planned", done["outdated"], 1, "outdated packages moved aside")
		}
		if k.installed {
			c.Min("overwrite", done["tarball"], 1, "tarballs' packages moved aside")
		}
	}

	// who runs R CMD INSTALL
	r := &twoRun{w: twoWorld{lib: "/lib", path: "/cache/repo/src/pkg_1.0.tar.gz"}, effect: func(*engine.Ev, string, bool) {}}
	r.install = func(ev *engine.Ev, _, _ string, _ bool) { seen[ev.Instr] = true }
	for _, cached := range []bool{false, true} {
		r.w.cached = cached
		r.run(c)
		c.Absorb(r.e)
	}
	n := 0
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || c.P.CalleeName(call.Common()) != fnInstall1 {
					continue
				}
				n++
				c.Obl("installers", c.P.FnName(f))
				ok = seen[in]
				if !ok {
					c.Fail("installers", c.P.FnName(f), c.P.InstrPos(in), "installs a package outside the plan", nil)
				}
			}
		}
	}
	c.Min("installers", n, 2, "places that install packages")
}
