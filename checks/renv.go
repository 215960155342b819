package checks

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine"
)

const (
	fnEnv       = "rcmd.configureEnv"
	fnSetEnvs   = "configlib.SetCustomizations"
	fnInstall1  = "rcmd.Install"
	fnNvpAppend = "(*rcmd.NvpList).Append"
)

func init() {
	register("C22", "Abstract interpretation of the code that makes the environment of R processes, for every combination of inherited variable and settings, and of every place that starts one.", c22)
	register("C23", "Abstract interpretation of the code that makes the environment of R processes, for every inherited variable with a secret, and a data-flow rule on what is logged.", c23)
	register("C24", "Abstract interpretation of the code that makes the environment of R processes and of the settings it is made from.", c24)
}

// envWorld is one scenario of configureEnv.
type envWorld struct {
	sys    string   // an arbitrary inherited variable
	set    bool     // whether the configuration sets the same variable
	custom bool     // whether the package has variables of its own
	libs   []string // the library paths
	rpath  string
}

// envSet is a variable set in the environment.
type envSet struct {
	name, value string
	known       bool
	src         string // "sys", "pkg", "global" or ""
	term        string
	at          string
	g           *engine.G
	val         engine.Val
}

// envRun follows configureEnv; set is called for every variable set.
func envRun(c *C, w envWorld, set func(*envSet), exit func(x *engine.Exit)) *engine.Eng {
	fn := c.Fn(fnEnv)
	e := c.Eng()
	e.Relevant = rel(`^rcmd\.|^\(\*?rcmd\.Nvp|^\(rcmd\.RSettings`)
	e.Opaque["rcmd.randomString"] = true
	isSys := func(t *engine.Term) bool {
		t = engine.Strip(e.Unprev(t))
		return t.Op == "param" && isStrings(t.Type) || t.Op == "call" && t.Str == "os.Environ"
	}
	isElem := func(t *engine.Term) bool {
		t = deref(e.Unprev(t))
		return t.Op == "elem" && isSys(t.Args[0])
	}
	isGlobal := func(t *engine.Term) bool {
		t = deref(e.Unprev(t))
		return isField(t, "Pairs") && containsField(t, "GlobalEnvVars")
	}
	isPkgMap := func(t *engine.Term) bool {
		t = engine.Strip(e.Unprev(t))
		m, k := lookupOf(t)
		return m != nil && isField(deref(m), "PkgEnvVars") && deref(k).Op == "param"
	}
	tx := &Text{M: &Model{}}
	tx.M.Atom = func(t *engine.Term) (any, bool) {
		t = engine.Strip(e.Unprev(t))
		switch {
		case isElem(t):
			return w.sys, true
		case isField(t, "Rpath"):
			return w.rpath, true
		case t.Op == "haskey" && isPkgMap(t):
			return w.custom, true
		case t.Op == "bin" && t.Str == "==" && engine.Strip(t.Args[1]).Op == "nil" && isPkgMap(t.Args[0]),
			t.Op == "empty" && isPkgMap(t.Args[0]):
			return !w.custom, true
		case t.Op == "key" && isPkgMap(t.Args[0]):
			return "Own_key1", true
		case t.Op == "val" && isPkgMap(t.Args[0]):
			return "Own Value=1", true
		case isField(t, "Name") && deref(t.Args[0]).Op == "elem" && isGlobal(deref(t.Args[0]).Args[0]):
			return "Global_name", true
		case isField(t, "Value") && deref(t.Args[0]).Op == "elem" && isGlobal(deref(t.Args[0]).Args[0]):
			return "Global Value=1", true
		}
		return nil, false
	}
	tx.Extra = func(t *engine.Term) (any, bool) {

		if isField(deref(t), "LibPaths") {
			return w.libs, true
		}
		if t.Op == "call" && t.Str == "os.TempDir" {
			return "/tmpdir", true
		}
		if t.Op == "call" && t.Str == "rcmd.randomString" {
			return "random", true
		}
		return nil, false
	}
	tx.Use(e)
	constKeys(e, tx)
	each := newEach(e)
	each.Track("sys", isSys)
	each.Track("pkg", isPkgMap)
	each.Track("global", isGlobal)
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		if set != nil {
			set(&envSet{src: "end:" + key, g: g, at: at})
		}
	}
	source := func(vs ...engine.Val) string {
		src := ""
		for _, v := range vs {
			for _, t := range v {
				switch {
				case t.Contains(isSys):
					return "sys"
				case t.Contains(isPkgMap):
					src = "pkg"
				case t.Contains(isGlobal):
					src = "global"
				}
			}
		}
		return src
	}
	note := func(ev *engine.Ev, name, value engine.Val) {
		s := &envSet{at: where(ev), g: ev.G, term: short(e.SV(name) + "=" + e.SV(value)), src: source(name, value), val: value}
		var ok1, ok2 bool
		s.name, ok1 = tx.NormVal(name)
		s.value, ok2 = tx.NormVal(value)
		s.known = ok1 && ok2
		set(s)
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnNvpAppend:
			note(ev, ev.Arg(1), ev.Arg(2))
			return []engine.Outcome{{}}
		case "(*rcmd.NvpList).AppendNvp":
			s, ok := tx.NormVal(ev.Arg(1))
			if n, v, found := strings.Cut(s, "="); ok && found {
				es := &envSet{name: n, value: v, known: true, at: where(ev), g: ev.G, term: short(e.SV(ev.Arg(1))), src: source(ev.Arg(1)), val: ev.Arg(1)}
				set(es)
			} else if !ok {
				set(&envSet{at: where(ev), g: ev.G, term: short(e.SV(ev.Arg(1))), src: source(ev.Arg(1)), val: ev.Arg(1)})
			}
			return []engine.Outcome{{}}
		case "(*rcmd.NvpList).Get", "(*rcmd.NvpList).GetNvp":
			n, ok := tx.NormVal(ev.Arg(1))
			out := symRes(ev, "value", "exists")
			src := source(ev.Arg(1))
			if ok && src == "sys" {
				if n == envName(w.sys) {
					out[0].Res[1] = engine.Val{e.Bool(w.set)}
					ev.G.Auto["asked"] = "1"
				}
				return out
			}
			a := engine.Outcome{Res: []engine.Val{out[0].Res[0], {e.Bool(true)}}, Do: func(g *engine.G) { g.Auto["did:global/exists"] = "1" }}
			b := engine.Outcome{Res: []engine.Val{out[0].Res[0], {e.Bool(false)}}}
			return []engine.Outcome{a, b}
		case "append":
			// elements added to a list of pairs or of texts directly
			if len(ev.Args) == 2 && !inNvp(ev.Fn()) {
				for _, t := range ev.Arg(1) {
					for _, x := range vlistArgs(t) {
						if x.Type == nil {
							continue
						}
						if isNamed("Nvp")(x.Type) {
							v := engine.Val{x}
							note(ev, e.FieldOf(ev.G, v, "Name"), e.FieldOf(ev.G, v, "Value"))
						}
					}
				}
			}
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		if exit != nil {
			exit(x)
		}
	}
	c.Absorb(e)
	return e
}

// constKeys has keys whose text is known looked up as that text.
func constKeys(e *engine.Eng, tx *Text) {
	e.UnrollFew = true
	e.KeyIs = func(k *engine.Term) *engine.Term {
		if k.CV != nil || k.Type == nil || !isString(k.Type) {
			return nil
		}
		if s, ok := tx.Norm(k); ok {
			return engine.Strip(e.Str(s))
		}
		return nil
	}
}

func inNvp(fn *ssa.Function) bool {
	fn = rootFn(fn)
	return fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "Nvp")
}

func isStrings(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func envName(s string) string { n, _, _ := strings.Cut(s, "="); return n }

// doneCustom: the variables the configuration sets are in.
func doneCustom(w envWorld, g *engine.G) bool {
	return g.Auto["all:global"] == "1" && (!w.custom || g.Auto["all:pkg"] == "1")
}

func c22(c *C) {
	c.Rule("inherited", "R_LIBS, R_LIBS_USER and R_LIBS_SITE of the caller's environment are never passed to R")
	c.Rule("user", "R_LIBS_USER is a new, empty directory, whatever the settings")
	c.Rule("site", "R_LIBS_SITE is the configured library paths, if there are any, whatever the settings")
	c.Rule("pairs", "the environment has every variable that was set, as name=value, and a variable set last wins")
	c.Rule("process", "every R process of this package gets that environment, for the caller's settings and package")
	c.Rule("vanilla", "R is started without profiles, user environment files and saved workspaces")
	c.Rule("library", "an installation goes to the library of its arguments and sees the configuration's library")

	con := c.P.FnName(c.Fn(fnEnv))
	for _, w := range []envWorld{
		{sys: "R_LIBS=/sys"}, {sys: "R_LIBS_USER=/sys"}, {sys: "R_LIBS_SITE=/sys"},
		{sys: "R_LIBS=/sys", set: true, custom: true, libs: []string{"/lib"}},
		{sys: "R_LIBS_USER=/sys", set: true, custom: true, libs: []string{"/lib", "/l=2"}},
		{sys: "R_LIBS_SITE=/sys", custom: true, libs: []string{""}},
		{sys: "HOME=/home/u", libs: []string{"/a b"}},
	} {
		w := w
		w.rpath = "R"
		name := envName(w.sys)
		want := strings.Join(w.libs, ":")
		envRun(c, w, func(s *envSet) {
			if strings.HasPrefix(s.src, "end:") {
				return
			}
			late := func(what string) {
				if !doneCustom(w, s.g) {
					c.Fail(what, con, s.at, "variables of the configuration may override "+s.name, s.g.Path(6))
				}
			}
			switch {
			case s.src == "sys":
				if strings.HasPrefix(name, "R_LIBS") && (!s.known || s.name == name || strings.Contains(s.value, "/sys")) {
					c.Fail("inherited", con, s.at, name+" of the caller is passed on: "+s.term, s.g.Path(6))
				}
			case s.src == "" && s.known && s.name == "R_LIBS_USER":
				late("user")
				s.g.Auto["user"] = "1"
				if s.value != "/tmpdir/random" {
					c.Fail("user", con, s.at, "R_LIBS_USER is "+s.value+", which is not a new directory", nil)
				}
			case s.src == "" && s.known && s.name == "R_LIBS_SITE":
				late("site")
				s.g.Auto["site"] = "1"
				if s.value != want {
					c.Fail("site", con, s.at, fmt.Sprintf("R_LIBS_SITE is %q for the library paths %q", s.value, w.libs), nil)
				}
			case s.src == "" && (!s.known || strings.HasPrefix(s.name, "R_LIBS")):
				c.Fail("site", con, s.at, "another variable is set: "+s.term, nil)
			}
		}, func(x *engine.Exit) {
			c.Obl("inherited", con+" "+name)
			c.Obl("user", con)
			c.Obl("site", con)
			if x.Kind != "return" {
				return
			}
			if x.G.Auto["user"] != "1" {
				c.Fail("user", con, c.P.InstrPos(x.At), "R_LIBS_USER is not set", x.G.Path(6))
			}
			if want != "" && x.G.Auto["site"] != "1" {
				c.Fail("site", con, c.P.InstrPos(x.At), "R_LIBS_SITE is not set", x.G.Path(6))
			}
			if want == "" && x.G.Auto["site"] == "1" {
				c.Fail("site", con, c.P.InstrPos(x.At), "R_LIBS_SITE is set without library paths", x.G.Path(6))
			}
		})
	}
	c22pairs(c)
	c22process(c)
	c22library(c)
}

// c22pairs: how the variables set become the environment.
func c22pairs(c *C) {
	fn := c.Fn(fnEnv)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^rcmd\.|^\(\*?rcmd\.Nvp`)
	e.Opaque["rcmd.randomString"] = true
	tx := &Text{M: &Model{}}
	isPairs := func(t *engine.Term) bool { t = engine.Strip(e.Unprev(t)); return t.Op == "param" && t.Str == "pairs" }
	isPair := func(t *engine.Term) bool { t = deref(e.Unprev(t)); return t.Op == "elem" && isPairs(t.Args[0]) }
	tx.M.Atom = func(t *engine.Term) (any, bool) {
		t = engine.Strip(e.Unprev(t))
		if t.Op == "field" && isPair(t.Args[0]) {
			return "THE" + t.Str, true
		}
		return nil, false
	}
	each := newEach(e)
	each.Track("pairs", isPairs)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnNvpAppend, "(*rcmd.NvpList).AppendNvp":
			l := ev.Arg(0)
			return []engine.Outcome{{Do: func(g *engine.G) {
				for _, t := range l {
					if p, ok := t.Type.(*types.Pointer); ok {
						st := p.Elem().Underlying().(*types.Struct)
						ft := st.Field(0).Type()
						a := e.FieldAddr(t, st.Field(0).Name(), types.NewPointer(ft))
						g.Mem[a] = engine.Val{e.Sym("pairs", ft)}
					}
				}
			}}}
		case "(*rcmd.NvpList).Get", "(*rcmd.NvpList).GetNvp":
			return symRes(ev, "value", "exists")
		case "append":
			for _, t := range ev.Arg(1) {
				for _, x := range vlistArgs(t) {
					if x.Contains(isPair) && x.Type != nil && isString(x.Type) {
						n++
						if s, ok := tx.Norm(x); !ok || s != "THEName=THEValue" {
							c.Fail("pairs", con, where(ev), "a variable goes into the environment as "+short(e.S(x)), nil)
						} else {
							ev.G.Auto["did:pairs"] = "1"
						}
					}
				}
			}
		}
		return nil
	}
	each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
		if g.Auto["did:pairs"] != "1" {
			c.Fail("pairs", con, at, "a variable that was set may be left out", g.Path(6))
		}
	}
	for _, x := range e.Run(fn, e.Start()) {
		c.Obl("pairs", con)
		if x.Kind == "return" && x.G.Auto["all:pairs"] != "1" {
			c.Fail("pairs", con, c.P.InstrPos(x.At), "not all variables that were set are visited", x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Min("pairs", n, 1, "variables made into text")

	nvpAppend(c)
	nvpSplit(c)
	nvpGet(c, "pairs")
}

// nvpAppend: a pair is added after all others.
func nvpAppend(c *C) {
	fn := c.Fn(fnNvpAppend)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^\(\*?rcmd\.Nvp`)
	tx := &Text{M: &Model{}}
	tx.M.Atom = func(t *engine.Term) (any, bool) {
		if t = engine.Strip(t); t.Op == "param" && t.Type != nil && isString(t.Type) {
			if t.Str == fn.Params[1].Name() {
				return " THE NAME ", true
			}
			return " THE VALUE ", true
		}
		return nil, false
	}
	tx.Use(e)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != "append" {
			return nil
		}
		n++
		if !ev.Arg(0).All(func(t *engine.Term) bool { return isField(t, "Pairs") }) {
			c.Fail("pairs", con, where(ev), "the pair is not added after those of the list, but to "+short(e.SV(ev.Arg(0))), nil)
		}
		for _, t := range ev.Arg(1) {
			for _, x := range vlistArgs(t) {
				nm, ok1 := tx.NormVal(e.FieldOf(ev.G, engine.Val{x}, "Name"))
				vl, ok2 := tx.NormVal(e.FieldOf(ev.G, engine.Val{x}, "Value"))
				if !ok1 || !ok2 || strings.TrimSpace(nm) != "THE NAME" || strings.TrimSpace(vl) != "THE VALUE" {
					c.Fail("pairs", con, where(ev), "the pair added is "+short(e.S(x)), nil)
				}
			}
		}
		ev.G.Auto["added"] += "1"
		return nil
	}
	list := e.Sym("list", fn.Params[0].Type())
	for _, x := range e.Run(fn, e.Start(), engine.Val{list}, engine.Val{e.Sym(fn.Params[1].Name(), fn.Params[1].Type())}, engine.Val{e.Sym(fn.Params[2].Name(), fn.Params[2].Type())}) {
		c.Obl("pairs", con)
		if x.Kind != "return" || x.G.Auto["added"] != "1" {
			c.Fail("pairs", con, c.P.InstrPos(x.At), "no pair, or more than one, is added", x.G.Path(6))
		}
		v := e.FieldOf(x.G, engine.Val{list}, "Pairs")
		if !v.All(func(t *engine.Term) bool { return t.Op == "list" || t.Op == "vlist" }) {
			c.Fail("pairs", con, c.P.InstrPos(x.At), "the list with the pair added is not kept", nil)
		}
	}
	c.Absorb(e)
	c.Min("pairs", n, 1, "pairs added")
}

// nvpSplit: “name=value” is split at the first “=”.
func nvpSplit(c *C) {
	fn := c.Fn("(*rcmd.NvpList).AppendNvp")
	con := c.P.FnName(fn)
	for _, s := range []string{"A=B", "A=/lib/x=y:/z", "A=", "A"} {
		e := c.Eng()
		e.Relevant = rel(`^\(\*?rcmd\.Nvp`)
		tx := &Text{M: &Model{}}
		tx.M.Atom = func(t *engine.Term) (any, bool) {
			if t = engine.Strip(t); t.Op == "param" && t.Type != nil && isString(t.Type) {
				return s, true
			}
			return nil, false
		}
		tx.Use(e)
		wn, wv, found := strings.Cut(s, "=")
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != fnNvpAppend {
				return nil
			}
			ev.G.Auto["added"] = "1"
			nm, ok1 := tx.NormVal(ev.Arg(1))
			vl, ok2 := tx.NormVal(ev.Arg(2))
			if !ok1 || !ok2 || nm != wn || vl != wv {
				c.Fail("pairs", con, where(ev), fmt.Sprintf("%q becomes the name %q and the value %q", s, nm, vl), nil)
			}
			return []engine.Outcome{{}}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("pairs", con)
			if x.Kind != "return" || found && x.G.Auto["added"] != "1" {
				c.Fail("pairs", con, c.P.InstrPos(x.At), fmt.Sprintf("%q is not added", s), x.G.Path(6))
			}
		}
		c.Absorb(e)
	}
}

// nvpGet: a name is found exactly when the list has it.
func nvpGet(c *C, rule string) {
	for _, name := range []string{"(*rcmd.NvpList).Get", "(*rcmd.NvpList).GetNvp"} {
		fn := c.P.Func(name)
		if fn == nil {
			continue
		}
		con := c.P.FnName(fn)
		e := c.Eng()
		each := newEach(e)
		each.Track("pairs", func(t *engine.Term) bool { return isField(deref(t), "Pairs") })
		same := func(g *engine.G, val bool) bool {
			return factKnown(g, val, func(t *engine.Term) bool {
				if t.Op != "bin" || t.Str != "==" {
					return false
				}
				a, b := engine.Strip(t.Args[0]), engine.Strip(t.Args[1])
				p := func(t *engine.Term) bool { return t.Op == "param" && isString(t.Type) }
				n := func(t *engine.Term) bool {
					t = deref(e.Unprev(t))
					return isField(t, "Name") && deref(t.Args[0]).Op == "elem"
				}
				return p(a) && n(b) || p(b) && n(a)
			})
		}
		each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
			if !same(g, false) {
				c.Fail(rule, con, at, "a pair is passed over although its name may be the one asked for", g.Path(6))
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl(rule, con)
			if x.Kind != "return" || len(x.Res) != 2 {
				c.Fail(rule, con, c.P.InstrPos(x.At), "does not return", x.G.Path(6))
				continue
			}
			if e.IsTrue(x.G, x.Res[1]) && same(x.G, true) || e.IsFalse(x.G, x.Res[1]) && x.G.Auto["all:pairs"] == "1" {
				continue
			}
			c.Fail(rule, con, c.P.InstrPos(x.At), "a name is reported as found, or not, without the list deciding it", x.G.Path(6))
		}
		c.Absorb(e)
	}
}

// c22process: every place that starts R.
func c22process(c *C) {
	sites := map[ssa.Instruction]bool{}
	for _, fn := range c.P.Funcs() {
		if !strings.HasPrefix(c.P.FnName(rootFn(fn)), "rcmd.") && !strings.HasPrefix(c.P.FnName(rootFn(fn)), "(rcmd.") && !strings.HasPrefix(c.P.FnName(rootFn(fn)), "(*rcmd.") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && runsCommand(c.P.CalleeName(call.Common())) {
					sites[in] = true
				}
			}
		}
	}
	c.Min("process", len(sites), 4, "places that start a process")
	seen := map[ssa.Instruction]bool{}
	for _, start := range []struct {
		fn      string
		vanilla bool
	}{{"rcmd.StartR", true}, {"rcmd.RunR", true}, {"rcmd.RunRscriptWithArgs", false}, {"rcmd.RunRBatch", false}, {fnInstall1, true}} {
		fn := c.Fn(start.fn)
		con := c.P.FnName(fn)
		e := c.Eng()
		e.Relevant = rel(`^rcmd\.|^\(rcmd\.`, runsCommand)
		e.Opaque[fnEnv] = true
		e.Opaque["(rcmd.RSettings).R"] = true
		e.Opaque["(rcmd.InstallArgs).CliArgs"] = true
		e.Opaque["rcmd.writeDescriptionInfo"] = true
		param := func(t *engine.Term, typ func(types.Type) bool) bool {
			t = engine.Strip(e.Unprev(t))
			return t.Op == "param" && typ(t.Type)
		}
		hasPkg := false
		for _, p := range fn.Params {
			if isString(p.Type()) && p.Name() == "pkg" {
				hasPkg = true
			}
		}
		n := 0
		pr := newProcs()
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if !runsCommand(ev.Name) {
				return pr.call(ev)
			}
			n++
			seen[ev.Instr] = true
			env := e.FieldOf(ev.G, ev.Arg(0), "Env")
			if !env.All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				if t.Op != "call" || t.Str != fnEnv || len(t.Args) != 3 {
					return false
				}
				a := engine.Strip(t.Args[0])
				k := engine.Strip(t.Args[2])
				okPkg := param(k, isString)
				if !hasPkg {
					s, ok := k.ConstString()
					okPkg = ok && s == ""
				}
				return a.Op == "call" && a.Str == "os.Environ" && param(t.Args[1], isNamed("RSettings")) && okPkg
			}) {
				c.Fail("process", con, where(ev), "R is started with the environment "+short(e.SV(env)), ev.G.Path(6))
			}
			if start.vanilla && !pr.args(ev.Arg(0), func(x *engine.Term) bool { s, ok := x.ConstString(); return ok && s == "--vanilla" }) {
				c.Fail("vanilla", con, where(ev), "R is started without --vanilla", ev.G.Path(6))
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Obl("process", con)
		if start.vanilla {
			c.Obl("vanilla", con)
		}
		c.Min("process", n, 1, "processes started by "+con)
		c.Absorb(e)
	}
	for in := range sites {
		if !seen[in] {
			c.Fail("process", c.P.FnName(in.Parent()), c.P.InstrPos(in), "R is started by code that was not followed", nil)
		}
	}
}

// procs remembers what the processes made were given.
type procs struct{ of map[*engine.Term][]engine.Val }

func newProcs() *procs { return &procs{of: map[*engine.Term][]engine.Val{}} }

func (p *procs) call(ev *engine.Ev) []engine.Outcome {
	i := map[string]int{"os/exec.Command": 1, "os/exec.CommandContext": 2}[ev.Name]
	if i == 0 {
		return nil
	}
	t := ev.E.Sym("process at "+ev.Pos(), resType(ev, 0))
	p.of[t] = append(p.of[t], ev.Arg(i))
	return []engine.Outcome{{Res: []engine.Val{{t}}}}
}

// args reports whether the arguments of the process have, on every path, one
// that f accepts.
func (p *procs) args(v engine.Val, f func(*engine.Term) bool) bool {
	return v.All(func(t *engine.Term) bool {
		for _, as := range p.of[engine.Strip(t)] {
			if !as.All(func(l *engine.Term) bool { return l.Contains(f) }) {
				return false
			}
		}
		return len(p.of[engine.Strip(t)]) > 0
	})
}

// c22library: where packages are installed to and which library R sees.
func c22library(c *C) {
	// the sessions for the user see the library
	for _, name := range []string{"run", "experiment"} {
		fn := commandFunc(c, name)
		con := c.P.FnName(fn)
		e := c.Eng()
		e.Relevant = rel(`^rcmd\.(StartR|RunR|RunRBatch|RunRscriptWithArgs)$`)
		e.Opaque["rcmd.NewRSettings"] = true
		n := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch ev.Name {
			case "rcmd.StartR", "rcmd.RunR":
				n++
				l := e.FieldOf(ev.G, ev.Arg(2), "LibPaths")
				if !l.All(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { return isField(x, "Library") })
				}) {
					c.Fail("library", con, where(ev), "the session has the library paths "+short(e.SV(l)), ev.G.Path(6))
				}
				return symRes(ev, "out", "err")[:1]
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Obl("library", con)
		c.Min("library", n, 1, "sessions of "+con)
		c.Absorb(e)
	}
	// the installations
	sites := 0
	fn := c.Fn(fnTwoPhase)
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^rcmd\.`)
	e.Opaque["rcmd.isInCache"] = true
	e.Opaque["rcmd.randomString"] = true
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != fnInstall1 {
			return nil
		}
		sites++
		lib := e.FieldOf(ev.G, ev.Arg(3), "Library")
		toLib := lib.All(func(t *engine.Term) bool { return containsField(e.Unprev(t), "Library") })
		l := e.FieldOf(ev.G, ev.Arg(4), "LibPaths")
		if !toLib && !l.All(func(t *engine.Term) bool { return containsField(t, "Library") }) {
			c.Fail("library", con, where(ev), "the package is built with the library paths "+short(e.SV(l)), ev.G.Path(6))
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Obl("library", con)
	c.Min("library", sites, 2, "installations in two steps")
	c.Absorb(e)

	// what Install passes
	fn = c.Fn(fnInstall1)
	con = c.P.FnName(fn)
	e = c.Eng()
	e.Relevant = rel(`^rcmd\.|^\(rcmd\.`, runsCommand)
	for _, o := range []string{fnEnv, "(rcmd.RSettings).R", "(rcmd.InstallArgs).CliArgs", "rcmd.writeDescriptionInfo"} {
		e.Opaque[o] = true
	}
	n := 0
	pr := newProcs()
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if !runsCommand(ev.Name) {
			return pr.call(ev)
		}
		n++
		if !pr.args(ev.Arg(0), func(x *engine.Term) bool {
			return x.Op == "call" && x.Str == "(rcmd.InstallArgs).CliArgs" && len(x.Args) == 1 && x.Args[0].Contains(func(y *engine.Term) bool { return y.Op == "param" && isNamed("InstallArgs")(y.Type) })
		}) {
			c.Fail("library", con, where(ev), "the arguments of the installation are not those given", ev.G.Path(6))
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Obl("library", con)
	c.Min("library", n, 1, "installations")
	c.Absorb(e)
	cliArgs(c)
}

// cliArgs: every setting that is on becomes the option of that name.
func cliArgs(c *C) {
	fn := c.Fn("(rcmd.InstallArgs).CliArgs")
	con := c.P.FnName(fn)
	st := fn.Signature.Recv().Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		tag := reflectTag(st.Tag(i), "rcmd")
		switch st.Field(i).Name() {
		case "Library":
			if tag != "library=%s,fmt" {
				c.Fail("library", con, c.P.Pos(st.Field(i).Pos()), "the library is passed as "+tag, nil)
			}
		case "Build":
			if tag != "build" {
				c.Fail("library", con, c.P.Pos(st.Field(i).Pos()), "building is asked for as "+tag, nil)
			}
		default:
			if n, o, _ := strings.Cut(tag, ","); n == "" || o != "" || strings.Contains(n, "%") {
				c.Fail("library", con, c.P.Pos(st.Field(i).Pos()), "the option of "+st.Field(i).Name()+" is "+tag, nil)
			}
		}
	}
	e := c.Eng()
	each := newEach(e)
	names := func(t *engine.Term) bool {
		t = deref(t)
		return t.Op == "call" && (hasSuffix(t.Str, "structs.Names") || hasSuffix(t.Str, ".Names") || hasSuffix(t.Str, ".Fields"))
	}
	each.Track("opts", names)
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if hasSuffix(ev.Name, "structs.Field).IsZero") {
			out := symRes(ev, "zero")
			a := engine.Outcome{Res: []engine.Val{{e.Bool(true)}}, Do: func(g *engine.G) { g.Auto["did:opts/zero"] = "T" }}
			b := engine.Outcome{Res: []engine.Val{{e.Bool(false)}}, Do: func(g *engine.G) { g.Auto["did:opts/zero"] = "F" }}
			_ = out
			return []engine.Outcome{a, b}
		}
		if ev.Name == "append" {
			n++
			ev.G.Auto["did:opts"] = "1"
			if ev.G.Auto["did:opts/zero"] != "F" {
				c.Fail("library", con, where(ev), "an option is passed although its setting may be off", ev.G.Path(6))
			}
			if !ev.Arg(1).All(func(t *engine.Term) bool {
				for _, x := range vlistArgs(t) {
					if !anyConst(x, func(s string) bool { return strings.HasPrefix(s, "--") }) {
						return false
					}
				}
				return true
			}) {
				c.Fail("library", con, where(ev), "an option is passed as "+short(e.SV(ev.Arg(1))), nil)
			}
		}
		return nil
	}
	each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
		if g.Auto["did:opts/zero"] != "T" && g.Auto["did:opts"] != "1" {
			c.Fail("library", con, at, "a setting that is on is not passed", g.Path(6))
		}
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind == "return" && x.G.Auto["all:opts"] != "1" {
			c.Fail("library", con, c.P.InstrPos(x.At), "not all settings are visited", x.G.Path(6))
		}
	}
	c.Obl("library", con)
	c.Min("library", n, 1, "options passed")
	c.Absorb(e)
}

func reflectTag(tag, key string) string {
	return reflect.StructTag(tag).Get(key)
}

var secretVars = []string{"GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"}

const secret = "s3cret"

func c23(c *C) {
	c.Rule("masked", "the value of an inherited variable that holds a secret does not appear in the environment given to R, which is logged")
	c.Rule("logged", "the value of an inherited secret, and the caller's environment as such, are not logged")

	fn := c.Fn(fnEnv)
	con := c.P.FnName(fn)
	for _, n := range secretVars {
		for _, name := range []string{n, strings.ToLower(n), n[:3] + strings.ToLower(n[3:])} {
			w := envWorld{sys: name + "=" + secret, rpath: "R"}
			sets := 0
			envRun(c, w, func(s *envSet) {
				if s.src != "sys" {
					return
				}
				sets++
				if !s.known || strings.Contains(s.value, secret) || strings.Contains(s.name, secret) {
					c.Fail("masked", con+" "+n, s.at, name+" is passed on as "+s.term, s.g.Path(6))
				}
			}, nil)
			c.Obl("masked", con+" "+n)
			_ = sets
		}
		w := envWorld{sys: n + "=" + secret, rpath: "R"}
		e := c.Eng()
		e.Relevant = rel(`^rcmd\.|^\(\*?rcmd\.Nvp|^\(rcmd\.RSettings|logrus\.`)
		e.Opaque["rcmd.randomString"] = true
		tx := &Text{M: &Model{}}
		isElem := func(t *engine.Term) bool {
			t = deref(e.Unprev(t))
			return t.Op == "elem" && isStrings(t.Args[0].Type) && engine.Strip(t.Args[0]).Op == "param"
		}
		tx.M.Atom = func(t *engine.Term) (any, bool) {
			if isElem(t) {
				return w.sys, true
			}
			return nil, false
		}
		tx.Use(e)
		constKeys(e, tx)
		logs := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch {
			case ev.Name == fnNvpAppend || ev.Name == "(*rcmd.NvpList).AppendNvp":
				return []engine.Outcome{{}}
			case strings.Contains(ev.Name, "logrus.") || ev.Name == "mapstore":
				if ev.Name != "mapstore" {
					logs++
				}
				for i, a := range ev.Args {
					if ev.Name == "mapstore" && i < 2 {
						continue
					}
					for _, t := range a {
						if !t.Contains(isElem) {
							continue
						}
						if v, ok := tx.Norm(t); !ok || strings.Contains(v, secret) {
							c.Fail("logged", con, where(ev), n+" is logged: "+short(e.S(t)), ev.G.Path(6))
						}
					}
				}
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Obl("logged", con+" "+n)
		c.Absorb(e)
	}
	// what else reads the environment
	reads := 0
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || c.P.CalleeName(call.Common()) != "os.Environ" {
					continue
				}
				reads++
				c.Obl("logged", c.P.FnName(f))
				for _, r := range *call.Referrers() {
					rc, ok := r.(ssa.CallInstruction)
					if ok && c.P.CalleeName(rc.Common()) == fnEnv {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					if leaks := logUse(c, call); leaks != nil {
						c.Fail("logged", c.P.FnName(f), c.P.InstrPos(leaks), "the caller's environment is logged", nil)
					}
				}
			}
		}
	}
	c.Min("logged", reads, 1, "places that read the environment")
}

// logUse finds a log call that v, or something made from it, reaches within
// its function, other than through configureEnv.
func logUse(c *C, v ssa.Value) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) ssa.Instruction
	walk = func(v ssa.Value) ssa.Instruction {
		if v == nil || seen[v] || v.Referrers() == nil {
			return nil
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case ssa.CallInstruction:
				n := c.P.CalleeName(r.Common())
				if n == fnEnv {
					continue
				}
				if strings.Contains(n, "logrus") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") {
					return r
				}
				if res, ok := r.(ssa.Value); ok {
					if x := walk(res); x != nil {
						return x
					}
				}
			case *ssa.MapUpdate:
				if x := walk(r.Map); x != nil {
					return x
				}
			case *ssa.Store:
				a := r.Addr
				if x := walk(a); x != nil {
					return x
				}
				switch a := a.(type) {
				case *ssa.IndexAddr:
					if x := walk(a.X); x != nil {
						return x
					}
				case *ssa.FieldAddr:
					if _, ok := a.X.Type().Underlying().(*types.Pointer); ok && hasSuffix(a.X.Type().String(), "exec.Cmd") {
						continue
					}
					if x := walk(a.X); x != nil {
						return x
					}
				}
			case ssa.Value:
				if x := walk(r); x != nil {
					return x
				}
			}
		}
		return nil
	}
	return walk(v)
}

func c24(c *C) {
	c.Rule("package", "the variables set for a package reach the R process that builds it, with the names and values given, after all others of the configuration")
	c.Rule("override", "a variable the configuration sets is not replaced by the inherited one of that name")
	c.Rule("inherited", "every other inherited variable with a value is passed on as it is, PATH after the directory of the chosen R")
	c.Rule("settings", "the variables kept for a package are those its customisation has, for every customised package")
	c.Rule("passed", "an installation is run with the settings of the run and the name of its package")

	con := c.P.FnName(c.Fn(fnEnv))
	type want struct {
		w     envWorld
		value string
	}
	var ws []want
	for _, custom := range []bool{false, true} {
		for _, set := range []bool{false, true} {
			for _, kv := range []string{"HOME=/home/u", "X=a=b,c d", "R_MAX_NUM_DLLS=100", "PATH_EXTRA=/q"} {
				_, v, _ := strings.Cut(kv, "=")
				ws = append(ws, want{envWorld{sys: kv, set: set, custom: custom, rpath: "/opt/R/4/bin/R"}, v})
			}
		}
	}
	for _, r := range []struct{ rpath, path, want string }{
		{"R", "/usr/bin:/bin", "/usr/bin:/bin"},
		{"/opt/R/4/bin/R", "/usr/bin:/bin", "/opt/R/4/bin:/usr/bin:/bin"},
		{"/opt/R/4/bin/R", "/opt/R/4/bin:/usr/bin", "/opt/R/4/bin:/usr/bin"},
		{"/opt/R/4/bin/R", "/usr/bin:/opt/R/4/bin", "/opt/R/4/bin:/usr/bin:/opt/R/4/bin"},
		{"/opt/R/4/bin/R", "/opt/R/4/bin-old:/usr/bin", "/opt/R/4/bin:/opt/R/4/bin-old:/usr/bin"},
		{"/opt/R/4/bin/R", "/opt/R/4/bin", "/opt/R/4/bin"},
	} {
		ws = append(ws, want{envWorld{sys: "PATH=" + r.path, rpath: r.rpath}, r.want})
	}
	for _, x := range ws {
		w := x.w
		name := envName(w.sys)
		envRun(c, w, func(s *envSet) {
			switch s.src {
			case "sys":
				s.g.Auto["did:sys"] = "1"
				if w.set && doneCustom(w, s.g) {
					c.Fail("override", con, s.at, "the inherited "+name+" replaces the one of the configuration", s.g.Path(6))
				}
				if !w.set && (!s.known || s.name != name || s.value != x.value) {
					c.Fail("inherited", con, s.at, fmt.Sprintf("%s is passed on as %s", w.sys, s.term), s.g.Path(6))
				}
			case "pkg":
				s.g.Auto["did:pkg"] = "1"
				if !s.known || s.name != "Own_key1" || s.value != "Own Value=1" {
					c.Fail("package", con, s.at, "a variable of the package is set as "+s.term, s.g.Path(6))
				}
				if s.g.Auto["all:global"] != "1" {
					c.Fail("package", con, s.at, "variables of all packages may override those of the package", s.g.Path(6))
				}
			case "global":
				s.g.Auto["did:global"] = "1"
				if !s.known || s.name != "Global_name" || s.value != "Global Value=1" {
					c.Fail("package", con, s.at, "a variable of all packages is set as "+s.term, s.g.Path(6))
				}
			case "end:sys":
				if !w.set && s.g.Auto["did:sys"] != "1" {
					c.Fail("inherited", con, s.at, "the inherited "+w.sys+" is not passed on", s.g.Path(6))
				}
			case "end:pkg":
				if s.g.Auto["did:pkg"] != "1" {
					c.Fail("package", con, s.at, "a variable of the package is not set", s.g.Path(6))
				}
			case "end:global":
				if s.g.Auto["did:global"] != "1" && s.g.Auto["did:global/exists"] != "1" {
					c.Fail("package", con, s.at, "a variable of all packages is not set", s.g.Path(6))
				}
			}
		}, func(x *engine.Exit) {
			c.Obl("package", con)
			c.Obl("override", con+" "+name)
			c.Obl("inherited", con+" "+name)
			if x.Kind == "return" && (!doneCustom(w, x.G) || x.G.Auto["all:sys"] != "1") {
				c.Fail("package", con, c.P.InstrPos(x.At), "not all variables are visited", x.G.Path(6))
			}
		})
	}
	nvpGet(c, "override")
	c24settings(c)
	c24passed(c)
}

// c24settings: what SetCustomizations keeps.
func c24settings(c *C) {
	fn := c.Fn(fnSetEnvs)
	con := c.P.FnName(fn)
	for _, has := range []bool{false, true} {
		e := c.Eng()
		isList := func(t *engine.Term) bool {
			t = deref(t)
			return isField(t, "Packages") && containsField(t.Args[0], "Customizations")
		}
		isMap := func(t *engine.Term) bool { t = deref(e.Unprev(t)); return t.Op == "elem" && isList(t.Args[0]) }
		isEnv := func(t *engine.Term) bool {
			t = engine.Strip(e.Unprev(t))
			if !isField(t, "Env") {
				return false
			}
			b := deref(e.Unprev(t.Args[0]))
			if m, k := lookupOf(b); m != nil {
				return isMap(m) && engine.Strip(e.Unprev(k)).Op == "key"
			}
			return b.Op == "val" && isMap(b.Args[0])
		}
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if t.Op == "bin" && t.Str == "==" && t.Args[1].Op == "nil" && isEnv(t.Args[0]) {
				return !has, true
			}
			if t.Op == "empty" && isEnv(t.Args[0]) {
				return !has, true
			}
			if t.Op == "call" && t.Str == "len" && isEnv(t.Args[0]) {
				if has {
					return int64(1), true
				}
				return int64(0), true
			}
			return nil, false
		}
		m.Use(e)
		each := newEach(e)
		each.Track("lists", isList)
		each.Track("pkgs", isMap)
		n := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != "mapstore" || !ev.Arg(0).Any(func(t *engine.Term) bool { return isField(deref(t), "PkgEnvVars") }) {
				return nil
			}
			n++
			key := ev.Arg(1).All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				return t.Op == "key" && isMap(t.Args[0])
			})
			if !key || !ev.Arg(2).All(isEnv) {
				c.Fail("settings", con, where(ev), short(e.SV(ev.Arg(2))+" is kept for "+e.SV(ev.Arg(1))), ev.G.Path(6))
			}
			ev.G.Auto["did:pkgs"] = "1"
			return nil
		}
		each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
			switch key {
			case "pkgs":
				if has && g.Auto["did:pkgs"] != "1" {
					c.Fail("settings", con, at, "the variables of a customised package are not kept", g.Path(6))
				}
			case "lists":
				if g.Auto["all:pkgs"] != "1" {
					c.Fail("settings", con, at, "customised packages are passed over", g.Path(6))
				}
				delete(g.Auto, "all:pkgs")
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("settings", con)
			if x.Kind != "return" || x.G.Auto["all:lists"] != "1" {
				c.Fail("settings", con, c.P.InstrPos(x.At), "not all customisations are visited", x.G.Path(6))
				continue
			}
			if !e.FieldOf(x.G, x.Res[0], "PkgEnvVars").All(func(t *engine.Term) bool { return isField(deref(t), "PkgEnvVars") }) {
				c.Fail("settings", con, c.P.InstrPos(x.At), "the settings returned are not those with the variables", nil)
			}
		}
		c.Absorb(e)
		if has {
			c.Min("settings", n, 1, "variables kept")
		}
	}
}

// c24passed: which settings an installation runs with.
func c24passed(c *C) {
	envOf := func(e *engine.Eng, g *engine.G, rs engine.Val, ok func(*engine.Term) bool) bool {
		return e.FieldOf(g, rs, "PkgEnvVars").All(func(t *engine.Term) bool { return isField(deref(t), "PkgEnvVars") && ok(deref(t).Args[0]) })
	}
	// the command
	fn := commandFunc(c, "install")
	con := c.P.FnName(fn)
	e := c.Eng()
	e.Relevant = rel(`^rcmd\.(InstallPackagePlan|Install)$|^configlib\.SetCustomizations$`)
	opaqueBut(e, c, "cmd.")
	for _, o := range []string{fnPlan, fnPlanning, "rcmd.Install", fnSetEnvs} {
		e.Opaque[o] = true
	}
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnSetEnvs:
			return symRes(ev, "customised")
		case fnPlan:
			n++
			c24arg(c, e, ev, con, 5)
			return okFail(ev, nil, nil)
		case fnInstall1:
			n++
			c24arg(c, e, ev, con, 4)
			key := func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				return t.Op == "key" && isField(deref(t.Args[0]), "AdditionalPackageSources")
			}
			if !ev.Arg(1).All(key) {
				c.Fail("passed", con, where(ev), "a tarball is installed under the name "+short(e.SV(ev.Arg(1))), nil)
			}
			return okFail(ev, nil, nil)
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Obl("passed", con)
	c.Min("passed", n, 2, "installations of "+con)
	c.Absorb(e)

	// the queue
	planFn := c.Fn(fnPlan)
	con = c.P.FnName(planFn)
	pushes := 0
	for _, f := range c.P.Funcs() {
		if rootFn(f) != planFn {
			continue
		}
		e := c.Eng()
		e.Relevant = rel(`InstallQueue\)\.Push$`)
		e.GoMode = "skip"
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if !hasSuffix(ev.Name, "InstallQueue).Push") {
				return nil
			}
			pushes++
			ir := ev.Arg(1)
			rs := e.FieldOf(ev.G, ir, "RSettings")
			if !rs.All(func(t *engine.Term) bool {
				return isNamed("RSettings")(t.Type) && (deref(t).Op == "param" || deref(t).Op == "free")
			}) {
				c.Fail("passed", con, where(ev), "an installation is run with the settings "+short(e.SV(rs)), nil)
			}
			return []engine.Outcome{{}}
		}
		e.Run(f, e.Start())
		c.Absorb(e)
	}
	c.Obl("passed", con)
	c.Min("passed", pushes, 1, "installations queued")

	// the two steps
	fn = c.Fn(fnTwoPhase)
	con = c.P.FnName(fn)
	e = c.Eng()
	e.Relevant = rel(`^rcmd\.`)
	e.Opaque["rcmd.randomString"] = true
	n = 0
	req := func(t *engine.Term) bool {
		t = deref(e.Unprev(t))
		for t.Op == "field" && t.Str == "RSettings" {
			t = deref(t.Args[0])
		}
		return t.Op == "param" && isNamed("InstallRequest")(t.Type)
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != fnInstall1 {
			return nil
		}
		n++
		if !envOf(e, ev.G, ev.Arg(4), req) {
			c.Fail("passed", con, where(ev), "the package is installed with the variables "+short(e.SV(e.FieldOf(ev.G, ev.Arg(4), "PkgEnvVars"))), ev.G.Path(6))
		}
		if !ev.Arg(1).All(func(t *engine.Term) bool { t = engine.Strip(t); return isField(t, "Package") && req(t.Args[0]) }) {
			c.Fail("passed", con, where(ev), "the package is installed as "+short(e.SV(ev.Arg(1))), ev.G.Path(6))
		}
		return okFail(ev, nil, nil)
	}
	e.Run(fn, e.Start())
	c.Obl("passed", con)
	c.Min("passed", n, 3, "installations of "+con)
	c.Absorb(e)

	// the session with the variables of a package
	fn = commandFunc(c, "run")
	con = c.P.FnName(fn)
	for _, known := range []bool{false, true} {
		e = c.Eng()
		e.Relevant = rel(`^rcmd\.StartR$|^configlib\.GetPackageCustomizationByName$`)
		e.Opaque["rcmd.NewRSettings"] = true
		n = 0
		name := func(v engine.Val) bool {
			return v.All(func(t *engine.Term) bool {
				t = engine.Strip(t)
				return t.Op == "load" && t.Args[0].Op == "global"
			})
		}
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch ev.Name {
			case "configlib.GetPackageCustomizationByName":
				if !name(ev.Arg(0)) {
					c.Fail("passed", con, where(ev), "the customisation asked for is that of "+short(e.SV(ev.Arg(0))), nil)
				}
				o := symRes(ev, "customisation", "")
				o[0].Res[1] = engine.Val{e.Bool(known)}
				return o
			case "mapstore":
				if ev.Arg(0).Any(func(t *engine.Term) bool { return isField(deref(t), "PkgEnvVars") }) {
					ev.G.Auto["kept"] = "1"
					if !name(ev.Arg(1)) || !ev.Arg(2).All(func(t *engine.Term) bool {
						t = engine.Strip(t)
						return isField(t, "Env") && deref(t.Args[0]).Op == "param"
					}) {
						c.Fail("passed", con, where(ev), short(e.SV(ev.Arg(2))+" is kept for "+e.SV(ev.Arg(1))), nil)
					}
				}
			case "rcmd.StartR":
				n++
				if !name(ev.Arg(1)) {
					c.Fail("passed", con, where(ev), "the session is started for "+short(e.SV(ev.Arg(1))), nil)
				}
				if known && ev.G.Auto["kept"] != "1" {
					c.Fail("passed", con, where(ev), "the session is started without the variables of the package", ev.G.Path(6))
				}
				return symRes(ev, "err")
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Obl("passed", con)
		c.Min("passed", n, 1, "sessions of "+con)
		c.Absorb(e)
	}
	// the customisation of a name
	fn = c.Fn("configlib.GetPackageCustomizationByName")
	con = c.P.FnName(fn)
	for _, has := range []bool{false, true} {
		e = c.Eng()
		m := &Model{}
		isIt := func(t *engine.Term) bool {
			mm, k := lookupOf(e.Unprev(t))
			if mm == nil {
				return false
			}
			b := deref(e.Unprev(mm))
			return b.Op == "elem" && isField(deref(b.Args[0]), "Packages") && deref(k).Op == "param" && isString(deref(k).Type)
		}
		m.Atom = func(t *engine.Term) (any, bool) {
			if t.Op == "haskey" && isIt(t) {
				return has, true
			}
			return nil, false
		}
		m.Use(e)
		each := newEach(e)
		each.Track("lists", func(t *engine.Term) bool { return isField(deref(t), "Packages") })
		each.Iter = func(_ string, _ *engine.Term, g *engine.G, at string) {
			if has {
				c.Fail("passed", con, at, "the customisation of the package is passed over", g.Path(6))
			}
		}
		for _, x := range e.Run(fn, e.Start()) {
			c.Obl("passed", con)
			if x.Kind == "return" && e.IsTrue(x.G, x.Res[1]) && x.Res[0].All(isIt) || x.Kind == "return" && e.IsFalse(x.G, x.Res[1]) && x.G.Auto["all:lists"] == "1" {
				continue
			}
			c.Fail("passed", con, c.P.InstrPos(x.At), "the customisation of another package, or none, is given", x.G.Path(6))
		}
		c.Absorb(e)
	}
}

// c24arg: the settings of an installation are those with the customisations.
func c24arg(c *C, e *engine.Eng, ev *engine.Ev, con string, i int) {
	for ; i < len(ev.Args); i++ {
		if ev.Arg(i).Any(func(t *engine.Term) bool { return isNamed("RSettings")(t.Type) }) {
			break
		}
	}
	if !ev.Arg(i).All(func(t *engine.Term) bool { t = deref(t); return t.Op == "param" && t.Str == "customised" }) {
		c.Fail("passed", con, where(ev), "the installation is run with the settings "+short(e.SV(ev.Arg(i))), ev.G.Path(6))
	}
}
