package checks

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C09", "Abstract interpretation of the commands that only look: provenance of every path they change and of every program they run.", c09)
	register("C19", "Abstract interpretation of the cleaning commands for every combination of options: provenance and conditions of every removal.", c19)
}

// commandFunc finds the function a subcommand runs, by the name users type.
func commandFunc(c *C, use string) *ssa.Function {
	for _, pkg := range c.P.SSA.AllPackages() {
		if !strings.HasSuffix(pkg.Pkg.Path(), "/cmd") {
			continue
		}
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		run := map[ssa.Value]*ssa.Function{}
		name := map[ssa.Value]string{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fa.X.Type().String(), "cobra.Command") {
					continue
				}
				switch fieldName(fa) {
				case "Use":
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
						name[fa.X] = strings.Fields(strings.Trim(k.Value.ExactString(), "\"`") + " ")[0]
					}
				case "Run", "RunE":
					switch f := st.Val.(type) {
					case *ssa.Function:
						run[fa.X] = f
					case *ssa.MakeClosure:
						run[fa.X], _ = f.Fn.(*ssa.Function)
					}
				}
			}
		}
		for v, n := range name {
			if n == use && run[v] != nil {
				return run[v]
			}
		}
	}
	return nil
}

// bases are the places a path lies in: what is left of it when everything
// that is appended to it is taken away.
func bases(t *engine.Term) []*engine.Term {
	t = engine.Strip(t)
	all := func(ts []*engine.Term) []*engine.Term {
		var out []*engine.Term
		for _, a := range ts {
			out = append(out, bases(a)...)
		}
		return out
	}
	switch t.Op {
	case "alt", "mix":
		return all(t.Args)
	case "prev":
		return all(t.Args[:1])
	case "bin":
		if t.Str == "+" {
			return bases(t.Args[0])
		}
	case "call":
		switch t.Str {
		case "path/filepath.Join", "path.Join":
			if len(t.Args) == 1 && len(t.Args[0].Args) > 0 {
				return bases(t.Args[0].Args[0])
			}
		case "fmt.Sprintf":
			if f, ok := t.Args[0].ConstString(); ok && strings.HasPrefix(f, "%s") && len(t.Args) == 2 && len(t.Args[1].Args) > 0 {
				return bases(t.Args[1].Args[0])
			}
		case "path/filepath.Dir", "path/filepath.Clean", "path/filepath.Abs", "strings.TrimSuffix", "strings.TrimRight", "path/filepath.ToSlash", "path/filepath.FromSlash", "(*os.Root).Name", "os.OpenRoot":
			return bases(t.Args[0])
		}
	case "res", "result":
		if len(t.Args) == 1 {
			if u := engine.Strip(t.Args[0]); u.Op == "call" && (u.Str == "path/filepath.Abs" || u.Str == "os.OpenRoot") {
				return bases(u)
			}
		}
	case "opaque":
		return nil
	}
	return []*engine.Term{t}
}

// scratch reports a place a command may always write to: a cache, the
// temporary directory, or a log file.
func scratch(e *engine.Eng, t *engine.Term) bool {
	s := e.S(t)
	for _, p := range []string{"os.UserCacheDir", "os.TempDir", "os.MkdirTemp", "io/ioutil.TempDir", "github.com/spf13/afero.TempDir", "os.CreateTemp", "io/ioutil.TempFile"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return strings.HasSuffix(s, ".Cache") || strings.Contains(s, ".Logging.")
}

func c09(c *C) {
	c.Rule("changes", "plan, inspect, load and debug create, change and remove files only in the caches, in the temporary directory and in the log")
	c.Rule("programs", "they start nothing that installs or removes packages")
	c.Assume("Expressions that load packages in R (library(), find.package()) change nothing. What the tarball extraction writes lies in the folder it was given (C20).")
	n := 0
	for _, use := range []string{"plan", "inspect", "load", "debug"} {
		fn := commandFunc(c, use)
		if fn == nil {
			c.Obl("changes", "pkgr "+use)
			c.Fail("changes", "pkgr "+use, "", "the command was not found", nil)
			continue
		}
		con := "pkgr " + use
		c.Obl("changes", con)
		c.Obl("programs", con)
		e := c.Eng()
		e.GoMode = "seq"
		e.UnrollFew = false
		e.Relevant = func(n string) bool { return mutatingFS(n) || runsCommand(n) || n == "os/exec.Command" }
		k := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			for _, f := range fsEffects(ev) {
				k++
				for _, v := range []engine.Val{f.Path, f.To} {
					for _, t := range v {
						c09path(c, e, con, f.Kind, t, ev)
					}
				}
			}
			if strings.HasPrefix(ev.Name, "os/exec.Command") {
				k++
				for _, a := range ev.Args {
					for _, t := range a {
						if t.Contains(func(x *engine.Term) bool {
							s, ok := x.ConstString()
							return ok && (s == "INSTALL" || s == "REMOVE" || strings.Contains(s, "install.packages") || strings.Contains(s, "remove.packages"))
						}) {
							c.Fail("programs", con, where(ev), "a program that changes the library is started: "+short(e.S(t)), ev.G.Path(8))
						}
					}
				}
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Absorb(e)
		n += k
		if use != "debug" {
			c.Min("changes", k, 5, "effects of "+con)
		}
	}
}

func c09path(c *C, e *engine.Eng, con, kind string, t *engine.Term, ev *engine.Ev) {
	if t.Op == "mix" {
		// merged over many iterations: what it was merged from
		if t.Contains(func(x *engine.Term) bool { return x.Op == "field" && (x.Str == "Library" || x.Str == "LibPaths") }) || !t.Contains(func(x *engine.Term) bool { return scratch(e, x) }) {
			c.Fail("changes", con, where(ev), kind+" of "+short(e.S(t)), ev.G.Path(8))
		}
		return
	}
	bs := bases(t)
	if len(bs) == 0 {
		c.Fail("changes", con, where(ev), kind+" of "+short(e.S(t)), ev.G.Path(8))
	}
	for _, b := range bs {
		if !scratch(e, b) {
			c.Fail("changes", con, where(ev), kind+" of "+short(e.S(t)), ev.G.Path(8))
		}
	}
}

// flagVar is the package variable a command line flag is stored in.
func flagVar(c *C, flag string) string {
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || !strings.Contains(c.P.CalleeName(call.Common()), "pflag.FlagSet).") {
					continue
				}
				var g *ssa.Global
				named := false
				for _, a := range call.Common().Args {
					switch x := a.(type) {
					case *ssa.Global:
						g = x
					case *ssa.Const:
						if x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) == flag {
							named = true
						}
					}
				}
				if g != nil && named {
					return c.P.Short(g.String())
				}
			}
		}
	}
	return ""
}

// isVar reports a read of the package variable.
func isVar(t *engine.Term, name string) bool {
	t = deref(t)
	return t.Op == "global" && t.Str == name
}

func c19(c *C) {
	c.Rule("confined", "cleaning removes only the src and binary folders of repositories in the cache, emptied folders of repositories, extracted tarballs, and cached package databases")
	c.Rule("selection", "only source files, only binary files or both are removed, as the options say; contradictory options remove nothing and fail")
	c.Rule("requested", "when repositories are named, only theirs are removed; each of them, and otherwise each repository, is")
	c.Rule("same-tarball", "the extracted tarball that is removed is the one the installation uses")
	c.Rule("same-database", "the package database that is removed is the one of the running R that installations read")
	run := commandFunc(c, "cache")
	if run == nil {
		c.Obl("confined", "pkgr clean cache")
		c.Fail("confined", "pkgr clean cache", "", "the command was not found", nil)
	} else {
		n := 0
		for _, src := range []bool{false, true} {
			for _, bin := range []bool{false, true} {
				for _, repos := range []string{"ALL", "r1,r2", "r1,", ""} {
					for _, cache := range []string{"", "/c"} {
						n += c19cache(c, run, src, bin, repos, cache)
					}
				}
			}
		}
		c.Min("confined", n, 32, "removals")
	}
	c19dbs(c)
}

// cacheAtom gives the configured cache, and cacheCalls where it lies by default.
func cacheAtom(cache string) func(t *engine.Term) (any, bool) {
	return func(t *engine.Term) (any, bool) {
		u := deref(t)
		if u.Op == "field" && u.Str == "Cache" || u.Op == "param" && u.Type != nil && isString(u.Type) {
			return cache, true
		}
		return nil, false
	}
}

func cacheCalls(ev *engine.Ev) []engine.Outcome {
	if ev.Name == "os.UserCacheDir" {
		return []engine.Outcome{{Res: []engine.Val{{ev.E.Str("/home")}, {ev.E.Nil()}}}}
	}
	return nil
}

// tarballHash stands for the hash of a tarball's content.
func tarballHash(ev *engine.Ev) []engine.Outcome {
	e := ev.E
	ofTarball := func(v engine.Val) bool {
		return v.All(func(t *engine.Term) bool {
			return t.Contains(func(x *engine.Term) bool {
				return x.Op == "elem" && x.Contains(func(y *engine.Term) bool { return y.Op == "field" && y.Str == "Tarballs" || y.Op == "param" })
			})
		})
	}
	switch {
	case (ev.Name == "io.Copy" || ev.Name == "(hash.Hash).Write" || ev.Name == "io.WriteString") && len(ev.Args) > 1:
		ev.G.Auto["hashed"] = "other"
		if ev.Name == "io.Copy" && ofTarball(ev.Arg(1)) {
			ev.G.Auto["hashed"] = "tarball"
		}
		return okFail(ev, nil, nil)
	case hasSuffix(ev.Name, "(hash.Hash).Sum"):
		h := ev.G.Auto["hashed"]
		delete(ev.G.Auto, "hashed")
		return []engine.Outcome{{Res: []engine.Val{{e.Str("hash of " + h)}}}}
	}
	return nil
}

// cachePath splits the path of an entry of the cache.
func cachePath(tx *Text, t *engine.Term) (base string, rest []*engine.Term) {
	ps := pathParts(t)
	for len(ps) > 0 {
		s, ok := tx.Norm(ps[0])
		if !ok || strings.ContainsAny(s, "<") || strings.Contains(s, "hash of") {
			break
		}
		if base != "" {
			base += "/"
		}
		base += s
		ps = ps[1:]
	}
	return base, ps
}

func c19cache(c *C, run *ssa.Function, src, bin bool, repos, cache string) int {
	con := "options"
	if src {
		con += " src-only"
	}
	if bin {
		con += " binaries-only"
	}
	if repos != "ALL" {
		con += " repos"
	}
	if repos == "" || strings.HasSuffix(repos, ",") {
		con += " with an empty name"
	}
	if cache != "" {
		con += " configured cache"
	}
	root := cache
	if cache == "" {
		root = "/home/pkgr"
	}
	vs, vb, vr := flagVar(c, "src-only"), flagVar(c, "binaries-only"), flagVar(c, "repos")
	m := &Model{}
	ca := cacheAtom(cache)
	m.Atom = func(t *engine.Term) (any, bool) {
		switch {
		case isVar(t, vs):
			return src, true
		case isVar(t, vb):
			return bin, true
		case isVar(t, vr):
			return repos, true
		}
		return ca(t)
	}
	for _, r := range []string{"confined", "selection", "requested", "same-tarball"} {
		c.Obl(r, con)
	}
	e := c.Eng()
	tx := &Text{M: m}
	tx.Use(e)
	isListing := func(t *engine.Term) bool {
		return t.Contains(func(x *engine.Term) bool {
			return x.Op == "call" && (strings.HasSuffix(x.Str, ".Readdir") || strings.HasSuffix(x.Str, "ReadDir") || strings.HasSuffix(x.Str, ".Readdirnames"))
		})
	}
	ofListing := func(t *engine.Term) bool {
		t = deref(t)
		for t.Op == "call" && len(t.Args) > 0 && hasSuffix(t.Str, ".Name") {
			t = deref(t.Args[0])
		}
		return t.Op == "elem" && isListing(t)
	}
	ofRequest := func(t *engine.Term) bool {
		return t.Contains(func(x *engine.Term) bool { return isVar(x, vr) })
	}
	named := Sets{}
	e.Relevant = func(n string) bool {
		return mutatingFS(n) || strings.HasPrefix(n, "(hash.Hash)") || n == "os.UserCacheDir"
	}
	watch(e, func(t *engine.Term) string {
		if t.Op == "bin" && t.Str == "==" {
			x, y := t.Args[0], t.Args[1]
			if ofListing(x) && ofRequest(y) || ofListing(y) && ofRequest(x) {
				return "did:folders:eq"
			}
		}
		if isMember(t, func(t *engine.Term) bool { return ofRequest(t) || named.Has(t) }) {
			return "did:folders:eq"
		}
		return ""
	})
	each := newEach(e)
	each.Track("folders", isListing)
	each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
		if g.Auto["did:folders:eq"] == "F" || repos != "ALL" && g.Auto["did:folders:eq"] == "" {
			return
		}
		if g.Auto["did:folders:removed"] == "" {
			c.Fail("requested", con, at, "the folder of a repository that was to be cleaned is left", g.Path(8))
		}
	}
	subs := map[string]bool{}
	n, tarballs := 0, 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		named.See(ev, ofRequest)
		if out := cacheCalls(ev); out != nil {
			return out
		}
		if out := tarballHash(ev); out != nil {
			return out
		}
		for _, f := range fsEffects(ev) {
			n++
			for _, t := range f.Path {
				u := engine.Strip(t)
				for (u.Op == "res" || u.Op == "call") && len(u.Args) > 0 && (u.Op == "res" || strings.HasSuffix(u.Str, "filepath.Abs") || strings.HasSuffix(u.Str, "filepath.Clean")) {
					u = engine.Strip(u.Args[0])
				}
				base, rest := cachePath(tx, u)
				bad := func(rule, msg string) {
					c.Fail(rule, con, where(ev), msg+": "+f.Kind+" of "+short(e.S(t)), ev.G.Path(8))
				}
				if src && bin {
					bad("selection", "something is removed although the options contradict each other")
				}
				if base != root {
					bad("confined", "a path outside the cache that is used")
					continue
				}
				switch {
				case f.Kind != "removeall" && f.Kind != "remove":
					bad("confined", "cleaning changes something other than by removing it")
				case len(rest) == 2 && ofListing(rest[0]) && f.Kind == "removeall":
					s, _ := tx.Norm(rest[1])
					subs[s] = true
					if s != "src" && s != "binary" {
						bad("confined", "neither the source nor the binary files of a repository")
					}
					if s == "src" && bin || s == "binary" && src {
						bad("selection", "files of the other type are removed")
					}
					if repos != "ALL" && ev.G.Auto["did:folders:eq"] != "T" {
						bad("requested", "files of a repository that was not named are removed")
					}
					ev.G.Auto["did:folders:removed"] = "1"
				case len(rest) == 1 && ofListing(rest[0]) && f.Kind == "remove":
					// an empty folder only
					if repos != "ALL" && ev.G.Auto["did:folders:eq"] != "T" {
						bad("requested", "the folder of a repository that was not named is removed")
					}
				case len(rest) == 1 && anyConst(rest[0], func(s string) bool { return s == "hash of tarball" }):
					tarballs++
					ev.G.Auto["tar:"+e.S(rest[0])] = "1"
					if want := c19untar(c, cache); want != base+"/"+e.S(rest[0]) {
						c.Fail("same-tarball", con, where(ev), "removed is "+short(base+"/"+e.S(rest[0]))+", the installation uses "+short(want), nil)
					}
				default:
					bad("confined", "not a part of the cache that belongs to a repository or a tarball")
				}
			}
		}
		return nil
	}
	for _, x := range e.Run(run, e.Start()) {
		if x.Kind != "return" || len(x.Res) == 0 {
			continue
		}
		if src && bin {
			c.Need(e.IsNonNil(x.G, x.Res[len(x.Res)-1]), "selection", con, "", "contradictory options are not reported")
		}
	}
	c.Absorb(e)
	if !(src && bin) {
		c.Need(subs["src"] == !bin && subs["binary"] == !src, "selection", con, "", "the options select "+strings.Join(keys(subs), ", "))
		c.Need(tarballs > 0, "same-tarball", con, "", "extracted tarballs are not removed")
	}
	return n
}

var untarIn = map[string]string{}

// c19untar is where the installation extracts a tarball to.
func c19untar(c *C, cache string) string {
	if s := untarIn[cache]; s != "" {
		return s
	}
	fn := c.Fn("cmd.unpackTarballs")
	m := &Model{Atom: cacheAtom(cache)}
	e := c.Eng()
	tx := &Text{M: m}
	tx.Use(e)
	out := "?"
	e.Relevant = func(n string) bool {
		return mutatingFS(n) || strings.HasPrefix(n, "(hash.Hash)") || n == "os.UserCacheDir"
	}
	e.Opaque["internal/archive.Extract"] = true
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if out := cacheCalls(ev); out != nil {
			return out
		}
		if out := tarballHash(ev); out != nil {
			return out
		}
		for _, f := range fsEffects(ev) {
			if f.Kind == "rename" {
				for _, t := range f.To {
					base, rest := cachePath(tx, t)
					out = base
					for _, r := range rest {
						out += "/" + e.S(r)
					}
				}
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	untarIn[cache] = out
	return out
}

// fullVersion is the text a version of R normalises to.
func fullVersion(t *engine.Term) (any, bool) {
	u := deref(t)
	if u.Op == "field" {
		switch u.Str {
		case "Major", "Minor", "Patch":
			return "<" + u.Str + ">", true
		}
	}
	return nil, false
}

const cacheFileOf = "(*cran.RepoDb).GetRepoDbCacheFilePath"

func c19dbs(c *C) {
	run := commandFunc(c, "pkgdbs")
	if run == nil {
		c.Obl("requested", "pkgr clean pkgdbs")
		c.Fail("requested", "pkgr clean pkgdbs", "", "the command was not found", nil)
		return
	}
	c.Fn(cacheFileOf)
	for _, repos := range []string{"ALL", "r1,r2", "r1,"} {
		con := "package databases of " + repos
		for _, r := range []string{"confined", "requested", "same-database"} {
			c.Obl(r, con)
		}
		// the flag is read by the command, or passed on
		vars := map[string]bool{}
		for _, fn := range withCallees(c, run) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ld, ok := in.(*ssa.UnOp); ok {
						if g, ok := ld.X.(*ssa.Global); ok && isString(ld.Type()) {
							vars[c.P.Short(g.String())] = true
						}
					}
				}
			}
		}
		isFlag := func(t *engine.Term) bool {
			u := deref(t)
			return u.Op == "global" && vars[u.Str]
		}
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if isFlag(t) {
				return repos, true
			}
			return fullVersion(t)
		}
		e := c.Eng()
		tx := &Text{M: m}
		tx.Use(e)
		e.Opaque[cacheFileOf] = true
		e.Opaque[fnPlanning] = true
		e.Opaque["rcmd.RunRBatch"], e.Opaque["rcmd.parseVersionData"] = true, true
		e.Relevant = func(n string) bool { return mutatingFS(n) || n == cacheFileOf || n == fnPlanning }
		requested := func(t *engine.Term) bool {
			return t.Contains(func(x *engine.Term) bool {
				if repos == "ALL" {
					return x.Op == "field" && x.Str == "Repos"
				}
				return isFlag(x)
			})
		}
		ofDb := func(t *engine.Term) bool {
			return chain(t, func(x *engine.Term) bool { return x.Op == "elem" }, "Repo", "Name")
		}
		watch(e, func(t *engine.Term) string {
			if t.Op == "bin" && t.Str == "==" {
				x, y := t.Args[0], t.Args[1]
				if ofDb(x) && requested(y) || ofDb(y) && requested(x) {
					return "did:dbs:eq"
				}
			}
			if isMember(t, requested) {
				return "did:dbs:eq"
			}
			return ""
		})
		each := newEach(e)
		each.Track("dbs", func(t *engine.Term) bool { return isField(t, "Db") })
		each.Iter = func(key string, _ *engine.Term, g *engine.G, at string) {
			if g.Auto["did:dbs:eq"] == "T" && g.Auto["did:dbs:removed"] == "" && g.Auto["did:dbs:absent"] == "" {
				c.Fail("requested", con, at, "the cached database of a repository that was to be cleaned is left", g.Path(8))
			}
		}
		n, planned := 0, 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch {
			case ev.Name == fnPlanning:
				planned++
				s := c19version(e, tx, ev, ev.Arg(0))
				c.Need(s == "<Major>.<Minor>.<Patch>", "same-database", con, where(ev), "the databases are loaded for R "+s)
				return symRes(ev)
			case strings.HasSuffix(ev.Name, "Fs).Stat") || ev.Name == "os.Stat":
				return okFail(ev, nil, map[string]string{"did:dbs:absent": "1"})
			}
			for _, f := range fsEffects(ev) {
				n++
				for _, t := range f.Path {
					bad := func(rule, msg string) {
						c.Fail(rule, con, where(ev), msg+": "+f.Kind+" of "+short(e.S(t)), ev.G.Path(8))
					}
					u := engine.Strip(t)
					if f.Kind != "remove" && f.Kind != "removeall" || u.Op != "call" || u.Str != cacheFileOf {
						bad("confined", "not a cached package database")
						continue
					}
					if v, ok := tx.Norm(u.Args[1]); !ok || v != "<Major>.<Minor>.<Patch>" {
						bad("same-database", "not the database of the running R")
					}
					if ev.G.Auto["did:dbs:eq"] != "T" {
						bad("requested", "the database of a repository that was not named is removed")
					}
					ev.G.Auto["did:dbs:removed"] = "1"
				}
			}
			return nil
		}
		e.Run(run, e.Start())
		c.Absorb(e)
		c.Min("requested", n, 1, "removals of "+con)
		c.Min("same-database", planned, 1, "databases loaded for "+con)
	}
	// installations read the database of the same name
	con := "database that installations read"
	c.Obl("same-database", con)
	e := c.Eng()
	tx := &Text{M: &Model{Atom: fullVersion}}
	tx.Use(e)
	e.Opaque[cacheFileOf] = true
	e.Relevant = func(n string) bool { return n == cacheFileOf }
	k := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == cacheFileOf {
			k++
			v, ok := tx.NormVal(ev.Arg(1))
			c.Need(ok && v == "<Major>.<Minor>.<Patch>", "same-database", con, where(ev), "the name is that of R "+v)
		}
		return nil
	}
	e.Run(c.Fn(fnFetch), e.Start())
	c.Absorb(e)
	c.Min("same-database", k, 1, "names of databases")
}

// c19version is the version of R a value stands for, in full.
func c19version(e *engine.Eng, tx *Text, ev *engine.Ev, v engine.Val) string {
	out := ""
	for i, f := range []string{"Major", "Minor", "Patch"} {
		s, _ := tx.NormVal(e.FieldOf(ev.G, v, f))
		if i > 0 {
			out += "."
		}
		out += s
	}
	return out
}
