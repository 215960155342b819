package checks

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C18", "The name of every cached file is brought to a normal form over its inputs; changing any input that determines the content changes the name, and the names under which a built binary is stored and looked up agree.", c18)
	register("C36", "The addresses of package lists and of package files are brought to a normal form under every type, suffix and form of the repository address, and compared with each other and with the layout of a CRAN-like repository.", c36)
}

// repoInputs are placeholders for everything that may determine an address or
// a cached file.
type repoInputs struct {
	url, name, suffix, pkg, version string
	major, minor, patch             int64
	typ                             int64 // source type: 1 source, 2 binary
}

func baseInputs() repoInputs {
	return repoInputs{"https://repo.example/r", "REPO", "sfx", "pkgA", "1.2.3", 4, 3, 2, 1}
}

// atoms reads the inputs wherever they come from.
func (in *repoInputs) atoms(t *engine.Term) (any, bool) {
	t = deref(t)
	if t.Op != "field" || len(t.Args) == 0 {
		return nil, false
	}
	switch t.Str {
	case "URL":
		return in.url, true
	case "Suffix", "RepoSuffix":
		return in.suffix, true
	case "Name":
		return in.name, true
	case "Major":
		return in.major, true
	case "Minor":
		return in.minor, true
	case "Patch":
		return in.patch, true
	case "Version":
		if t.Type != nil && isString(t.Type) {
			return in.version, true
		}
	case "Package":
		if t.Type != nil && isString(t.Type) {
			return in.pkg, true
		}
	case "Type":
		if t.Type != nil && hasSuffix(types.TypeString(t.Type, nil), "cran.SourceType") {
			return in.typ, true
		}
	case "BaseDir":
		return "/cache", true
	case "Platform":
		return "plat", true
	}
	return nil, false
}

// hashed collects what is written to a hash, in order, by path.
type hashed struct {
	text *Text
	n    int
	bad  string
}

func (h *hashed) call(ev *engine.Ev) []engine.Outcome {
	var data engine.Val
	switch {
	case ev.Name == "io.WriteString" && len(ev.Args) == 2:
		data = ev.Arg(1)
	case ev.Name == "(hash.Hash).Write" || ev.Name == "(io.Writer).Write":
		data = ev.Arg(1)
	case ev.Name == "fmt.Fprint":
		data = ev.Arg(1)
	case ev.Name == "fmt.Fprintf":
		h.bad = "written with fmt.Fprintf"
		return nil
	case hasSuffix(ev.Name, "(hash.Hash).Sum") || ev.Name == "crypto/md5.Sum" || ev.Name == "crypto/sha256.Sum256" || ev.Name == "crypto/sha1.Sum":
		pre := ev.G.Auto["hash"]
		if ev.Name != "(hash.Hash).Sum" {
			s, ok := h.text.NormVal(ev.Arg(0))
			if !ok {
				return nil
			}
			pre += s
		}
		h.n++
		return []engine.Outcome{{Res: []engine.Val{{ev.E.Str("hash{" + pre + "}")}}}}
	default:
		return nil
	}
	s, ok := h.text.NormVal(data)
	if !ok {
		// what is known of it
		s = "?"
		for _, t := range data {
			s += h.partial(t)
		}
	}
	ev.G.Auto["hash"] += s + "|"
	return nil
}

// partial is the normal form with the unknown parts left out.
func (h *hashed) partial(t *engine.Term) string {
	if s, ok := h.text.Norm(t); ok {
		return s
	}
	out := ""
	for _, a := range engine.Strip(t).Args {
		out += h.partial(a)
	}
	return out
}

func c18(c *C) {
	c.Rule("distinguishes", "two cached files whose content may differ have different names: each input that determines the content changes the name")
	c.Rule("types", "the name of a package list depends on the source types it holds")
	c.Rule("full-version", "the name of a package list depends on the full version of R, like the packages on it")
	c.Rule("same-name", "a binary built in one run is looked for under the name it was stored")
	c.Rule("length", "no fewer than 40 bits of a hash are kept in a name")
	c.Assume("An MD5 hash stands for the text hashed; its first twelve hexadecimal digits tell the repositories of one user apart.")

	vary := func(run func(in repoInputs) []string, what string, fields map[string]func(in *repoInputs)) {
		base := run(baseInputs())
		c.Need(len(base) == 1, "distinguishes", what, "", fmt.Sprintf("the name has no single normal form: %q", base))
		for _, b := range base {
			if strings.Contains(b, otherPackage) || strings.Contains(b, fmt.Sprintf("%x", otherPackage)) {
				c.Fail("distinguishes", what, "", fmt.Sprintf("the name is made from another package: %q", b), nil)
			}
		}
		var names []string
		for f := range fields {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			in := baseInputs()
			fields[f](&in)
			v := run(in)
			con := what + ": " + f
			c.Obl("distinguishes", con)
			if len(v) != 1 || len(base) != 1 || v[0] == base[0] {
				c.Fail("distinguishes", con, "", fmt.Sprintf("the name does not change with the %s: %q", f, base), nil)
			}
		}
	}
	url := func(in *repoInputs) { in.url += "2" }
	name := func(in *repoInputs) { in.name += "2" }
	suffix := func(in *repoInputs) { in.suffix += "2" }
	nosuffix := func(in *repoInputs) { in.suffix = "" }
	pkg := func(in *repoInputs) { in.pkg += "2" }
	version := func(in *repoInputs) { in.version += ".4" }
	minor := func(in *repoInputs) { in.minor++ }
	patch := func(in *repoInputs) { in.patch++ }
	major := func(in *repoInputs) { in.major++ }

	urlCase := func(in *repoInputs) { in.url = "https://repo.example/R" }
	nameCase := func(in *repoInputs) { in.name = "Repo" }
	suffixCase := func(in *repoInputs) { in.suffix = "Sfx" }
	pkgCase := func(in *repoInputs) { in.pkg = "pkga" }

	// package lists
	lists := func(in repoInputs) []string {
		return c18name(c, "(*cran.RepoDb).GetRepoDbCacheFilePath", in, fmt.Sprintf("R%d.%d.%d", in.major, in.minor, in.patch))
	}
	vary(lists, "package list", map[string]func(*repoInputs){
		"address of the repository": url, "suffix of the repository": suffix, "absence of a suffix": nosuffix,
		"major version of R": major, "minor version of R": minor, "patch version of R": patch,
		"letter case of the address": urlCase, "letter case of the suffix": suffixCase,
	})
	c18version(c)
	c18types(c)

	// the folder of a repository
	folder := func(in repoInputs) []string { return c18name(c, "cran.RepoURLHash", in, "") }
	vary(folder, "folder of a repository", map[string]func(*repoInputs){
		"address of the repository": url, "name of the repository": name, "suffix of the repository": suffix, "absence of a suffix": nosuffix,
		"letter case of the address": urlCase, "letter case of the name": nameCase, "letter case of the suffix": suffixCase,
	})

	// package files
	for typ, k := range map[string]int64{"source package": 1, "binary package": 2} {
		k := k
		run := func(in repoInputs) []string {
			if in.typ == 1 {
				in.typ = k
			} else {
				in.typ = 3 - k
			}
			return c18dest(c, in)
		}
		fields := map[string]func(*repoInputs){
			"address of the repository": url, "suffix of the repository": suffix, "name of the package": pkg, "version of the package": version,
			"letter case of the address": urlCase, "letter case of the package": pkgCase,
			"type of the package": func(in *repoInputs) { in.typ = 2 },
		}
		if k == 2 {
			fields["major version of R"] = major
			fields["minor version of R"] = minor
		}
		vary(run, typ, fields)
	}
	c18binary(c)
	c18length(c)
}

// c18length: what is kept of a hash is not so little that names collide.
func c18length(c *C) {
	n := 0
	for _, name := range []string{"cran.RepoURLHash", "(*cran.RepoDb).GetRepoDbCacheFilePath", "cmd.getHashedTarballName"} {
		fn := c.Fn(name)
		if fn == nil {
			continue
		}
		con := c.P.FnName(fn)
		c.Obl("length", con)
		for _, f := range withCallees(c, fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Slice)
					if call, isCall := in.(ssa.CallInstruction); isCall && strings.HasSuffix(c.P.CalleeName(call.Common()), ".Sum") {
						n++
					}
					if !ok || s.High == nil {
						continue
					}
					d := slice(s.X)
					if !d["Sum()"] && !d["Sum256()"] && !d["Sum1()"] {
						continue
					}
					hi, ok := s.High.(*ssa.Const)
					if !ok {
						continue
					}
					lo := int64(0)
					if k, ok := s.Low.(*ssa.Const); ok {
						lo = k.Int64()
					}
					bits := (hi.Int64() - lo) * 8
					if isString(s.X.Type()) {
						bits /= 2
					}
					if bits < 40 {
						c.Fail("length", con, c.P.InstrPos(in), fmt.Sprintf("only %d bits of the hash are kept", bits), nil)
					}
				}
			}
		}
	}
	c.Min("length", n, 2, "hashes")
}

// c18name runs a function that names a cached file.
func c18name(c *C, fnName string, in repoInputs, rv string) []string {
	fn := c.Fn(fnName)
	e := c.Eng()
	m := &Model{}
	tx := &Text{M: m}
	h := &hashed{text: tx}
	m.Atom = func(t *engine.Term) (any, bool) {
		u := deref(t)
		if u.Op == "param" && u.Type != nil && isString(u.Type) {
			return rv, true
		}
		return in.atoms(t)
	}
	tx.Use(e)
	e.Call = h.call
	set := map[string]bool{}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		for _, r := range x.Res[0] {
			s, ok := tx.Norm(r)
			if !ok {
				s = "?" + h.partial(r)
			}
			// the fallback for an unknown home directory is another place
			set[strings.Replace(s, "os.TempDir", "os.UserCacheDir", 1)] = true
		}
	}
	c.Absorb(e)
	// a loop over the source types: its result is the longest text
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) > 1 {
		out = []string{strings.Join(out, " / ")}
	}
	return out
}

// c18version: the version given to the name is the full one.
func c18version(c *C) {
	n := 0
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || c.P.CalleeName(call.Common()) != "(*cran.RepoDb).GetRepoDbCacheFilePath" {
					continue
				}
				n++
			}
		}
	}
	c.Min("full-version", n, 2, "uses of the name of a package list")
	for _, root := range []string{fnFetch, "cmd.removePackageDatabases"} {
		fn := c.Fn(root)
		e := c.Eng()
		e.Opaque["(*cran.RepoDb).GetRepoDbCacheFilePath"] = true
		e.Opaque["(cran.RVersion).ToFullString"] = false
		e.Opaque[fnPlanning] = true
		e.Opaque["rcmd.NewRSettings"] = true
		e.Relevant = rel(`GetRepoDbCacheFilePath`)
		k := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != "(*cran.RepoDb).GetRepoDbCacheFilePath" {
				return nil
			}
			k++
			full := ev.Arg(1).All(func(t *engine.Term) bool {
				return containsField(t, "Major") && containsField(t, "Minor") && containsField(t, "Patch") || strings.HasPrefix(engine.Strip(t).Str, "(cran.RVersion).ToFullString")
			})
			c.Need(full, "full-version", root, where(ev), "named after "+short(e.SV(ev.Arg(1))))
			return nil
		}
		e.Run(fn, e.Start())
		c.Absorb(e)
		c.Min("full-version", k, 1, "names of package lists in "+root)
	}
	// and the full version has all three components
	fn := c.Fn("(cran.RVersion).ToFullString")
	seen := map[string]bool{}
	for i := 0; i < 4; i++ {
		in := baseInputs()
		switch i {
		case 1:
			in.major++
		case 2:
			in.minor++
		case 3:
			in.patch++
		}
		for _, s := range c18name(c, c.P.FnName(fn), in, "") {
			seen[s] = true
		}
	}
	c.Need(len(seen) == 4, "full-version", c.P.FnName(fn), "", fmt.Sprintf("versions that differ in one component have the names %v", seen))
}

// c18types: the text hashed depends on the keys of the lists, by data flow.
func c18types(c *C) {
	fn := c.Fn("(*cran.RepoDb).Hash")
	found := false
	n := 0
	for _, f := range withCallees(c, fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := c.P.CalleeName(call.Common())
				if name != "io.WriteString" && !hasSuffix(name, ".Write") && !strings.HasPrefix(name, "crypto/") && !strings.HasPrefix(name, "fmt.Fprint") {
					continue
				}
				n++
				for _, a := range call.Common().Args {
					if slice(a)["DescriptionsBySourceType"] {
						found = true
					}
				}
			}
		}
	}
	c.Need(found, "types", c.P.FnName(fn), c.P.Pos(fn.Pos()), "nothing that is hashed derives from the source types of the repository")
	c.Min("types", n, 1, "data hashed")
}

// withCallees are fn and the module functions it can call.
func withCallees(c *C, fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.P.InModule(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					add(call.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
					if g, ok := (*op).(*ssa.MakeClosure); ok {
						add(g.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	add(fn)
	return out
}

// slice is the names of the fields a value derives from, within its function
// and through the results of calls.
func slice(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if s, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				out[s.Field(x.Field).Name()] = true
			}
		case *ssa.Field:
			if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
				out[s.Field(x.Field).Name()] = true
			}
		case *ssa.Alloc:
			// what is stored in it, or in a part of it
			for _, st := range storesInto(x) {
				visit(st)
			}
		case *ssa.Call:
			if x.Call.IsInvoke() {
				out[x.Call.Method.Name()+"()"] = true
			}
			if f := x.Call.StaticCallee(); f != nil {
				out[f.Name()+"()"] = true
			}
			if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "pkgr") {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if r, ok := in.(*ssa.Return); ok {
							for _, y := range r.Results {
								visit(y)
							}
						}
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				visit(*op)
			}
		}
	}
	visit(v)
	return out
}

func storesInto(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	refs := a.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				out = append(out, x.Val)
			}
		case *ssa.IndexAddr:
			out = append(out, storesInto(x)...)
		case *ssa.FieldAddr:
			out = append(out, storesInto(x)...)
		}
	}
	return out
}

// c18dest is where DownloadPackages puts a package file.
// otherPackage marks what was taken from another package.
const otherPackage = "<of another package>"

func c18dest(c *C, in repoInputs) []string {
	fn := c.Fn(fnDownload)
	e := c.Eng()
	e.GoMode = "seq"
	// what belongs to one package of the list, rather than to the one at hand
	m := &Model{Atom: func(t *engine.Term) (any, bool) {
		v, ok := in.atoms(t)
		if s, is := v.(string); ok && is && deref(t).Contains(func(x *engine.Term) bool {
			if x.Op != "index" {
				return false
			}
			_, fixed := engine.Strip(x.Args[1]).ConstInt()
			return fixed
		}) {
			return s + otherPackage, true
		}
		return v, ok
	}}
	tx := &Text{M: m, Extra: func(t *engine.Term) (any, bool) {
		t = deref(t)
		if t.Op == "param" && t.Type != nil && isString(t.Type) {
			return "/cache", true
		}
		if t.Op == "global" || t.Op == "field" && t.Str == "Id" {
			return "distro", true
		}
		return nil, false
	}}
	h := &hashed{text: tx}
	tx.Use(e)
	e.Relevant = rel(`DownloadPackage$|WriteString|hash\.Hash|crypto/|RepoURLHash`)
	set := map[string]bool{}
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnDownload1 {
			n++
			for _, v := range ev.Arg(2) {
				s, ok := tx.Norm(v)
				if !ok {
					s = "?" + h.partial(v)
				}
				set[s] = true
			}
			return okFail(ev, nil, nil)
		}
		if ev.Name == "(*cran.PkgMap).Put" {
			return []engine.Outcome{{}}
		}
		if hasSuffix(ev.Name, "MkdirAll") {
			delete(ev.G.Auto, "hash")
		}
		return h.call(ev)
	}
	each := newEach(e)
	_ = each
	pb := e.BackEdge
	e.BackEdge = func(f *ssa.Function, hd *ssa.BasicBlock, g *engine.G) {
		pb(f, hd, g)
		delete(g.Auto, "hash")
	}
	e.After = func(ev *engine.Ev, x *engine.Exit) {
		if ev.Name == "cran.RepoURLHash" {
			delete(x.G.Auto, "hash")
		}
	}
	readable(c, e)
	e.Run(fn, e.Start())
	c.Absorb(e)
	if c.has("distinguishes") {
		c.Min("distinguishes", n, 1, "package files named")
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// c18binary: the two-phase install looks for a built binary where the plan
// stored it.
func c18binary(c *C) {
	in := baseInputs()
	src := "/cache/FOLDER/src/" + in.pkg + "_" + in.version + ".tar.gz"
	m := &Model{Atom: func(t *engine.Term) (any, bool) {
		u := deref(t)
		if u.Op == "call" && u.Str == "cran.RepoURLHash" {
			return "FOLDER", true
		}
		if isField(u, "Path") {
			return src, true
		}
		return in.atoms(t)
	}}
	tx := &Text{M: m, Extra: func(t *engine.Term) (any, bool) {
		u := deref(t)
		if u.Op == "call" && (u.Str == "os.TempDir" || u.Str == "rcmd.randomString") {
			return "tmp", true
		}
		return nil, false
	}}
	// looked for
	fn := c.Fn(fnTwoPhase)
	e := c.Eng()
	tx.Use(e)
	e.Opaque["cran.RepoURLHash"] = true
	e.Opaque["rcmd.randomString"] = true
	looked := map[string]bool{}
	built := map[string]bool{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if hasSuffix(ev.Name, "Exists") {
			for i := range ev.Args {
				if s, ok := tx.NormVal(ev.Arg(i)); ok && strings.Contains(s, "/cache/") {
					looked[s] = true
				}
			}
		}
		if ev.Name == fnInstall {
			return installOutcomes(ev, nil, nil)
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" || len(x.Res) < 2 {
			continue
		}
		for _, r := range x.Res[1] {
			if s, ok := tx.Norm(r); ok && s != "" {
				built[s] = true
			}
		}
	}
	c.Absorb(e)
	c.Need(len(looked) == 1, "same-name", "lookup of a built binary", "", fmt.Sprintf("looked for under %v", keys(looked)))
	c.Need(len(built) == 1, "same-name", "binary returned by the two-phase install", "", fmt.Sprintf("returned as %v", keys(built)))
	bin := ""
	for s := range built {
		bin = s
	}
	// stored
	fn = c.Fn(fnPlan)
	e = c.Eng()
	e.SymMaps = true
	e.MaxParts = 100
	e.Relevant = rel(`InstallQueue|Worker\)|^rcmd\.New|InstallThroughBinary`, mutatingFS)
	for _, n := range []string{"(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies"} {
		e.Opaque[n] = true
	}
	stored := map[string]bool{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnTwoPhase:
			o := symRes(ev, "result", "binary", "err")
			o[0].Res[1] = engine.Val{e.Str(bin)}
			return o
		case "(*cran.PkgMap).Get":
			return symRes(ev, "download", "downloaded")
		}
		for _, f := range fsEffects(ev) {
			to := f.To
			if f.Kind == "write" {
				to = f.Path
			}
			for _, v := range to {
				if s, ok := tx.Norm(v); ok && !strings.Contains(s, ".part") {
					stored[s] = true
				} else if !ok {
					stored["?"+e.S(v)] = true
				}
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	ok := false
	for s := range stored {
		if looked[s] {
			ok = true
		}
	}
	c.Need(ok, "same-name", "built binary", "", fmt.Sprintf("stored under %v, looked for under %v", keys(stored), keys(looked)))
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func c36(c *C) {
	c.Rule("layout", "package lists are read from src/contrib/PACKAGES or bin/<platform>[/<suffix>]/contrib/<R version>/PACKAGES under the address of the repository")
	c.Rule("file-name", "the file asked for is <package>_<version>.tar.gz, or the name R gives to a binary of that package and version")
	c.Rule("same-folder", "a package is downloaded from the folder whose list named it")
	c.Rule("platform", "binary packages of Ubuntu are under ubuntu/<codename>, of CentOS and Red Hat under centos/<major version>, of others under <name>/<version>")
	c.Assume("The code that is analysed is the one built for Linux.")
	urls := map[string]string{"without slash": "https://repo.example/r", "with slash": "https://repo.example/r/", "folder": "/srv/repo"}
	var forms []string
	for k := range urls {
		forms = append(forms, k)
	}
	sort.Strings(forms)
	k, d := 0, 0
	for _, form := range forms {
		for _, suffix := range []string{"", "sfx"} {
			for _, typ := range []int64{1, 2} {
				in := baseInputs()
				in.url, in.suffix, in.typ = urls[form], suffix, typ
				con := fmt.Sprintf("%s package, address %s, suffix %q", []string{"", "source", "binary"}[typ], form, suffix)
				want := strings.TrimSuffix(in.url, "/")
				if typ == 1 {
					want += "/src/contrib"
				} else {
					want += "/bin/PLATFORM"
					if suffix != "" {
						want += "/" + suffix
					}
					want += fmt.Sprintf("/contrib/%d.%d", in.major, in.minor)
				}
				list := c36list(c, in)
				k++
				c.Need(len(list) == 1 && list[0] == want+"/PACKAGES", "layout", "list of a "+con, "", fmt.Sprintf("read from %q, expected %q", list, want+"/PACKAGES"))
				file := c36file(c, in)
				ok := len(file) > 0
				for _, f := range file {
					d++
					if f != want+"/FILE" {
						ok = false
					}
				}
				c.Need(ok, "same-folder", con, "", fmt.Sprintf("downloaded from %q, listed in %q", file, want))
			}
		}
	}
	c.Min("layout", k, 12, "package lists")
	c.Min("same-folder", d, 12, "package files")

	c36suffix(c)

	for typ, want := range map[int64]string{1: "pkgA_1.2.3.tar.gz", 2: "pkgA_1.2.3_R_x86_64-pc-linux-gnu.tar.gz"} {
		in := baseInputs()
		in.typ = typ
		got := c18dest(c, in)
		c.Need(len(got) == 1 && path.Base(got[0]) == want, "file-name", []string{"", "source", "binary"}[typ]+" package", "", fmt.Sprintf("%q, expected %q", got, want))
	}

	for _, id := range []string{"ubuntu", "centos", "rhel", "debian"} {
		for _, ver := range []string{"7", "8.6", "10", "10.1"} {
			want := "linux/" + id + "/" + ver
			switch id {
			case "ubuntu":
				want = "linux/ubuntu/CODENAME"
			case "centos", "rhel":
				want = "linux/centos/" + strings.Split(ver, ".")[0]
			}
			got := c36platform(c, id, ver)
			c.Need(len(got) == 1 && got[0] == want, "platform", fmt.Sprintf("%s %s", id, ver), "", fmt.Sprintf("%q, expected %q", got, want))
		}
	}
}

// c36suffix: the suffix in the configuration reaches both addresses.
func c36suffix(c *C) {
	c.Rule("suffix", "the address and the suffix of a repository in the configuration are those of its package lists and of its packages")
	// the package list
	fn := c.Fn(fnNewRepo)
	n := 0
	for _, suffix := range []string{"", "sfx"} {
		e := c.Eng()
		e.Opaque[fnFetch] = true
		e.Opaque["cran.SupportsBinary"] = true
		in := baseInputs()
		in.suffix = suffix
		m := &Model{Atom: in.atoms}
		tx := &Text{M: m}
		tx.Use(e)
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != fnFetch {
				return nil
			}
			n++
			for f, want := range map[string]string{"Repo.URL": in.url, "Repo.Name": in.name, "Repo.Suffix": suffix, "RepoSuffix": suffix} {
				got := e.FieldOf(ev.G, ev.Arg(0), f)
				s, ok := tx.NormVal(got)
				c.Need(ok && s == want, "suffix", "repository database: "+f, where(ev), fmt.Sprintf("%q instead of %q", short(e.SV(got)), want))
			}
			return nil
		}
		e.Run(fn, e.Start())
		c.Absorb(e)
	}
	c.Min("suffix", n, 2, "repositories made")
}

func platformAtom(t *engine.Term) (any, bool) {
	u := deref(t)
	if u.Op == "call" && u.Str == "cran.cranBinaryURL" {
		return "PLATFORM", true
	}
	return nil, false
}

func c36list(c *C, in repoInputs) []string {
	fn := c.Fn("cran.GetPackagesFileURL")
	e := c.Eng()
	e.Opaque["cran.cranBinaryURL"] = true
	m := &Model{}
	m.Atom = func(t *engine.Term) (any, bool) {
		if v, ok := platformAtom(t); ok {
			return v, true
		}
		if u := deref(t); u.Op == "param" && u.Type != nil && hasSuffix(types.TypeString(u.Type, nil), "cran.SourceType") {
			return in.typ, true
		}
		return in.atoms(t)
	}
	tx := &Text{M: m}
	tx.Use(e)
	set := map[string]bool{}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		for _, r := range x.Res[0] {
			s, ok := tx.Norm(r)
			if !ok {
				s = "?" + e.S(r)
			}
			set[s] = true
		}
	}
	c.Absorb(e)
	return keys(set)
}

// c36file is where a package is downloaded or copied from.
func c36file(c *C, in repoInputs) []string {
	fn := c.Fn(fnDownload1)
	e := c.Eng()
	e.Opaque["cran.cranBinaryURL"] = true
	m := &Model{}
	dest := ""
	m.Atom = func(t *engine.Term) (any, bool) {
		if v, ok := platformAtom(t); ok {
			return v, true
		}
		if u := deref(t); u.Op == "param" && u.Str == dest {
			return "/cache/FILE", true
		}
		return in.atoms(t)
	}
	for _, p := range fn.Params {
		if isString(p.Type()) {
			dest = p.Name()
		}
	}
	tx := &Text{M: m}
	tx.Use(e)
	set := map[string]bool{}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		i := -1
		switch {
		case hasSuffix(ev.Name, "goutils.Exists") || hasSuffix(ev.Name, "afero.Exists"):
			return symRes(ev, "exists", "err")
		case hasSuffix(ev.Name, "http.Client).Get"), hasSuffix(ev.Name, "afero.Fs).Open"), hasSuffix(ev.Name, "(afero.Fs).OpenFile"):
			i = 1
		case ev.Name == "net/http.Get", ev.Name == "os.Open":
			i = 0
		case ev.Name == "net/http.NewRequest":
			i = 1
		case ev.Name == "net/http.NewRequestWithContext":
			i = 2
		}
		if i >= 0 {
			for _, v := range ev.Arg(i) {
				s, ok := tx.Norm(v)
				if !ok {
					s = "?" + e.S(v)
				}
				set[s] = true
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	return keys(set)
}

// readable says that the operating system's release can be read; what it
// says is left to the model of the analysis.
func readable(c *C, e *engine.Eng) {
	prev := e.Call
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if strings.HasPrefix(ev.Name, "cran.") && ev.Sig != nil && ev.Sig.Recv() == nil && ev.Sig.Params().Len() == 0 && ev.Sig.Results().Len() == 1 && errIndex(ev) == 0 {
			return []engine.Outcome{{Res: []engine.Val{{e.Nil()}}}}
		}
		if prev != nil {
			return prev(ev)
		}
		return nil
	}
	// the hook is not asked about functions that are summarised
	was := e.Relevant
	if was == nil {
		return
	}
	e.Relevant = func(name string) bool {
		return was(name) || name == "os.ReadFile" || name == "io/ioutil.ReadFile" || name == "os.Open"
	}
}

func c36platform(c *C, id, ver string) []string {
	fn := c.Fn("cran.cranBinaryURL")
	e := c.Eng()
	readable(c, e)
	m := &Model{Atom: func(t *engine.Term) (any, bool) {
		u := deref(t)
		if u.Op != "field" {
			return nil, false
		}
		switch u.Str {
		case "Id":
			return id, true
		case "VersionId":
			return ver, true
		case "VersionCodename":
			return "CODENAME", true
		case "checked":
			return true, true
		}
		return nil, false
	}}
	tx := &Text{M: m}
	tx.Use(e)
	set := map[string]bool{}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		for _, r := range x.Res[0] {
			s, ok := tx.Norm(r)
			if !ok {
				s = "?" + e.S(r)
			}
			set[s] = true
		}
	}
	c.Absorb(e)
	return keys(set)
}
