package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C32", "Abstract interpretation of every function that takes text apart by a constant index or bound, with what is known of the length at each; call-graph rule for what ends the process while metadata is parsed.", c32)
}

// constSite is a place where a text or list is taken apart at a constant.
type constSite struct {
	in   ssa.Instruction
	base ssa.Value
	need int64 // the length needed
}

// constSites of a function, its literals excluded.
func constSites(fn *ssa.Function) []constSite {
	var out []constSite
	konst := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(c.Value)
	}
	isArray := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		_, ok := t.Underlying().(*types.Array)
		return ok
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if k, ok := konst(x.Index); ok && !isArray(x.X.Type()) {
					out = append(out, constSite{in, x.X, k + 1})
				}
			case *ssa.Index:
				if k, ok := konst(x.Index); ok && !isArray(x.X.Type()) {
					out = append(out, constSite{in, x.X, k + 1})
				}
			case *ssa.Lookup:
				if k, ok := konst(x.Index); ok && isString(x.X.Type()) {
					out = append(out, constSite{in, x.X, k + 1})
				}
			case *ssa.Slice:
				if isArray(x.X.Type()) {
					continue
				}
				need := int64(0)
				for _, v := range []ssa.Value{x.Low, x.High} {
					if v == nil {
						continue
					}
					if k, ok := konst(v); ok && k > need {
						need = k
					}
				}
				if need > 0 {
					out = append(out, constSite{in, x.X, need})
				}
			}
		}
	}
	return out
}

// atLeast reports whether a text or list certainly has n elements.
func atLeast(e *engine.Eng, g *engine.G, t *engine.Term, n int64) bool {
	if n <= 0 {
		return true
	}
	u := engine.Strip(t)
	switch u.Op {
	case "vlist":
		return int64(len(u.Args)) >= n
	case "alt":
		all := len(u.Args) > 0
		for _, a := range u.Args {
			all = all && atLeast(e, g, a, n)
		}
		if all {
			return true
		}
	case "list":
		k := int64(0)
		for _, a := range u.Args {
			if a.Op != "spread" && a.Op != "mayelem" {
				k++
			}
		}
		if k >= n {
			return true
		}
	case "make":
		for _, a := range u.Args {
			if k, ok := a.ConstInt(); ok && k >= n {
				return true
			}
		}
	case "bin":
		if u.Str == "+" && len(u.Args) == 2 && (atLeast(e, g, u.Args[0], n) || atLeast(e, g, u.Args[1], n)) {
			return true
		}
	case "call":
		switch u.Str {
		case "strings.Split", "bytes.Split", "strings.SplitAfter":
			if s, ok := u.Args[1].ConstString(); ok && s != "" && n-1 <= contains(e, g, u.Args[0], s) || n == 1 && u.Str == "bytes.Split" {
				return true
			}
		case "strings.SplitN":
			s, ok := u.Args[1].ConstString()
			k, ok2 := u.Args[2].ConstInt()
			if n == 1 && ok && s != "" && ok2 && k != 0 {
				return true
			}
		case "(*regexp.Regexp).Split":
			if k, ok := u.Args[2].ConstInt(); n == 1 && ok && k != 0 {
				return true
			}
		case "fmt.Sprintf":
			if len(u.Args) == 2 && len(u.Args[1].Args) == 1 {
				f, _ := u.Args[0].ConstString()
				if f == "%x" || f == "%X" {
					return atLeast(e, g, u.Args[1].Args[0], (n+1)/2)
				}
			}
		case "encoding/hex.EncodeToString":
			return atLeast(e, g, u.Args[0], (n+1)/2)
		}
		if strings.HasSuffix(u.Str, ".Sum") || strings.HasPrefix(u.Str, "crypto/") {
			return n <= 16
		}
	}
	if u.CV != nil {
		if s, ok := u.ConstString(); ok {
			return int64(len(s)) >= n
		}
	}
	// what is known of the length, or of the text itself
	not := map[int64]bool{}
	for f, v := range g.Facts {
		if !f.ContainsTerm(u) {
			continue
		}
		if lowerBound(f, v, u) >= n {
			return true
		}
		if f.Op == "bin" && f.Str == "==" && !v && isLenOf(f.Args[0], u) {
			if k, ok := engine.Strip(f.Args[1]).ConstInt(); ok {
				not[k] = true
			}
		}
	}
	// a length that is at least n-1 and is not n-1
	return not[n-1] && atLeast(e, g, t, n-1)
}

func isLenOf(t, u *engine.Term) bool {
	t = engine.Strip(t)
	return t.Op == "call" && t.Str == "len" && len(t.Args) == 1 && engine.Strip(t.Args[0]) == u
}

// contains is how often a text certainly contains a separator.
func contains(e *engine.Eng, g *engine.G, t *engine.Term, sep string) int64 {
	u := engine.Strip(t)
	max := 0
	for f, v := range g.Facts {
		if !v || f.Op != "call" || len(f.Args) != 2 || engine.Strip(f.Args[0]) != u {
			continue
		}
		if f.Str == "strings.HasPrefix" || f.Str == "strings.HasSuffix" || f.Str == "strings.Contains" {
			if s, ok := f.Args[1].ConstString(); ok {
				if k := strings.Count(s, sep); k > max {
					max = k
				}
			}
		}
	}
	return int64(max)
}

// lowerBound is the length of u that a fact implies.
func lowerBound(f *engine.Term, v bool, u *engine.Term) int64 {
	isLen := func(t *engine.Term) bool { return isLenOf(t, u) }
	switch {
	case f.Op == "call" && (f.Str == "strings.HasPrefix" || f.Str == "strings.HasSuffix" || f.Str == "strings.Contains") && v && engine.Strip(f.Args[0]) == u:
		if s, ok := f.Args[1].ConstString(); ok {
			return int64(len(s))
		}
	case f.Op == "empty" && len(f.Args) == 1 && !v && engine.Strip(f.Args[0]) == u:
		return 1
	case f.Op == "bin" && len(f.Args) == 2:
		x, y := engine.Strip(f.Args[0]), engine.Strip(f.Args[1])
		kx, okx := x.ConstInt()
		ky, oky := y.ConstInt()
		switch f.Str {
		case "<":
			if v && okx && isLen(y) {
				return kx + 1
			}
			if !v && oky && isLen(x) {
				return ky
			}
		case "<=":
			if v && okx && isLen(y) {
				return kx
			}
			if !v && oky && isLen(x) {
				return ky + 1
			}
		case "==":
			if v && isLen(x) && oky {
				return ky
			}
			if s, ok := y.ConstString(); v && ok && x == u {
				return int64(len(s))
			}
			if s, ok := y.ConstString(); !v && ok && s == "" && x == u {
				return 1
			}
		}
	}
	return 0
}

func c32(c *C) {
	c.Rule("index", "where a text or a list is taken apart at a constant index or bound, it is known to be that long on every path")
	c.Rule("no-crash", "parsing metadata never panics and never ends the process")
	c.Rule("failed-call", "what a call returns is used, where it must not be nil, only once the call is known not to have failed")
	c.Rule("kept", "a dependency is kept under its name whatever its version constraint looks like")
	c.Assume("The decoder of DESCRIPTION records (pault.ag/go/debian) does not panic. Indexes that are computed, other than by a constant, are not covered.")
	skip := func(fn *ssa.Function) bool {
		p := ""
		if r := rootFn(fn); r.Pkg != nil {
			p = r.Pkg.Pkg.Path()
		}
		return strings.Contains(p, "/internal/tools") || strings.Contains(p, "/internal/valtools") || strings.Contains(strings.ToLower(c.P.FnName(rootFn(fn))), "experiment")
	}
	// sites by outermost function
	roots := map[*ssa.Function][]constSite{}
	n := 0
	for _, fn := range c.P.Funcs() {
		if skip(fn) {
			continue
		}
		ss := constSites(fn)
		n += len(ss)
		if len(ss) > 0 {
			roots[rootFn(fn)] = append(roots[rootFn(fn)], ss...)
		}
	}
	var order []*ssa.Function
	for fn := range roots {
		order = append(order, fn)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	for _, fn := range order {
		bad := indexErrors(c, fn, fn, roots[fn], 0)
		for _, s := range roots[fn] {
			con := c.P.FnName(fn)
			c.Obl("index", fmt.Sprintf("%s: %s[%d]", con, name32(s.base), s.need-1))
			if msg := bad[s.in]; msg != "" && !guarded(c, s) {
				c.Fail("index", con, c.P.InstrPos(s.in), msg, nil)
			}
		}
	}
	c.Min("index", n, 20, "constant indexes and bounds")

	// nothing is expected of a call that failed
	uses := 0
	for _, fn := range c.P.Funcs() {
		if skip(fn) {
			continue
		}
		k, bad := failedUses(c, fn)
		uses += k
		if k > 0 {
			c.Obl("failed-call", c.P.FnName(fn))
		}
		for _, u := range bad {
			c.Fail("failed-call", c.P.FnName(fn), c.P.InstrPos(u), "the result of a call is used although the call may have failed", nil)
		}
	}
	c.Min("failed-call", uses, 20, "uses of results of calls that may fail")

	// nothing ends the process while metadata is parsed
	for _, root := range []string{"desc.ParseDesc", "desc.ReadDesc", "desc.ParseDep", "desc.ParseVersion", "desc.CompareVersionStrings", "cran.isRVersionCompatible", "rcmd.updateDescriptionInfoByLines", "pacman.scanInstalledPackage", "configlib.SetPlanCustomizations"} {
		fn := c.P.Func(root)
		if fn == nil {
			continue
		}
		k := 0
		for _, f := range withCallees(c, fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					what := ""
					switch x := in.(type) {
					case *ssa.Panic:
						what = "panics"
					case *ssa.TypeAssert:
						if !x.CommaOk {
							what = "asserts a type without a check"
						}
					case ssa.CallInstruction:
						k++
						name := c.P.CalleeName(x.Common())
						if root == "configlib.SetPlanCustomizations" {
							break // reports mistakes of the user that way
						}
						if name == "os.Exit" || strings.Contains(name, "logrus.") && (strings.Contains(name, "Fatal") || strings.Contains(name, "Panic")) || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
							what = "calls " + name
						}
						if strings.HasSuffix(name, "MustCompile") {
							if cst, ok := x.Common().Args[0].(*ssa.Const); !ok || cst == nil {
								what = "compiles a pattern that is not constant"
							}
						}
					}
					if what != "" {
						c.Fail("no-crash", root, c.P.InstrPos(in), c.P.FnName(f)+" "+what, nil)
					}
				}
			}
		}
		c.Obl("no-crash", root)
		c.Min("no-crash", k, 1, "calls in "+root)
	}
	c32library(c)
	c32kept(c)
}

// c32library checks that nothing that lies in a library that can be read ends
// the process.
func c32library(c *C) {
	fn := c.Fn("pacman.GetPriorInstalledPackages")
	con := c.P.FnName(fn)
	e := c.Eng()
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		lists := hasSuffix(ev.Name, ".Readdir") || hasSuffix(ev.Name, ".ReadDir") || hasSuffix(ev.Name, ".Readdirnames")
		opens := hasSuffix(ev.Name, "Fs).Open") || ev.Name == "os.Open" || hasSuffix(ev.Name, "Fs).OpenFile")
		if !lists && !opens || errIndex(ev) != 1 {
			return nil
		}
		for _, a := range ev.Args {
			if opens && !a.All(func(t *engine.Term) bool {
				t = engine.Strip(e.Unprev(t))
				return t.Op == "param"
			}) {
				return nil
			}
		}
		n++
		return []engine.Outcome{{Res: []engine.Val{{e.Sym("read "+ev.Name, resType(ev, 0))}, {e.Nil()}}}}
	}
	k := 0
	for _, x := range e.Run(fn, e.Start()) {
		switch x.Kind {
		case "return":
			k++
		default:
			c.Fail("no-crash", con, c.P.InstrPos(x.At), "the process ends over what lies in a library that can be read", x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Obl("no-crash", con)
	c.Min("no-crash", n, 1, "readings of the library")
	c.Min("no-crash", k, 1, "ways the library is read")
}

func name32(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "(...)"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return name32(x.X)
		}
	case *ssa.FieldAddr:
		return fieldName(x)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	}
	return "value"
}

// indexErrors are the sites that may be out of range when run is executed; a
// site whose length the callers guarantee is decided in the callers.
func indexErrors(c *C, fn, run *ssa.Function, sites []constSite, depth int) map[ssa.Instruction]string {
	bad := map[ssa.Instruction]string{}
	bySite := map[ssa.Instruction]constSite{}
	for _, s := range sites {
		bySite[s.in] = s
	}
	e := c.Eng()
	name := c.P.FnName(fn)
	e.InlineSize = 40
	e.Relevant = func(n string) bool { return run != fn && n == name }
	// the layers of a graph something was added to: at least one (C13)
	if name != "gpsr.ResolveLayers" {
		e.Opaque["gpsr.appendToGraph"], e.Opaque["gpsr.ResolveLayers"] = true, true
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch ev.Name {
			case "gpsr.appendToGraph":
				return []engine.Outcome{{Set: map[string]string{"graph:" + e.SV(ev.Arg(0)): "1"}}}
			case "gpsr.ResolveLayers":
				if ev.G.Auto["graph:"+e.SV(ev.Arg(0))] == "1" {
					return []engine.Outcome{
						{Res: []engine.Val{{e.T("vlist", "", resType(ev, 0), e.Sym("layer", nil))}, {e.Nil()}}},
						{Res: []engine.Val{{e.Sym("layers", resType(ev, 0))}, {e.NonNilErr(ev.Name)}}},
					}
				}
			}
			return nil
		}
	}
	e.InstrHook = func(f *ssa.Function, ctx *engine.Ctx, in ssa.Instruction, st *engine.State) {
		s, ok := bySite[in]
		if !ok || bad[in] != "" {
			return
		}
		v := e.ValOf(st, s.base)
		if len(v) > 1 && atLeast(e, st.G(), e.Alt(v), s.need) {
			return
		}
		for _, t := range v {
			if !atLeast(e, st.G(), t, s.need) {
				bad[in] = fmt.Sprintf("%s may have fewer than %d elements", short(e.S(t)), s.need)
			}
		}
	}
	e.Run(run, e.Start())
	c.Absorb(e)
	if len(bad) == 0 || depth >= 2 {
		return bad
	}
	// do the callers guarantee it?
	callers := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == run {
						if call, ok := in.(ssa.CallInstruction); !ok || call.Common().Value != run {
							return bad // used as a value
						}
						callers[rootFn(f)] = true
					}
				}
			}
		}
	}
	if len(callers) == 0 || callers[run] {
		return bad
	}
	var rest []constSite
	for _, s := range sites {
		if bad[s.in] != "" {
			rest = append(rest, s)
		}
	}
	out := map[ssa.Instruction]string{}
	for caller := range callers {
		for in, msg := range indexErrors(c, fn, caller, rest, depth+1) {
			out[in] = msg
		}
	}
	return out
}

// c32kept: ParseDep names the dependency before anything else can go wrong.
func c32kept(c *C) {
	fn := c.Fn("desc.ParseDep")
	n := 0
	for _, text := range []string{"pkgA", "pkgA (>= 1.0)", "pkgA (!= 1.0)", "pkgA (= 1.0)", "pkgA (>= )", "pkgA ()", "pkgA (1.0)", "pkgA(<= 2)", " pkgA (>1)"} {
		e := c.Eng()
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if u := deref(t); u.Op == "param" && u.Type != nil && isString(u.Type) {
				return text, true
			}
			return nil, false
		}
		tx := &Text{M: m}
		tx.Use(e)
		e.Opaque["desc.ParseVersion"] = true
		k := 0
		for _, x := range e.Run(fn, e.Start()) {
			con := fmt.Sprintf("dependency %q", text)
			if x.Kind != "return" {
				c.Obl("kept", con)
				c.Fail("kept", con, "", "ParseDep does not return: "+x.Kind, x.G.Path(6))
				continue
			}
			k++
			got := e.FieldOf(x.G, x.Res[0], "Name")
			s, ok := tx.NormVal(got)
			c.Need(ok && s == "pkgA", "kept", con, "", fmt.Sprintf("its name is %s", short(e.SV(got))))
		}
		c.Absorb(e)
		if k > 0 {
			n++
		}
	}
	c.Min("kept", n, 9, "dependencies evaluated")
}

// guarded reports whether the conditions that dominate a site leave the text
// or list long enough.
func guarded(c *C, s constSite) bool {
	b := s.in.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i := range d.Succs {
			if !leadsTo(c, d.Succs[1-i], b, d) && boundOf(br.Cond, i == 0, s.base) >= s.need {
				return true
			}
		}
	}
	return false
}

// leadsTo reports whether b can be reached from a other than through d.
func leadsTo(c *C, a, b, d *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{d: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if call, ok := in.(*ssa.Call); ok && endsHere(c, call, 0) {
				return false
			}
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// boundOf is the length of v that a condition implies.
func boundOf(cond ssa.Value, holds bool, v ssa.Value) int64 {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return boundOf(x.X, !holds, v)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !holds || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" || len(x.Call.Args) != 2 || !sameValue(x.Call.Args[0], v) {
			return 0
		}
		switch f.Name() {
		case "HasPrefix", "HasSuffix", "Contains":
			if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				return int64(len(constant.StringVal(k.Value)))
			}
		}
	case *ssa.BinOp:
		op, l, r := x.Op, x.X, x.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := r.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0
		}
		if !holds {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		if k.Value.Kind() == constant.String && sameValue(l, v) {
			t := constant.StringVal(k.Value)
			if op == token.EQL {
				return int64(len(t))
			}
			if op == token.NEQ && t == "" {
				return 1
			}
			return 0
		}
		call, ok := l.(*ssa.Call)
		if !ok || k.Value.Kind() != constant.Int {
			return 0
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !sameValue(call.Call.Args[0], v) {
			return 0
		}
		n, _ := constant.Int64Val(k.Value)
		switch op {
		case token.EQL, token.GEQ:
			return n
		case token.GTR:
			return n + 1
		case token.NEQ:
			if n == 0 {
				return 1
			}
		}
	}
	return 0
}

// sameValue reports whether two registers hold the same text or list: the
// same register, or loads of one place that nothing in the function replaces.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || !samePlace(x.X, y.X) {
		return false
	}
	n := 0
	for _, blk := range x.Parent().Blocks {
		for _, in := range blk.Instrs {
			if st, ok := in.(*ssa.Store); ok && samePlace(st.Addr, x.X) {
				n++
			}
		}
	}
	_, local := x.X.(*ssa.Alloc)
	return n == 0 || local && n == 1
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && (samePlace(x.X, y.X) || sameValue(x.X, y.X))
	}
	return false
}

// endsHere reports whether a call never returns.
func endsHere(c *C, call *ssa.Call, depth int) bool {
	if engine.NoReturn(c.P.CalleeName(call.Common())) != "" {
		return true
	}
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || !c.P.InModule(f) || depth > 3 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var returns func(b *ssa.BasicBlock) bool
	returns = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if endsHere(c, x, depth+1) {
					return false
				}
			case *ssa.Return:
				return true
			}
		}
		for _, s := range b.Succs {
			if returns(s) {
				return true
			}
		}
		return false
	}
	return !returns(f.Blocks[0])
}
