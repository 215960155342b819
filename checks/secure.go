package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C21", "Abstract interpretation of every request with the option off and on: the client's certificate verification is resolved at each request, the option is followed from the configuration through every call, and every store that disables verification is accounted for.", c21)
	register("C37", "Abstract interpretation of the package-list cache over ages of the cached file and values of the control variable.", c37)
}

// skipsVerify resolves the client's InsecureSkipVerify: "true", "false" or
// what is not known of it.
func skipsVerify(e *engine.Eng, g *engine.G, client engine.Val) string {
	res := ""
	add := func(s string) {
		if res != "" && res != s {
			res = "either"
			return
		}
		res = s
	}
	inner := func(v engine.Val) engine.Val {
		var out engine.Val
		for _, t := range v {
			u := engine.Strip(t)
			for (u.Op == "iface" || u.Op == "makeiface") && len(u.Args) > 0 {
				u = u.Args[0]
			}
			out = append(out, u)
		}
		return out
	}
	isZero := func(t *engine.Term) bool { return t.Op == "nil" || t.Op == "zero" }
	for _, cl := range inner(client) {
		if cl.Op == "global" || strings.Contains(e.S(cl), "DefaultClient") {
			add("false")
			continue
		}
		for _, tr := range inner(e.FieldOf(g, engine.Val{cl}, "Transport")) {
			if isZero(tr) || strings.Contains(e.S(tr), "DefaultTransport") {
				add("false")
				continue
			}
			for _, tc := range inner(e.FieldOf(g, engine.Val{tr}, "TLSClientConfig")) {
				if isZero(tc) {
					add("false")
					continue
				}
				for _, sk := range e.FieldOf(g, engine.Val{tc}, "InsecureSkipVerify") {
					if b, ok := sk.ConstBool(); ok {
						add(fmt.Sprint(b))
					} else if isZero(sk) {
						add("false")
					} else if e.IsTrue(g, engine.Val{sk}) {
						add("true")
					} else if e.IsFalse(g, engine.Val{sk}) {
						add("false")
					} else {
						add("unknown: " + e.S(sk))
					}
				}
			}
		}
	}
	if res == "" {
		return "unknown"
	}
	return res
}

func c21(c *C) {
	c.Rule("verified", "without the option, every request is made with a client that verifies the server's certificate")
	c.Rule("option", "with the option, requests are made without that verification")
	c.Rule("passed-on", "each call passes on the option of the configuration")
	c.Rule("stores", "certificate verification is disabled nowhere else")
	requests := map[string]int{"http.Client).Get": 0, "net/http.Get": -1, "http.Client).Do": 0, "net/http.Head": -1, "net/http.Post": -1, "http.Client).Head": 0, "http.Client).Post": 0}
	reach := map[*ssa.Function]bool{}
	n := 0
	for _, name := range []string{fnFetch, fnDownload1} {
		fn := c.Fn(name)
		for _, f := range withCallees(c, fn) {
			reach[f] = true
		}
		for _, opt := range []bool{false, true} {
			e := c.Eng()
			e.Assume = func(t *engine.Term) (bool, bool) {
				if u := deref(t); u.Op == "param" && u.Type != nil && types.TypeString(u.Type, nil) == "bool" && strings.Contains(strings.ToLower(u.Str), "secure") {
					return opt, true
				}
				return false, false
			}
			e.Relevant = rel(`net/http\.`)
			k := 0
			e.Call = func(ev *engine.Ev) []engine.Outcome {
				for suf, i := range requests {
					if !hasSuffix(ev.Name, suf) {
						continue
					}
					k++
					got := "false"
					if i >= 0 {
						got = skipsVerify(e, ev.G, ev.Arg(i))
					}
					if !opt {
						c.Need(got == "false", "verified", name, where(ev), "the client's InsecureSkipVerify is "+got+" although the option is off")
					} else {
						c.Need(got == "true", "option", name, where(ev), "the client's InsecureSkipVerify is "+got+" although the option is on")
					}
				}
				return nil
			}
			e.Run(fn, e.Start())
			c.Absorb(e)
			if k > 0 {
				n++
			}
		}
	}
	c.Min("verified", n, 4, "functions and settings with requests")

	// every store
	ns := 0
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "InsecureSkipVerify" {
					continue
				}
				ns++
				c.Need(reach[fn] || reach[fn.Parent()], "stores", c.P.FnName(fn), c.P.InstrPos(in), "InsecureSkipVerify is set outside the requests that are analysed")
			}
		}
	}
	c.Min("stores", ns, 1, "places that set InsecureSkipVerify")
	// every request
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := c.P.CalleeName(call.Common())
				for suf := range requests {
					if hasSuffix(name, suf) {
						root := fn
						for root.Parent() != nil {
							root = root.Parent()
						}
						c.Need(reach[root], "verified", c.P.FnName(fn), c.P.InstrPos(in), "a request outside the functions analysed")
					}
				}
			}
		}
	}

	// the option, from the configuration to the requests
	takes := map[string]int{}
	for _, name := range []string{fnFetch, fnDownload1, fnDownload, fnNewRepo, fnNewDb} {
		fn := c.Fn(name)
		for i, p := range fn.Params {
			if types.TypeString(p.Type(), nil) == "bool" {
				takes[name] = i
			}
		}
	}
	c.Min("passed-on", len(takes), 5, "functions that take the option")
	calls := 0
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := c.P.CalleeName(call.Common())
				i, ok := takes[name]
				if !ok {
					continue
				}
				calls++
				src := origin(c, call.Common().Args[i])
				c.Need(src == "field NoSecure", "passed-on", c.P.FnName(rootFn(fn))+" to "+name, c.P.InstrPos(in), "passes "+src)
			}
		}
	}
	c.Min("passed-on", calls, 5, "calls that pass it on")
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// origin describes where a value comes from: a parameter, a field, a constant.
func origin(c *C, v ssa.Value) string {
	return originIn(c, v, map[ssa.Value]bool{})
}

func originIn(c *C, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		// what every caller gives
		fn := x.Parent()
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			set := map[string]bool{}
			for _, a := range callerArgs(c, fn, i) {
				if o := originIn(c, a, seen); o != "" {
					set[o] = true
				}
			}
			if ks := keys(set); len(ks) == 1 {
				return ks[0]
			} else if len(ks) > 1 {
				return "one of " + strings.Join(ks, ", ")
			}
		}
		return "param " + x.Name()
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						return originIn(c, mc.Bindings[i], seen)
					}
				}
			}
		}
	case *ssa.Field:
		return "field " + structField(x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		return "field " + fieldName(x)
	case *ssa.UnOp:
		return originIn(c, x.X, seen)
	case *ssa.Const:
		return "constant " + x.Value.String()
	case *ssa.Alloc:
		var out []string
		for _, s := range storesInto(x) {
			if o := originIn(c, s, seen); o != "" {
				out = append(out, o)
			}
		}
		if len(out) == 1 {
			return out[0]
		}
		return "one of " + strings.Join(out, ", ")
	case *ssa.Phi:
		set := map[string]bool{}
		for _, ed := range x.Edges {
			if o := originIn(c, ed, seen); o != "" {
				set[o] = true
			}
		}
		if ks := keys(set); len(ks) == 1 {
			return ks[0]
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			set := map[string]bool{}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					set[originIn(c, r.Results[0], seen)] = true
				}
			}
			if ks := keys(set); len(ks) == 1 && strings.HasPrefix(ks[0], "field") {
				return ks[0]
			}
		}
	}
	return fmt.Sprintf("%T %s", v, v)
}

// callerArgs are the arguments given for a parameter at every call.
func callerArgs(c *C, fn *ssa.Function, i int) []ssa.Value {
	var out []ssa.Value
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				v := call.Common().Value
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v == fn && i < len(call.Common().Args) {
					out = append(out, call.Common().Args[i])
				}
			}
		}
	}
	return out
}

func fieldName(fa *ssa.FieldAddr) string { return structField(fa.X.Type(), fa.Field) }

func structField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return ""
}

func c37(c *C) {
	c.Rule("fresh", "a cached package list is used only while it is younger than the age allowed, one hour unless R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE says otherwise")
	c.Rule("reused", "and then no list is requested")
	c.Rule("refreshed", "without a cached list that is young enough the lists are requested, and stored anew")
	c.Rule("same-file", "the cached list that is read is the one stored")
	fn := c.Fn(fnFetch)
	const now = int64(1_700_000_000)
	n := 0
	for _, env := range []string{"unset", "60", "7200", "0", "not a number"} {
		max := int64(3600)
		switch env {
		case "60":
			max = 60
		case "7200":
			max = 7200
		case "0":
			max = 0
		}
		for _, age := range []int64{-1, 0, 30, 59, 61, 3599, 3601, 7199, 7201, 1_000_000} {
			n++
			what := fmt.Sprintf("list of age %ds, control variable %s", age, env)
			if age < 0 {
				what = "no list, control variable " + env
			}
			read, requested, stored, other := c37one(c, fn, env, age, now)
			fresh := age >= 0 && age < max
			if fresh {
				c.Need(read == "must", "reused", what, "", "the cached list is not used")
				c.Need(!requested, "reused", what, "", "the list is requested although it is cached")
			} else {
				c.Need(read == "never", "fresh", what, "", "the cached list is used")
				c.Need(requested && stored, "refreshed", what, "", fmt.Sprintf("requested: %v, stored: %v", requested, stored))
			}
			c.Need(other == "", "same-file", what, "", other)
		}
	}
	c.Min("fresh", n, 50, "settings evaluated")
}

// c37one evaluates the use of the cache in one setting.
func c37one(c *C, fn *ssa.Function, env string, age, now int64) (read string, requested, stored bool, other string) {
	e := c.Eng()
	e.Fine = true
	e.Relevant = rel(`net/http\.|RepoDb\)\.Decode|RepoDb\)\.Encode|os\.Stat|LookupEnv|Getenv|time\.`)
	e.Opaque["desc.ParseDesc"] = true
	e.Opaque["(*cran.RepoDb).Decode"] = true
	e.Opaque[fnEncode] = true
	e.Opaque["cran.GetPackagesFileURL"] = true
	e.Opaque["cran.isRVersionCompatible"] = true
	const sec = int64(1_000_000_000)
	m := &Model{}
	m.Atom = func(t *engine.Term) (any, bool) {
		u := deref(t)
		arg := func(i int) (int64, bool) {
			if i >= len(u.Args) {
				return 0, false
			}
			v, ok := m.Eval(u.Args[i])
			n, ok2 := v.(int64)
			return n, ok && ok2
		}
		if isLookup := u.Op == "res" && len(u.Args) == 1; isLookup {
			switch p := engine.Strip(u.Args[0]); p.Str {
			case "os.LookupEnv":
				if u.Str == "1" {
					return env != "unset", true
				}
				return envText(env), true
			case "strconv.ParseInt", "strconv.Atoi":
				if u.Str == "0" {
					var n int64
					fmt.Sscan(envText(env), &n)
					return n, true
				}
			}
		}
		if u.Op != "call" {
			return nil, false
		}
		switch {
		case u.Str == "os.Getenv":
			return envText(env), true
		case u.Str == "time.Now":
			return now * sec, true
		case strings.HasSuffix(u.Str, ".ModTime"):
			return (now - age) * sec, true
		case strings.HasSuffix(u.Str, "time.Time).Add"):
			a, ok1 := arg(0)
			b, ok2 := arg(1)
			return a + b, ok1 && ok2
		case strings.HasSuffix(u.Str, "time.Time).Sub"):
			a, ok1 := arg(0)
			b, ok2 := arg(1)
			return a - b, ok1 && ok2
		case u.Str == "time.Since":
			a, ok := arg(0)
			return now*sec - a, ok
		case u.Str == "time.Until":
			a, ok := arg(0)
			return a - now*sec, ok
		case strings.HasSuffix(u.Str, "time.Time).Unix"), strings.HasSuffix(u.Str, "time.Duration).Seconds"):
			a, ok := arg(0)
			return a / sec, ok
		case strings.HasSuffix(u.Str, "time.Time).UnixNano"), strings.HasSuffix(u.Str, "time.Duration).Nanoseconds"):
			return firstOf(arg(0))
		case strings.HasSuffix(u.Str, "time.Time).After"):
			a, ok1 := arg(0)
			b, ok2 := arg(1)
			return a > b, ok1 && ok2
		case strings.HasSuffix(u.Str, "time.Time).Before"):
			a, ok1 := arg(0)
			b, ok2 := arg(1)
			return a < b, ok1 && ok2
		case u.Str == "os.IsNotExist", u.Str == "errors.Is":
			return age < 0, true
		}
		return nil, false
	}
	m.Use(e)
	file := ""
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch {
		case ev.Name == "os.Stat" || hasSuffix(ev.Name, ".Stat"):
			if age < 0 {
				return []engine.Outcome{{Res: []engine.Val{{e.Nil()}, {e.NonNilErr("failed")}}}}
			}
			return []engine.Outcome{{Res: []engine.Val{{e.Sym("info", resType(ev, 0))}, {e.Nil()}}}}
		case ev.Name == "strconv.ParseInt" || ev.Name == "strconv.Atoi":
			if env == "not a number" || env == "unset" {
				return symErr(ev, true)
			}
			return symErr(ev, false)
		case ev.Name == "(*cran.RepoDb).Decode":
			ev.G.Auto["read"] = "1"
			file = sameName(file, e.SV(ev.Arg(1)), &other)
			return okFail(ev, nil, nil)
		case ev.Name == fnEncode:
			stored = true
			file = sameName(file, e.SV(ev.Arg(1)), &other)
			return okFail(ev, nil, nil)
		case hasSuffix(ev.Name, "http.Client).Get") || ev.Name == "net/http.Get" || hasSuffix(ev.Name, "http.Client).Do"):
			requested = true
		}
		return nil
	}
	yes, no := 0, 0
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		if x.G.Auto["read"] == "1" {
			yes++
		} else {
			no++
		}
	}
	c.Absorb(e)
	switch {
	case yes > 0 && no == 0:
		read = "must"
	case yes == 0:
		read = "never"
	default:
		read = "may"
	}
	return
}

func firstOf(n int64, ok bool) (any, bool) { return n, ok }

func envText(env string) string {
	if env == "unset" {
		return ""
	}
	return env
}

func sameName(a, b string, other *string) string {
	if a != "" && a != b {
		*other = "reads or stores " + a + " and " + b
	}
	return b
}

// symErr is a conversion that succeeded or failed.
func symErr(ev *engine.Ev, fail bool) []engine.Outcome {
	e := ev.E
	err := engine.Val{e.Nil()}
	if fail {
		err = engine.Val{e.NonNilErr("failed")}
	}
	var as []*engine.Term
	for i := range ev.Args {
		as = append(as, e.Alt(ev.Arg(i)))
	}
	call := e.T("call", ev.Name, nil, as...)
	return []engine.Outcome{{Res: []engine.Val{{e.T("res", "0", resType(ev, 0), call)}, err}}}
}
