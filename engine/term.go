package engine

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a call-string node: the chain of inlined call sites.
type Ctx struct {
	Parent *Ctx
	Site   ssa.Instruction
	Fn     *ssa.Function
	ID     int
	Depth  int
}

// Term is a hash-consed provenance expression.
type Term struct {
	ID    int
	Op    string
	Str   string
	Args  []*Term
	Type  types.Type
	Ctx   *Ctx
	Site  ssa.Instruction
	Fn    *ssa.Function
	CV    constant.Value
	depth int
	bound bool // has a site-bound subterm
}

// Val is a set of alternative terms.
type Val []*Term

func (e *Eng) intern(t *Term) *Term {
	// a pure operation on values of an earlier iteration is a value of an
	// earlier iteration
	switch t.Op {
	case "list", "vlist", "alt", "mix", "prev", "tuple", "record", "mayelem", "spread":
	default:
		if t.Ctx == nil && len(t.Args) > 0 {
			any, all := false, true
			for _, a := range t.Args {
				if a.Op == "prev" {
					any = true
				} else if a.Op == "vlist" {
					for _, b := range a.Args {
						if b.Op == "prev" {
							any = true
						} else if b.bound {
							all = false
						}
					}
				} else if a.bound {
					all = false
				}
			}
			if any && all {
				na := make([]*Term, len(t.Args))
				for i, a := range t.Args {
					na[i] = a
					if a.Op == "prev" {
						na[i] = a.Args[0]
					} else if a.Op == "vlist" && a.bound {
						nb := make([]*Term, len(a.Args))
						for j, b := range a.Args {
							nb[j] = b
							if b.Op == "prev" {
								nb[j] = b.Args[0]
							}
						}
						na[i] = e.intern(&Term{Op: "vlist", Args: nb, Type: a.Type})
					}
				}
				n := *t
				n.Args = na
				return e.Prev(e.intern(&n))
			}
		}
	}
	var buf [128]byte
	b := append(buf[:0], t.Op...)
	b = append(b, '|')
	b = append(b, t.Str...)
	b = append(b, '|')
	for _, a := range t.Args {
		b = strconv.AppendInt(b, int64(a.ID), 10)
		b = append(b, ',')
	}
	if t.Ctx != nil {
		b = append(b, "|c"...)
		b = strconv.AppendInt(b, int64(t.Ctx.ID), 10)
	}
	if t.Site != nil {
		b = append(b, "|s"...)
		b = strconv.AppendInt(b, int64(e.siteID(t.Site)), 10)
	}
	if t.Fn != nil {
		b = append(b, "|f"...)
		b = strconv.AppendInt(b, int64(e.fnID(t.Fn)), 10)
	}
	if (t.Op == "const" || t.Op == "zero" || t.Op == "record" || t.Op == "istype") && t.Type != nil {
		b = append(b, '|')
		b = append(b, e.typeName(t.Type)...)
	}
	k := string(b)
	if x, ok := e.terms[k]; ok {
		return x
	}
	for _, a := range t.Args {
		d := a.depth + 1
		if t.Op == "mayelem" || t.Op == "prev" {
			d = a.depth
		}
		if d > t.depth {
			t.depth = d
		}
		if a.bound {
			t.bound = true
		}
	}
	if t.Ctx != nil {
		t.bound = true
	}
	t.ID = len(e.terms) + 1
	e.terms[k] = t
	if t.depth > e.MaxDepth && t.Op != "mix" && t.Op != "alt" {
		m := e.Mix(t)
		e.terms[k] = m
		return m
	}
	if e.Known != nil && (t.Op == "load" || t.Op == "field" || t.Op == "lookup") {
		if v := e.Known(t); v != nil {
			e.terms[k] = v
			return v
		}
	}
	return t
}

func (e *Eng) siteID(s ssa.Instruction) int {
	if i, ok := e.siteIDs[s]; ok {
		return i
	}
	e.siteIDs[s] = len(e.siteIDs) + 1
	return len(e.siteIDs)
}

func (e *Eng) fnID(f *ssa.Function) int {
	if i, ok := e.fnIDs[f]; ok {
		return i
	}
	e.fnIDs[f] = len(e.fnIDs) + 1
	return len(e.fnIDs)
}

func (e *Eng) typeName(t types.Type) string {
	if n, ok := e.typeNames[t]; ok {
		return n
	}
	n := types.TypeString(t, nil)
	e.typeNames[t] = n
	return n
}

// T builds a generic pure term.
func (e *Eng) T(op, str string, typ types.Type, args ...*Term) *Term {
	return e.intern(&Term{Op: op, Str: str, Args: args, Type: typ})
}

// Const builds a constant term from a Go constant.
func (e *Eng) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return e.Nil()
	}
	// constants are compared by value, not by named type
	bt := typ.Underlying()
	if b, ok := bt.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			bt = types.Typ[types.String]
		case b.Info()&types.IsBoolean != 0:
			bt = types.Typ[types.Bool]
		case b.Info()&types.IsInteger != 0:
			bt = types.Typ[types.Int]
		}
	}
	return e.intern(&Term{Op: "const", Str: v.ExactString(), Type: bt, CV: v})
}

func (e *Eng) Str(s string) *Term {
	return e.Const(constant.MakeString(s), types.Typ[types.String])
}
func (e *Eng) Int(i int64) *Term { return e.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (e *Eng) Bool(b bool) *Term { return e.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Eng) Nil() *Term        { return e.T("nil", "", nil) }

// Sym builds a free symbolic root.
func (e *Eng) Sym(name string, typ types.Type) *Term { return e.T("param", name, typ) }

// NonNilErr is a symbolic non-nil error.
func (e *Eng) NonNilErr(name string) *Term {
	return e.T("errval", name, types.Universe.Lookup("error").Type())
}

func sortTerms(ts []*Term) []*Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	out := ts[:0]
	for i, t := range ts {
		if i == 0 || t != ts[i-1] {
			out = append(out, t)
		}
	}
	return out
}

// Mix is the widened value: only the set of leaves is kept.
func (e *Eng) Mix(ts ...*Term) *Term {
	set := map[*Term]bool{}
	for _, t := range ts {
		e.leaves(t, set, map[*Term]bool{})
	}
	var ls []*Term
	for t := range set {
		ls = append(ls, t)
	}
	ls = sortTerms(ls)
	return e.intern(&Term{Op: "mix", Args: ls})
}

func (e *Eng) leaves(t *Term, set map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case "field", "load", "faddr":
		// an access path is atomic when it is rooted at a symbol
		if r := t.pathRoot(); r != nil {
			set[t] = true
			return
		}
	case "call":
		set[e.intern(&Term{Op: "opaque", Str: t.Str, Ctx: t.Ctx, Site: t.Site})] = true
	}
	if len(t.Args) == 0 {
		set[t] = true
		return
	}
	for _, a := range t.Args {
		e.leaves(a, set, seen)
	}
}

func (t *Term) pathRoot() *Term {
	switch t.Op {
	case "param", "global":
		return t
	case "field", "load", "faddr":
		return t.Args[0].pathRoot()
	}
	return nil
}

// Alt embeds a set of alternatives as one term.
func (e *Eng) Alt(v Val) *Term {
	if len(v) == 1 {
		return v[0]
	}
	if len(v) == 0 {
		return e.T("undef", "", nil)
	}
	var flat []*Term
	for _, t := range v {
		if t.Op == "alt" {
			flat = append(flat, t.Args...)
		} else {
			flat = append(flat, t)
		}
	}
	flat = sortTerms(flat)
	if len(flat) == 1 {
		return flat[0]
	}
	if len(flat) > 3*e.MaxAlts {
		return e.Mix(flat...)
	}
	return e.intern(&Term{Op: "alt", Args: flat})
}

// V makes a Val.
func (e *Eng) V(ts ...*Term) Val {
	var out []*Term
	for _, t := range ts {
		if t.Op == "alt" {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	out = sortTerms(out)
	if len(out) > e.MaxAlts {
		return Val{e.Mix(out...)}
	}
	return out
}

func (e *Eng) union(a, b Val) Val {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if sameVal(a, b) {
		return a
	}
	ts := append(append([]*Term{}, a...), b...)
	return e.V(ts...)
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// IsConst reports a constant term.
func (t *Term) IsConst() bool { return t.Op == "const" }

// ConstString returns the value of a string constant.
func (t *Term) ConstString() (string, bool) {
	if t.Op == "const" && t.CV != nil && t.CV.Kind() == constant.String {
		return constant.StringVal(t.CV), true
	}
	return "", false
}

func (t *Term) ConstInt() (int64, bool) {
	if t.Op == "const" && t.CV != nil && t.CV.Kind() == constant.Int {
		i, ok := constant.Int64Val(t.CV)
		return i, ok
	}
	return 0, false
}

func (t *Term) ConstBool() (bool, bool) {
	if t.Op == "const" && t.CV != nil && t.CV.Kind() == constant.Bool {
		return constant.BoolVal(t.CV), true
	}
	return false, false
}

// Unprev strips "value from an earlier iteration" markers everywhere.
func (e *Eng) Unprev(t *Term) *Term {
	return e.rewrite(t, func(x *Term) *Term {
		if x.Op == "prev" {
			return x.Args[0]
		}
		return x
	}, map[*Term]*Term{})
}

func (e *Eng) rewrite(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if m, ok := memo[t]; ok {
		return m
	}
	memo[t] = t
	r := t
	if len(t.Args) > 0 {
		changed := false
		na := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			na[i] = e.rewrite(a, f, memo)
			if na[i] != a {
				changed = true
			}
		}
		if changed {
			r = e.rebuild(t, na)
		}
	}
	r = f(r)
	memo[t] = r
	return r
}

// rebuild re-creates t with new arguments, re-normalising.
func (e *Eng) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "field":
		return e.Field(args[0], t.Str, t.Type)
	case "list":
		return e.List(t.Type, args)
	case "record":
		for i, a := range args {
			args[i] = e.loosen(a)
		}
	case "alt":
		for i, a := range args {
			args[i] = e.loosen(a)
		}
		return e.Alt(Val(sortTerms(append([]*Term{}, args...))))
	case "mix":
		return e.Mix(args...)
	case "prev":
		return e.Prev(args[0])
	}
	n := *t
	n.Args = args
	n.ID, n.depth, n.bound = 0, 0, false
	return e.intern(&n)
}

// loosen turns an exact list with elements of earlier iterations into an
// unordered one.
func (e *Eng) loosen(t *Term) *Term {
	if t.Op == "vlist" {
		for _, a := range t.Args {
			if a.Op == "prev" {
				return e.List(t.Type, t.Args)
			}
		}
	}
	return t
}

// Prev marks a term as coming from an earlier loop iteration.
func (e *Eng) Prev(t *Term) *Term {
	if t.Op == "prev" || !t.bound {
		return t
	}
	return e.intern(&Term{Op: "prev", Args: []*Term{t}, Type: t.Type})
}

// Field selects a struct field by name.
func (e *Eng) Field(t *Term, name string, typ types.Type) *Term {
	switch t.Op {
	case "record":
		for i, f := range strings.Split(t.Str, ",") {
			if f == name {
				return t.Args[i]
			}
		}
		// base record
		if n := strings.Count(t.Str, ","); len(t.Args) > n+1 {
			return e.Field(t.Args[len(t.Args)-1], name, typ)
		}
	case "zero":
		return e.Zero(typ)
	case "nil":
		return e.Zero(typ)
	case "alt":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, e.Field(a, name, typ))
		}
		return e.Alt(Val(sortTerms(out)))
	case "prev":
		x := e.Field(t.Args[0], name, typ)
		return e.Prev(x)
	}
	return e.intern(&Term{Op: "field", Str: name, Args: []*Term{t}, Type: typ})
}

// Zero value of a type.
func (e *Eng) Zero(typ types.Type) *Term {
	if typ == nil {
		return e.T("zero", "", nil)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		case u.Info()&types.IsFloat != 0:
			return e.Const(constant.MakeFloat64(0), types.Typ[types.Float64])
		}
		return e.Nil()
	case *types.Struct, *types.Array:
		return e.T("zero", "", typ)
	}
	return e.Nil()
}

// List is the abstract content of a slice built by appends: an unordered set
// of element terms plus spread(s) for whole slices appended.
func (e *Eng) List(typ types.Type, args []*Term) *Term {
	var flat []*Term
	for _, a := range args {
		if a.Op == "list" {
			flat = append(flat, a.Args...)
		} else {
			flat = append(flat, a)
		}
	}
	flat = sortTerms(flat)
	// Drop prev(x) when x is present: same provenance.
	have := map[*Term]bool{}
	for _, a := range flat {
		have[a] = true
	}
	out := flat[:0:0]
	for _, a := range flat {
		if a.Op == "prev" && have[a.Args[0]] {
			continue
		}
		if a.Op == "mayelem" && (have[a.Args[0]] || a.Args[0].Op == "prev" && have[a.Args[0].Args[0]]) {
			continue
		}
		out = append(out, a)
	}
	if len(out) > 4*e.MaxAlts {
		m := e.Mix(out...)
		out = []*Term{m}
	}
	return e.intern(&Term{Op: "list", Args: out, Type: typ})
}

// Contains reports whether pred holds for a subterm of t.
func (t *Term) Contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ContainsTerm reports whether x is a subterm of t.
func (t *Term) ContainsTerm(x *Term) bool {
	return t.Contains(func(y *Term) bool { return y == x })
}

// Any reports whether pred holds for some alternative.
func (v Val) Any(pred func(*Term) bool) bool {
	for _, t := range v {
		if pred(t) {
			return true
		}
	}
	return false
}

// All reports whether pred holds for every alternative (and there is one).
func (v Val) All(pred func(*Term) bool) bool {
	for _, t := range v {
		if !pred(t) {
			return false
		}
	}
	return len(v) > 0
}

// One returns the single alternative, or nil.
func (v Val) One() *Term {
	if len(v) == 1 {
		return v[0]
	}
	return nil
}

// S renders a term.
func (e *Eng) S(t *Term) string {
	if t == nil {
		return "?"
	}
	return e.str(t, 0)
}

// SV renders a value.
func (e *Eng) SV(v Val) string {
	var xs []string
	for _, t := range v {
		xs = append(xs, e.S(t))
	}
	return strings.Join(xs, " or ")
}

func (e *Eng) str(t *Term, d int) string {
	if d > 8 {
		return "…"
	}
	join := func(sep string) string {
		var xs []string
		for i, a := range t.Args {
			if i > 12 {
				xs = append(xs, "…")
				break
			}
			xs = append(xs, e.str(a, d+1))
		}
		return strings.Join(xs, sep)
	}
	switch t.Op {
	case "const":
		return t.Str
	case "nil":
		return "nil"
	case "param", "errval":
		return t.Str
	case "zero":
		return "zero"
	case "global":
		return "&" + t.Str
	case "load":
		if t.Args[0].Op == "global" {
			return t.Args[0].Str
		}
		if t.Args[0].Op == "param" {
			return t.Args[0].Str
		}
		return "*" + e.str(t.Args[0], d+1)
	case "faddr":
		return "&" + strings.TrimPrefix(e.str(t.Args[0], d+1), "&") + "." + t.Str
	case "iaddr":
		return "&" + e.str(t.Args[0], d+1) + "[" + e.str(t.Args[1], d+1) + "]"
	case "field":
		return e.str(t.Args[0], d+1) + "." + t.Str
	case "elem":
		return "each(" + e.str(t.Args[0], d+1) + ")"
	case "key":
		return "keyof(" + e.str(t.Args[0], d+1) + ")"
	case "val":
		return "valof(" + e.str(t.Args[0], d+1) + ")"
	case "index", "lookup":
		return e.str(t.Args[0], d+1) + "[" + e.str(t.Args[1], d+1) + "]"
	case "haskey":
		return "(" + e.str(t.Args[1], d+1) + " in " + e.str(t.Args[0], d+1) + ")"
	case "call":
		return e.P.Short(t.Str) + "(" + join(", ") + ")"
	case "res":
		return e.str(t.Args[0], d+1) + "#" + t.Str
	case "bin":
		return "(" + e.str(t.Args[0], d+1) + " " + t.Str + " " + e.str(t.Args[1], d+1) + ")"
	case "un":
		return t.Str + e.str(t.Args[0], d+1)
	case "closure", "func":
		return "func:" + e.P.FnName(t.Fn)
	case "alloc", "make":
		return t.Op + ":" + t.Str
	case "alt":
		return "{" + join(" | ") + "}"
	case "mix":
		return "mix{" + join(", ") + "}"
	case "list":
		return "[" + join(", ") + "]"
	case "prev":
		return "prev(" + e.str(t.Args[0], d+1) + ")"
	case "record":
		fs := strings.Split(t.Str, ",")
		var xs []string
		for i, a := range t.Args {
			n := "…"
			if i < len(fs) {
				n = fs[i]
			}
			xs = append(xs, n+":"+e.str(a, d+1))
		}
		return "{" + strings.Join(xs, ",") + "}"
	case "iv":
		return "i"
	}
	if len(t.Args) > 0 {
		return t.Op + ":" + t.Str + "(" + join(", ") + ")"
	}
	return t.Op + ":" + t.Str
}

var negOp = map[string]string{"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}

// Bin builds a binary term with constant folding and canonical comparison
// forms ("!=" becomes not "==", ">" and ">=" are flipped to "<" and "<=").
func (e *Eng) Bin(op token.Token, x, y *Term, typ types.Type) *Term {
	if x.CV != nil && y.CV != nil {
		if v, ok := foldConst(op, x.CV, y.CV); ok {
			return e.Const(v, typOr(typ, v))
		}
	}
	switch op {
	case token.NEQ:
		return e.Not(e.Bin(token.EQL, x, y, typ))
	case token.GTR:
		return e.Bin(token.LSS, y, x, typ)
	case token.GEQ:
		return e.Not(e.Bin(token.LSS, x, y, typ))
	case token.LEQ:
		return e.Not(e.Bin(token.LSS, y, x, typ))
	case token.EQL:
		if x == y && x.Op != "mix" && x.Op != "alt" && x.Op != "prev" && x.Op != "loopint" && x.Op != "undef" {
			return e.Bool(true)
		}
		if y.Op == "nil" || y.Op == "const" {
			// canonical: constant on the right
		} else if x.Op == "nil" || x.Op == "const" || x.ID > y.ID {
			x, y = y, x
		}
		if isBoolConst(y) {
			b, _ := y.ConstBool()
			if b {
				return x
			}
			return e.Not(x)
		}
	case token.LSS:
		if x == y && x.Op != "mix" && x.Op != "alt" {
			return e.Bool(false)
		}
	case token.ADD:
		if s, ok := y.ConstString(); ok && s == "" {
			return x
		}
		if s, ok := x.ConstString(); ok && s == "" {
			return y
		}
		if i, ok := y.ConstInt(); ok && i == 0 {
			return x
		}
		// (x + c1) + c2
		if x.Op == "bin" && x.Str == "+" && y.CV != nil && x.Args[1].CV != nil {
			if v, ok := foldConst(op, x.Args[1].CV, y.CV); ok {
				return e.Bin(op, x.Args[0], e.Const(v, typOr(typ, v)), typ)
			}
		}
	case token.SUB:
		if i, ok := y.ConstInt(); ok {
			return e.Bin(token.ADD, x, e.Int(-i), typ)
		}
	}
	return e.intern(&Term{Op: "bin", Str: op.String(), Args: []*Term{x, y}, Type: typ})
}

func isBoolConst(t *Term) bool { _, ok := t.ConstBool(); return ok }

func typOr(t types.Type, v constant.Value) types.Type {
	switch v.Kind() {
	case constant.Bool:
		return types.Typ[types.Bool]
	case constant.String:
		return types.Typ[types.String]
	case constant.Int:
		return types.Typ[types.Int]
	}
	if t != nil {
		return t
	}
	return types.Typ[types.Float64]
}

func foldConst(op token.Token, x, y constant.Value) (v constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Kind() != y.Kind() {
			return nil, false
		}
		return constant.MakeBool(constant.Compare(x, op, y)), true
	case token.QUO:
		if x.Kind() == constant.Int && y.Kind() == constant.Int {
			if constant.Sign(y) == 0 {
				return nil, false
			}
			return constant.BinaryOp(x, token.QUO_ASSIGN, y), true
		}
		return constant.BinaryOp(x, op, y), true
	case token.SHL, token.SHR:
		s, k := constant.Uint64Val(y)
		if !k || s > 512 {
			return nil, false
		}
		return constant.Shift(x, op, uint(s)), true
	case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
		return constant.BinaryOp(x, op, y), true
	}
	return nil, false
}

// Not negates a boolean term.
func (e *Eng) Not(t *Term) *Term {
	if b, ok := t.ConstBool(); ok {
		return e.Bool(!b)
	}
	if t.Op == "un" && t.Str == "!" {
		return t.Args[0]
	}
	return e.intern(&Term{Op: "un", Str: "!", Args: []*Term{t}, Type: types.Typ[types.Bool]})
}

// CallTerm builds the result term of an opaque call.
func (e *Eng) pureCall(name string, typ types.Type, args ...*Term) *Term {
	return e.intern(&Term{Op: "call", Str: name, Args: args, Type: typ})
}
