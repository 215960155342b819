package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is a persistent list of the events and branch decisions that lead to
// a state; it only serves diagnosis.
type Trace struct {
	Up   *Trace
	Text string
	N    int
}

// G is the part of the abstract state shared by all frames.
type G struct {
	Mem   map[*Term]Val
	Facts map[*Term]bool
	Auto  map[string]string
	Trace *Trace
}

func NewG() *G {
	return &G{Mem: map[*Term]Val{}, Facts: map[*Term]bool{}, Auto: map[string]string{}}
}

func (g *G) Copy() *G {
	n := &G{Mem: make(map[*Term]Val, len(g.Mem)), Facts: make(map[*Term]bool, len(g.Facts)),
		Auto: make(map[string]string, len(g.Auto)), Trace: g.Trace}
	for k, v := range g.Mem {
		n.Mem[k] = v
	}
	for k, v := range g.Facts {
		n.Facts[k] = v
	}
	for k, v := range g.Auto {
		n.Auto[k] = v
	}
	return n
}

func (g *G) Note(s string) {
	n := 0
	if g.Trace != nil {
		n = g.Trace.N + 1
		if g.Trace.Text == s {
			return
		}
	}
	g.Trace = &Trace{Up: g.Trace, Text: s, N: n}
}

// Path lists the trace, oldest first.
func (g *G) Path(max int) []string {
	var out []string
	for t := g.Trace; t != nil && len(out) < max; t = t.Up {
		out = append(out, t.Text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (g *G) autoKey() string {
	if len(g.Auto) == 0 {
		return ""
	}
	ks := make([]string, 0, len(g.Auto))
	for k, v := range g.Auto {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type deferred struct {
	instr *ssa.Defer
	fn    []*Term
	args  []Val
}

// State is one abstract state of one frame.
type State struct {
	env    map[ssa.Value]Val
	defers []deferred
	g      *G
}

func (s *State) copy() *State {
	n := &State{env: make(map[ssa.Value]Val, len(s.env)), g: s.g.Copy()}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return n
}

// ---------------------------------------------------------------- truth

// lenTerm recognises len(x).
func lenOf(t *Term) *Term {
	if t.Op == "call" && t.Str == "len" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// canon normalises a boolean term; it returns the positive form and the sign.
func (e *Eng) canon(t *Term) (*Term, bool) {
	if t.Op == "un" && t.Str == "!" {
		c, s := e.canon(t.Args[0])
		return c, !s
	}
	if t.Op == "bin" && t.Str == "<" {
		if i, ok := t.Args[0].ConstInt(); ok && i == 0 && lenOf(t.Args[1]) != nil {
			c, s := e.canon(e.emptyTerm(lenOf(t.Args[1])))
			return c, !s
		}
		if i, ok := t.Args[1].ConstInt(); ok && i == 1 && lenOf(t.Args[0]) != nil {
			return e.canon(e.emptyTerm(lenOf(t.Args[0])))
		}
	}
	if t.Op == "bin" && t.Str == "==" && lenOf(t.Args[0]) != nil {
		if i, ok := t.Args[1].ConstInt(); ok && i == 0 {
			return e.emptyTerm(lenOf(t.Args[0])), true
		}
	}
	return t, true
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) emptyTerm(x *Term) *Term {
	if isString(x.Type) {
		return e.Bin(tokEQL, x, e.Str(""), types.Typ[types.Bool])
	}
	return e.intern(&Term{Op: "empty", Args: []*Term{x}, Type: types.Typ[types.Bool]})
}

// Truth decides a boolean term: +1 true, -1 false, 0 unknown.
func (e *Eng) Truth(g *G, t *Term) int {
	c, sign := e.canon(t)
	r := e.truth0(g, c)
	if !sign {
		return -r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (e *Eng) truth0(g *G, t *Term) int {
	if b, ok := t.ConstBool(); ok {
		return b2i(b)
	}
	if v, ok := g.Facts[t]; ok {
		return b2i(v)
	}
	if e.Assume != nil {
		if v, ok := e.Assume(t); ok {
			return b2i(v)
		}
	}
	switch t.Op {
	case "bin":
		x, y := t.Args[0], t.Args[1]
		if t.Str == "==" {
			if y.Op == "nil" {
				if e.nonNil(g, x) {
					return -1
				}
			}
			if y.CV != nil {
				for _, k := range e.eqIndex[x] {
					if v, ok := g.Facts[k]; ok && v && k != t {
						return -1
					}
					if e.Assume != nil {
						if v, ok := e.Assume(k); ok && v && k != t {
							return -1
						}
					}
				}
			}
			if s, ok := y.ConstString(); ok && s == "" {
				if e.nonEmptyStr(g, x) {
					return -1
				}
			}
		}
		if t.Str == "<" {
			// len(x) < 0, and iv < 0 never hold
			if i, ok := y.ConstInt(); ok && i <= 0 && (lenOf(x) != nil || x.Op == "iv") {
				return -1
			}
			if lenOf(y) != nil {
				// c < len(list of known length)
				if i, ok := x.ConstInt(); ok && i < 0 {
					return 1
				}
				if e.isEmpty(g, lenOf(y)) == 1 {
					if x.Op == "iv" || x.CV != nil {
						return -1
					}
				}
			}
		}
	case "empty":
		return e.isEmpty(g, t.Args[0])
	case "alt":
		r := 0
		for i, a := range t.Args {
			v := e.Truth(g, a)
			if i == 0 {
				r = v
			} else if v != r {
				return 0
			}
		}
		return r
	case "prev":
		return 0
	}
	return 0
}

func (e *Eng) isEmpty(g *G, x *Term) int {
	switch x.Op {
	case "nil":
		return 1
	case "vlist":
		return b2i(len(x.Args) == 0)
	case "list":
		for _, a := range x.Args {
			if a.Op != "spread" && a.Op != "mix" && a.Op != "mayelem" {
				return -1
			}
		}
	case "make":
		if len(x.Args) == 1 {
			if i, ok := x.Args[0].ConstInt(); ok {
				return b2i(i == 0)
			}
		}
	case "const":
		if s, ok := x.ConstString(); ok {
			return b2i(s == "")
		}
	}
	k := e.intern(&Term{Op: "empty", Args: []*Term{x}, Type: types.Typ[types.Bool]})
	if v, ok := g.Facts[k]; ok {
		return b2i(v)
	}
	if v, ok := g.Facts[e.Bin(tokEQL, x, e.Nil(), types.Typ[types.Bool])]; ok && v {
		return 1
	}
	return 0
}

func (e *Eng) nonEmptyStr(g *G, x *Term) bool {
	switch x.Op {
	case "bin":
		if x.Str == "+" {
			return e.nonEmptyStr(g, x.Args[0]) || e.nonEmptyStr(g, x.Args[1])
		}
	case "const":
		s, ok := x.ConstString()
		return ok && s != ""
	case "nn":
		return true
	}
	return false
}

// nonNil reports an intrinsically or factually non-nil term.
func (e *Eng) nonNil(g *G, x *Term) bool {
	switch x.Op {
	case "alloc", "make", "closure", "func", "errval", "global", "faddr", "iaddr", "record", "const", "nn", "vlist":
		return true
	case "zero":
		return true
	case "prev":
		return e.nonNil(NewG(), x.Args[0])
	case "call":
		if nonNilCalls[x.Str] {
			return true
		}
		if passNil[x.Str] && len(x.Args) > 0 {
			return e.nonNil(g, x.Args[0])
		}
	case "alt":
		for _, a := range x.Args {
			if !e.nonNil(g, a) {
				return false
			}
		}
		return true
	}
	k := e.intern(&Term{Op: "bin", Str: "==", Args: []*Term{x, e.Nil()}, Type: types.Typ[types.Bool]})
	if v, ok := g.Facts[k]; ok {
		return !v
	}
	if e.Assume != nil {
		if v, ok := e.Assume(k); ok {
			return !v
		}
	}
	return false
}

func (e *Eng) isNil(g *G, x *Term) bool {
	if x.Op == "nil" {
		return true
	}
	if x.Op == "call" && passNil[x.Str] && len(x.Args) > 0 {
		return e.isNil(g, x.Args[0])
	}
	if e.nonNil(g, x) {
		return false
	}
	k := e.intern(&Term{Op: "bin", Str: "==", Args: []*Term{x, e.Nil()}, Type: types.Typ[types.Bool]})
	return e.Truth(g, k) == 1
}

// IsNil and IsNonNil expose nilness of every alternative to rules.
func (e *Eng) IsNil(g *G, v Val) bool    { return v.All(func(t *Term) bool { return e.isNil(g, t) }) }
func (e *Eng) IsNonNil(g *G, v Val) bool { return v.All(func(t *Term) bool { return e.nonNil(g, t) }) }
func (e *Eng) IsTrue(g *G, v Val) bool {
	return v.All(func(t *Term) bool { return e.Truth(g, t) == 1 })
}
func (e *Eng) IsFalse(g *G, v Val) bool {
	return v.All(func(t *Term) bool { return e.Truth(g, t) == -1 })
}

// assert records a fact about a boolean term.
func (e *Eng) assert(g *G, t *Term, val bool) {
	c, sign := e.canon(t)
	if !sign {
		val = !val
	}
	if c.CV != nil || c.Op == "mix" || c.Op == "alt" {
		return
	}
	if !e.factable(c) {
		// facts are only kept about terms that denote one value
		return
	}
	g.Facts[c] = val
	if c.Op == "bin" && c.Str == "==" && c.Args[1].CV != nil {
		found := false
		for _, k := range e.eqIndex[c.Args[0]] {
			if k == c {
				found = true
			}
		}
		if !found {
			e.eqIndex[c.Args[0]] = append(e.eqIndex[c.Args[0]], c)
		}
	}
	// nilness of a pass-through call is nilness of its argument
	if c.Op == "bin" && c.Str == "==" && c.Args[1].Op == "nil" {
		x := c.Args[0]
		if x.Op == "call" && passNil[x.Str] && len(x.Args) > 0 {
			e.assert(g, e.Bin(tokEQL, x.Args[0], e.Nil(), types.Typ[types.Bool]), val)
		}
	}
}

// ---------------------------------------------------------------- classes

func (e *Eng) tclass(g *G, t *Term, d int) string {
	switch t.Op {
	case "const":
		if len(t.Str) < 24 {
			return "=" + t.Str
		}
		return "N"
	case "nil":
		return "n"
	case "vlist":
		if len(t.Args) == 0 {
			return "n"
		}
		return "N"
	case "record":
		if d > 0 {
			return "{}"
		}
		var b strings.Builder
		b.WriteByte('{')
		for _, a := range t.Args {
			b.WriteString(e.tclass(g, a, d+1))
			b.WriteByte(',')
		}
		b.WriteByte('}')
		return b.String()
	}
	if t.Type != nil {
		if b, ok := t.Type.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				switch e.Truth(g, t) {
				case 1:
					return "=true"
				case -1:
					return "=false"
				}
				return "?"
			}
			for _, k := range e.eqIndex[t] {
				if v, ok := g.Facts[k]; ok && v {
					return "=" + k.Args[1].Str
				}
			}
			if b.Info()&types.IsString != 0 {
				k := e.Bin(tokEQL, t, e.Str(""), types.Typ[types.Bool])
				if v, ok := g.Facts[k]; ok && !v {
					return "N"
				}
			}
			if b.Info()&types.IsInteger != 0 {
				k := e.Bin(tokEQL, t, e.Int(0), types.Typ[types.Bool])
				if v, ok := g.Facts[k]; ok && !v {
					return "N"
				}
			}
			return "?"
		}
	}
	if e.nonNil(g, t) {
		return "N"
	}
	if e.isNil(g, t) {
		return "n"
	}
	switch e.isEmpty(g, t) {
	case 1:
		return "e"
	case -1:
		return "E"
	}
	return "?"
}

func (e *Eng) class(g *G, v Val) string {
	c := "u"
	for i, t := range v {
		x := e.tclass(g, t, 0)
		if i == 0 {
			c = x
		} else if c != x {
			return "?"
		}
	}
	return c
}

// joinVal joins two values known to share class c.
func (e *Eng) joinVal(ga, gb *G, a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	ca, cb := e.class(ga, a), e.class(gb, b)
	if ca == cb {
		switch ca {
		case "=true":
			return Val{e.Bool(true)}
		case "=false":
			return Val{e.Bool(false)}
		case "n":
			return Val{e.Nil()}
		case "N":
			return e.V(append(e.markNN(a), e.markNN(b)...)...)
		}
	}
	return e.union(a, b)
}

func (e *Eng) markNN(a Val) Val {
	out := make([]*Term, 0, len(a))
	empty := &G{}
	for _, t := range a {
		if e.Assume == nil && e.nonNil(empty, t) || t.Op == "nn" || t.Op == "mix" {
			out = append(out, t)
			continue
		}
		if e.nonNil(empty, t) {
			out = append(out, t)
			continue
		}
		out = append(out, e.intern(&Term{Op: "nn", Args: []*Term{t}, Type: t.Type}))
	}
	return out
}

// ---------------------------------------------------------------- memory

func (e *Eng) elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// FieldAddr is the address term of a field.
func (e *Eng) FieldAddr(base *Term, name string, typ types.Type) *Term {
	for base.Op == "nn" {
		base = base.Args[0]
	}
	return e.intern(&Term{Op: "faddr", Str: name, Args: []*Term{base}, Type: typ})
}

// Load reads memory at one address.
func (e *Eng) loadTerm(g *G, a *Term) Val {
	if a.Op == "nn" {
		return e.loadTerm(g, a.Args[0])
	}
	et := e.elemType(a.Type)
	if at, ok := arrayOf(et); ok && a.Op == "alloc" && at.Len() <= 64 {
		args := make([]*Term, at.Len())
		for i := range args {
			args[i] = e.Alt(e.indexVal(g, a, e.Int(int64(i)), at.Elem()))
		}
		return Val{e.intern(&Term{Op: "vlist", Args: args, Type: et})}
	}
	if v, ok := g.Mem[a]; ok {
		return e.overlay(g, a, v, et)
	}
	if v, ok := e.constG[a]; ok {
		return e.overlay(g, a, v, et)
	}
	switch a.Op {
	case "faddr":
		base := e.loadNoOverlay(g, a.Args[0])
		var out []*Term
		for _, b := range base {
			out = append(out, e.Field(b, a.Str, et))
		}
		return e.overlay(g, a, e.V(out...), et)
	case "alloc":
		return e.overlay(g, a, Val{e.Zero(et)}, et)
	case "iaddr":
		return e.indexVal(g, a.Args[0], a.Args[1], et)
	case "alt":
		var out Val
		for _, b := range a.Args {
			out = e.union(out, e.loadTerm(g, b))
		}
		return out
	case "prev":
		v := e.loadTerm(&G{Mem: map[*Term]Val{}, Facts: map[*Term]bool{}}, a.Args[0])
		var out []*Term
		for _, t := range v {
			out = append(out, e.Prev(t))
		}
		return e.V(out...)
	case "nil", "undef":
		return Val{e.Zero(et)}
	}
	return e.overlay(g, a, Val{e.intern(&Term{Op: "load", Args: []*Term{a}, Type: et})}, et)
}

func (e *Eng) loadNoOverlay(g *G, a *Term) Val {
	if v, ok := g.Mem[a]; ok {
		return v
	}
	if v, ok := e.constG[a]; ok {
		return v
	}
	et := e.elemType(a.Type)
	switch a.Op {
	case "faddr":
		base := e.loadNoOverlay(g, a.Args[0])
		var out []*Term
		for _, b := range base {
			out = append(out, e.Field(b, a.Str, et))
		}
		return e.V(out...)
	case "alloc":
		return Val{e.Zero(et)}
	}
	sub := &G{Mem: map[*Term]Val{}, Facts: g.Facts}
	for k, v := range g.Mem {
		if k.Op != "faddr" || k.Args[0] != a {
			sub.Mem[k] = v
		}
	}
	return e.loadTerm(sub, a)
}

// overlay applies per-field cells on top of a whole-struct value.
func (e *Eng) overlay(g *G, a *Term, whole Val, et types.Type) Val {
	if et == nil {
		return whole
	}
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		return whole
	}
	any := false
	names := []string{}
	args := []*Term{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fa := e.intern(&Term{Op: "faddr", Str: f.Name(), Args: []*Term{a}, Type: types.NewPointer(f.Type())})
		if e.hasCell(g, fa) {
			any = true
			names = append(names, f.Name())
			args = append(args, e.Alt(e.loadTerm(g, fa)))
		}
	}
	if !any {
		return whole
	}
	args = append(args, e.Alt(whole))
	return Val{e.intern(&Term{Op: "record", Str: strings.Join(names, ","), Args: args, Type: et})}
}

func (e *Eng) hasCell(g *G, a *Term) bool {
	if _, ok := g.Mem[a]; ok {
		return true
	}
	if _, ok := e.constG[a]; ok {
		return true
	}
	et := e.elemType(a.Type)
	if et == nil {
		return false
	}
	if st, ok := et.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if e.hasCell(g, e.intern(&Term{Op: "faddr", Str: f.Name(), Args: []*Term{a}, Type: types.NewPointer(f.Type())})) {
				return true
			}
		}
	}
	return false
}

// Load reads memory at a set of addresses.
func (e *Eng) Load(g *G, addr Val) Val {
	var out Val
	for _, a := range addr {
		out = e.union(out, e.loadTerm(g, a))
	}
	return out
}

// LoadField reads field name (a dotted path) of the struct(s) addressed by or
// equal to v.
func (e *Eng) FieldOf(g *G, v Val, name string) Val {
	cur := v
	for _, part := range strings.Split(name, ".") {
		var out Val
		for _, t := range cur {
			for t.Op == "nn" {
				t = t.Args[0]
			}
			typ := t.Type
			if typ != nil {
				if p, ok := typ.Underlying().(*types.Pointer); ok {
					ft := fieldType(p.Elem(), part)
					if ft != nil {
						out = e.union(out, e.loadTerm(g, e.FieldAddr(t, part, types.NewPointer(ft))))
						continue
					}
				}
				if ft := fieldType(typ, part); ft != nil {
					out = e.union(out, e.V(e.Field(t, part, ft)))
					continue
				}
			}
			out = e.union(out, e.V(e.Field(t, part, nil)))
		}
		cur = out
	}
	return cur
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (e *Eng) killSub(g *G, a *Term) {
	for k := range g.Mem {
		for x := k; x != nil; {
			if (x.Op == "faddr" || x.Op == "iaddr") && len(x.Args) > 0 {
				x = x.Args[0]
				if x == a {
					delete(g.Mem, k)
					break
				}
				continue
			}
			break
		}
	}
}

// killFacts drops facts about values read from symbolic memory under addr.
func (e *Eng) killFacts(g *G, a *Term) {
	// value of a symbolic location that is overwritten: facts about the old
	// symbolic value stay true of that old value, nothing to drop.
	_ = a
}

// store writes memory.
func (e *Eng) store(g *G, addr Val, v Val) {
	if len(addr) == 1 && e.strong(addr[0]) {
		a := addr[0]
		for a.Op == "nn" {
			a = a.Args[0]
		}
		if a.Op == "iaddr" && !isArrayPtr(a.Args[0]) {
			e.storeElem(g, a.Args[0], a.Args[1], v)
			return
		}
		e.killSub(g, a)
		g.Mem[a] = v
		return
	}
	for _, a := range addr {
		for a.Op == "nn" {
			a = a.Args[0]
		}
		if a.Op == "mix" || a.Op == "opaque" || a.Op == "undef" {
			continue
		}
		if a.Op == "iaddr" && !isArrayPtr(a.Args[0]) {
			e.storeElem(g, a.Args[0], a.Args[1], v)
			continue
		}
		old := e.loadTerm(g, a)
		g.Mem[a] = e.union(old, v)
	}
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func isArrayPtr(t *Term) bool {
	if t.Type == nil {
		return false
	}
	p, ok := t.Type.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func (e *Eng) strong(a *Term) bool {
	switch a.Op {
	case "alt", "mix", "prev", "opaque":
		return false
	}
	if a.Op == "iaddr" {
		if _, ok := a.Args[1].ConstInt(); !ok && isArrayPtr(a.Args[0]) {
			return false
		}
	}
	for _, x := range a.Args {
		if !e.strong(x) {
			return false
		}
	}
	return true
}

// storeElem is a weak update of a slice's contents.
func (e *Eng) storeElem(g *G, s, idx *Term, v Val) {
	for k, old := range g.Mem {
		if k.Op == "cell" && k.Args[0] == s && k.Args[1] != idx && mayEqual(k.Args[1], idx) {
			g.Mem[k] = e.union(old, v)
		}
	}
	if fixedCell(s, idx) {
		// a place of its own
		g.Mem[e.intern(&Term{Op: "cell", Args: []*Term{s, idx}})] = v
		return
	}
	c := e.contentAddr(s)
	g.Mem[c] = e.union(g.Mem[c], v)
	// a whole-slice write through the induction variable of a full loop is
	// remembered per index as well
	g.Mem[e.intern(&Term{Op: "cell", Args: []*Term{s, idx}})] = v
}

// fixedCell: a constant index into a slice that was not made here.
func fixedCell(s, idx *Term) bool {
	_, ok := idx.ConstInt()
	return ok && s.Op != "make" && s.Op != "alloc"
}

func (e *Eng) contentAddr(s *Term) *Term {
	return e.intern(&Term{Op: "content", Args: []*Term{s}})
}

// indexVal reads s[i].
func (e *Eng) indexVal(g *G, s, idx *Term, et types.Type) Val {
	if s.Op == "nn" {
		s = s.Args[0]
	}
	if isArrayPtr(s) {
		_, known := idx.ConstInt()
		if known {
			if v, ok := g.Mem[e.intern(&Term{Op: "iaddr", Args: []*Term{s, idx}, Type: types.NewPointer(et)})]; ok {
				return v
			}
		}
		var out Val
		for k, v := range g.Mem {
			if k.Op == "iaddr" && k.Args[0] == s {
				if _, ok := k.Args[1].ConstInt(); !ok || !known {
					out = e.union(out, v)
				}
			}
		}
		if whole, ok := g.Mem[s]; ok {
			for _, w := range whole {
				if w.Op == "zero" {
					out = e.union(out, Val{e.Zero(et)})
				} else {
					out = e.union(out, e.elemOf(w, idx, et))
				}
			}
			return out
		}
		if s.Op == "alloc" && known {
			return e.union(out, Val{e.Zero(et)})
		}
		if len(out) > 0 {
			return out
		}
		return Val{e.intern(&Term{Op: "index", Args: []*Term{s, idx}, Type: et})}
	}
	if v, ok := g.Mem[e.intern(&Term{Op: "cell", Args: []*Term{s, idx}})]; ok {
		return v
	}
	var out Val
	if v, ok := g.Mem[e.contentAddr(s)]; ok {
		out = v
		if s.Op == "make" || s.Op == "alloc" {
			return out
		}
	}
	if _, ok := idx.ConstInt(); !ok {
		for k, v := range g.Mem {
			if k.Op == "cell" && k.Args[0] == s && fixedCell(s, k.Args[1]) {
				out = e.union(out, v)
			}
		}
	}
	return e.union(out, e.elemOf(s, idx, et))
}

func (e *Eng) elemOf(s, idx *Term, et types.Type) Val {
	switch s.Op {
	case "vlist":
		if i, ok := idx.ConstInt(); ok {
			if int(i) < len(s.Args) && i >= 0 {
				return e.V(s.Args[i])
			}
			return Val{e.T("undef", "", et)} // the access fails
		}
		return e.V(s.Args...)
	case "list":
		var out []*Term
		for _, a := range s.Args {
			if a.Op == "spread" {
				out = append(out, e.elemOf(a.Args[0], idx, et)...)
			} else if a.Op == "mayelem" {
				out = append(out, a.Args[0])
			} else {
				out = append(out, a)
			}
		}
		return e.V(out...)
	case "alt":
		var out Val
		for _, a := range s.Args {
			out = e.union(out, e.elemOf(a, idx, et))
		}
		return out
	case "nil":
		return nil
	case "make":
		return Val{e.Zero(et)}
	}
	if idx.Op == "iv" {
		return Val{e.intern(&Term{Op: "elem", Args: []*Term{s, idx}, Type: et})}
	}
	if iv, k := ivPlus(idx); iv != nil && s.Type != nil {
		return Val{e.intern(&Term{Op: "elem", Args: []*Term{e.Tail(s, k), iv}, Type: et})}
	}
	return Val{e.intern(&Term{Op: "index", Args: []*Term{s, idx}, Type: et})}
}

// ivPlus takes apart a loop counter that starts at a positive constant.
func ivPlus(t *Term) (*Term, int64) {
	if t.Op == "bin" && t.Str == "+" && len(t.Args) == 2 && t.Args[0].Op == "iv" {
		if k, ok := t.Args[1].ConstInt(); ok && k > 0 {
			return t.Args[0], k
		}
	}
	return nil, 0
}

// Tail is a slice without its first k elements.
func (e *Eng) Tail(s *Term, k int64) *Term {
	return e.intern(&Term{Op: "slice", Args: []*Term{s, e.Int(k), e.T("end", "", nil)}, Type: s.Type})
}

// Rest gives the slice a comparison of a loop counter with its length goes
// through: all of it, or what follows the elements the counter starts after.
func (e *Eng) Rest(iv, s *Term) *Term {
	if iv.Op == "iv" {
		return s
	}
	if v, k := ivPlus(iv); v != nil && s.Type != nil {
		return e.Tail(s, k)
	}
	return nil
}

// ---------------------------------------------------------------- join

func (e *Eng) joinG(a, b *G) (*G, bool) {
	changed := false
	n := &G{Mem: make(map[*Term]Val, len(a.Mem)), Facts: map[*Term]bool{}, Auto: a.Auto, Trace: a.Trace}
	for k, v := range a.Mem {
		w, ok := b.Mem[k]
		if !ok {
			w = e.defaultCell(b, k)
		}
		j := e.joinVal(a, b, v, w)
		n.Mem[k] = j
		if !sameVal(j, v) {
			changed = true
		}
	}
	for k, w := range b.Mem {
		if _, ok := a.Mem[k]; ok {
			continue
		}
		v := e.defaultCell(a, k)
		n.Mem[k] = e.joinVal(a, b, v, w)
		changed = true
	}
	for k, v := range a.Facts {
		if w, ok := b.Facts[k]; ok && w == v {
			n.Facts[k] = v
		} else if e.implied(b, k, v) {
			n.Facts[k] = v
		} else {
			changed = true
		}
	}
	return n, changed
}

// implied reports whether fact k=v holds in g without being recorded.
func (e *Eng) implied(g *G, k *Term, v bool) bool {
	t := e.truth0(g, k)
	return t != 0 && (t == 1) == v
}

func (e *Eng) defaultCell(g *G, k *Term) Val {
	switch k.Op {
	case "cell":
		if s := k.Args[0]; fixedCell(s, k.Args[1]) && s.Type != nil {
			if st, ok := s.Type.Underlying().(*types.Slice); ok {
				return e.indexVal(g, s, k.Args[1], st.Elem())
			}
		}
		return nil
	case "content":
		return nil
	case "mapcell":
		// absent in the other state
		return Val{e.absent()}
	}
	return e.loadTerm(g, k)
}

func (e *Eng) absent() *Term { return e.T("absent", "", nil) }

// GKey is a debugging helper.
func (e *Eng) GString(g *G) string {
	var out []string
	for k, v := range g.Mem {
		out = append(out, fmt.Sprintf("  [%s] = %s", e.S(k), e.SV(v)))
	}
	for k, v := range g.Facts {
		out = append(out, fmt.Sprintf("  fact %s = %v", e.S(k), v))
	}
	for k, v := range g.Auto {
		out = append(out, fmt.Sprintf("  auto %s = %v", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// G is the abstract state itself.
func (s *State) G() *G { return s.g }

// ValOf is the value of an SSA register in the state.
func (e *Eng) ValOf(st *State, v ssa.Value) Val { return e.get(st, v) }

// Canon is the positive canonical form of a condition, and the value it has
// when the condition is v.
func (e *Eng) Canon(t *Term, v bool) (*Term, bool) {
	c, s := e.canon(t)
	return c, s == v
}
