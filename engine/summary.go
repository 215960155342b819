package engine

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// summaries are flow-insensitive facts about whole functions, used to decide
// which functions a rule has to look into.
type summaries struct {
	reach  map[*ssa.Function]bool // reaches a relevant call
	writes map[*ssa.Function]bool // writes memory visible to its caller
	impure map[*ssa.Function]bool // result depends on more than arguments
	byName map[string]*ssa.Function
	gw     map[*ssa.Function]map[*Term]bool
}

// CalleeNames lists the names of the calls an instruction may make.
func (p *Program) CalleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + p.Short(types.TypeString(c.Value.Type(), nil)) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return p.FnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

// Refs lists the module functions referenced by fn (called or taken).
func (p *Program) Refs(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && p.InModule(f) && len(f.Blocks) > 0 {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				// module implementations of the method
				for _, sp := range p.byPath {
					for _, m := range sp.Members {
						ty, ok := m.(*ssa.Type)
						if !ok || types.IsInterface(ty.Type()) {
							continue
						}
						it, ok := c.Common().Value.Type().Underlying().(*types.Interface)
						if !ok || it.NumMethods() == 0 {
							continue
						}
						for _, x := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
							if types.Implements(x, it) {
								add(p.SSA.LookupMethod(x, c.Common().Method.Pkg(), c.Common().Method.Name()))
							}
						}
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					add(f)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// Reaching computes the module functions from which a call accepted by pred
// can be reached.
func (p *Program) Reaching(pred func(name string) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		if pred(p.FnName(fn)) {
			r[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && pred(p.CalleeName(c.Common())) {
					r[fn] = true
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && pred(p.FnName(f)) {
						r[fn] = true
					}
				}
			}
		}
	}
	p.closeUp(r)
	return r
}

func (p *Program) closeUp(r map[*ssa.Function]bool) {
	for ch := true; ch; {
		ch = false
		for _, fn := range p.fns {
			if r[fn] {
				continue
			}
			for _, c := range p.Refs(fn) {
				if r[c] {
					r[fn] = true
					ch = true
					break
				}
			}
		}
	}
}

func (e *Eng) summary() *summaries {
	if e.sum != nil {
		return e.sum
	}
	s := &summaries{byName: map[string]*ssa.Function{}, writes: map[*ssa.Function]bool{}, impure: map[*ssa.Function]bool{}}
	e.sum = s
	for _, fn := range e.P.fns {
		s.byName[e.P.FnName(fn)] = fn
	}
	if e.Relevant != nil {
		s.reach = e.P.Reaching(e.Relevant)
	}
	for _, fn := range e.P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !localAddr(x.Addr) {
						s.writes[fn] = true
						s.impure[fn] = true
					}
				case *ssa.MapUpdate:
					if !localVal(x.Map) {
						s.writes[fn] = true
						s.impure[fn] = true
					}
				case *ssa.Send, *ssa.Go, *ssa.Select:
					s.writes[fn] = true
					s.impure[fn] = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						s.impure[fn] = true
						s.writes[fn] = true
					}
				case ssa.CallInstruction:
					n := e.P.CalleeName(x.Common())
					if n == "builtin close" || n == "builtin delete" || n == "builtin copy" {
						s.writes[fn] = true
						s.impure[fn] = true
					}
					if strings.HasPrefix(n, "builtin ") {
						continue
					}
					f := x.Common().StaticCallee()
					if f != nil && e.P.InModule(f) {
						continue
					}
					if n == "dynamic" {
						if _, ok := x.Common().Value.(*ssa.MakeClosure); !ok {
							s.impure[fn] = true
						}
						continue
					}
					if !pureFn(n) && !isLog(n) && !nonNilCalls[n] && !passNil[n] {
						s.impure[fn] = true
						// a pointer handed to an external may be written
						for _, a := range x.Common().Args {
							if _, ok := a.Type().Underlying().(*types.Pointer); ok && !localAddr(a) && !noHavocName(n) {
								s.writes[fn] = true
							}
						}
					}
				}
			}
		}
	}
	e.P.closeUp(s.writes)
	e.P.closeUp(s.impure)
	return s
}

func isLog(n string) bool {
	return strings.HasPrefix(n, "fmt.Print") || strings.Contains(n, "sirupsen/logrus") || strings.HasPrefix(n, "log.")
}

func noHavocName(n string) bool {
	if doesHavoc[n] {
		return false
	}
	for _, p := range noHavoc {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// localAddr: the address is inside an object allocated by this function.
func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localVal(x.X)
	}
	return false
}

func localVal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Alloc:
		return true
	case *ssa.Slice:
		return localVal(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return localVal(x.Call.Args[0])
		}
	case *ssa.FieldAddr:
		return localAddr(x)
	case *ssa.UnOp:
		return false
	}
	return false
}

// wanted says whether the rule has to look into fn: a relevant call can be
// reached from it, or it is small enough to be worth the precision.
func (e *Eng) wanted(fn *ssa.Function) bool {
	if e.Relevant == nil {
		return true
	}
	s := e.summary()
	if fn.Synthetic != "" && s.byName[e.P.FnName(fn)] == nil {
		return true
	}
	return s.reach[fn] || e.size(fn, map[*ssa.Function]bool{}) <= e.InlineSize
}

// size is the number of instructions fn may execute, callees included.
func (e *Eng) size(fn *ssa.Function, on map[*ssa.Function]bool) int {
	if n, ok := e.sizes[fn]; ok {
		return n
	}
	if on[fn] {
		return 1 << 20
	}
	on[fn] = true
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && e.P.InModule(f) && len(f.Blocks) > 0 {
					n += e.size(f, on)
				}
			}
			if n > 1<<20 {
				n = 1 << 20
			}
		}
	}
	delete(on, fn)
	e.sizes[fn] = n
	return n
}

// skipped: a module function the rule does not look into.
func (e *Eng) skipped(name string) bool {
	if e.Relevant == nil {
		return false
	}
	s := e.summary()
	fn := s.byName[name]
	return fn != nil
}

// globalsWritten lists the package variables fn may assign, transitively.
func (e *Eng) globalsWritten(fn *ssa.Function) []*Term {
	s := e.summary()
	if s.gw == nil {
		s.gw = map[*ssa.Function]map[*Term]bool{}
		for _, f := range e.P.fns {
			m := map[*Term]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						a := st.Addr
						for {
							if fa, ok := a.(*ssa.FieldAddr); ok {
								a = fa.X
								continue
							}
							break
						}
						if g, ok := a.(*ssa.Global); ok {
							m[e.GlobalAddr(g)] = true
						}
					}
				}
			}
			s.gw[f] = m
		}
		for ch := true; ch; {
			ch = false
			for _, f := range e.P.fns {
				for _, c := range e.P.Refs(f) {
					for t := range s.gw[c] {
						if !s.gw[f][t] {
							s.gw[f][t] = true
							ch = true
						}
					}
				}
			}
		}
	}
	var out []*Term
	for t := range s.gw[fn] {
		out = append(out, t)
	}
	return sortTerms(out)
}

// havocModule accounts for the memory a skipped module function may write.
func (e *Eng) havocModule(fr *Frame, in ssa.Instruction, g *G, fn *ssa.Function, args []Val) {
	s := e.summary()
	if !s.writes[fn] {
		return
	}
	name := e.P.FnName(fn)
	k := 0
	kill := func(t *Term) {
		et := e.elemType(t.Type)
		if et == nil {
			return
		}
		k++
		e.killSub(g, t)
		out := e.intern(&Term{Op: "out", Str: name + "#" + strconv.Itoa(k), Ctx: fr.ctx, Site: in, Type: et})
		if e.strong(t) {
			g.Mem[t] = Val{out}
		} else {
			g.Mem[t] = e.union(e.loadTerm(g, t), Val{out})
		}
	}
	for _, t := range e.globalsWritten(fn) {
		kill(t)
	}
	for _, a := range args {
		for _, t := range a {
			t = Strip(t)
			switch t.Op {
			case "alloc", "faddr", "iaddr", "param", "load", "field", "call", "res", "elem", "out":
				if t.Type == nil {
					continue
				}
				if _, ok := t.Type.Underlying().(*types.Pointer); ok {
					kill(t)
				}
			case "make":
				if t.Str == "map" {
					e.mapStore(g, t, e.intern(&Term{Op: "opaque", Str: name, Ctx: fr.ctx, Site: in}), Val{e.intern(&Term{Op: "opaque", Str: name + " value", Ctx: fr.ctx, Site: in})}, false)
				}
			}
		}
	}
}

// pureModule: a skipped module function whose result depends on its
// arguments only.
func (e *Eng) pureModule(name string) bool {
	if !e.skipped(name) {
		return false
	}
	s := e.summary()
	return !s.impure[s.byName[name]]
}
