package engine

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) fresh(op, name string, fr *Frame, in ssa.Instruction, typ types.Type) *Term {
	return e.intern(&Term{Op: op, Str: name, Ctx: fr.ctx, Site: in, Type: typ})
}

// cross applies f to the cross product of two values.
func (e *Eng) cross(a, b Val, f func(x, y *Term) *Term) Val {
	if len(a)*len(b) > 4*e.MaxAlts {
		return Val{e.Mix(append(append([]*Term{}, a...), b...)...)}
	}
	var out []*Term
	for _, x := range a {
		for _, y := range b {
			out = append(out, f(x, y))
		}
	}
	return e.V(out...)
}

func (e *Eng) mapv(a Val, f func(x *Term) *Term) Val {
	var out []*Term
	for _, x := range a {
		out = append(out, f(x))
	}
	return e.V(out...)
}

func stripNN(v Val) Val {
	has := false
	for _, t := range v {
		if t.Op == "nn" {
			has = true
		}
	}
	if !has {
		return v
	}
	out := make([]*Term, len(v))
	for i, t := range v {
		out[i] = Strip(t)
	}
	return sortTerms(out)
}

func (e *Eng) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a := e.intern(&Term{Op: "alloc", Str: x.Comment, Ctx: fr.ctx, Site: x, Type: x.Type()})
		e.killSub(st.g, a)
		delete(st.g.Mem, a)
		st.env[x] = Val{a}
	case *ssa.UnOp:
		v := e.get(st, x.X)
		switch x.Op {
		case token.MUL:
			r := e.Load(st.g, v)
			if len(r) == 0 {
				r = Val{e.T("undef", "", x.Type())}
			}
			st.env[x] = r
		case token.NOT:
			st.env[x] = e.mapv(v, e.Not)
		case token.ARROW:
			st.env[x] = e.recv(fr, st, x, v, x.CommaOk, x.Type())
		default:
			st.env[x] = e.mapv(v, func(t *Term) *Term {
				if t.CV != nil && x.Op == token.SUB {
					if i, ok := t.ConstInt(); ok {
						return e.Int(-i)
					}
				}
				return e.intern(&Term{Op: "un", Str: x.Op.String(), Args: []*Term{t}, Type: x.Type()})
			})
		}
	case *ssa.BinOp:
		a, b := e.get(st, x.X), e.get(st, x.Y)
		if x.Op != token.EQL && x.Op != token.NEQ {
			a, b = stripNN(a), stripNN(b)
		}
		st.env[x] = e.cross(a, b, func(p, q *Term) *Term {
			if x.Op == token.EQL || x.Op == token.NEQ {
				// a marked non-nil value against nil
				if (p.Op == "nn" && (q.Op == "nil" || isEmptyStr(q))) || (q.Op == "nn" && (p.Op == "nil" || isEmptyStr(p))) {
					return e.Bool(x.Op == token.NEQ)
				}
				p, q = Strip(p), Strip(q)
				if q.Op == "nil" && e.nonNil(st.g, p) && p.Op != "prev" {
					return e.Bool(x.Op == token.NEQ)
				}
			}
			return e.Bin(x.Op, p, q, x.Type())
		})
	case *ssa.FieldAddr:
		f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
		st.env[x] = e.mapv(e.get(st, x.X), func(t *Term) *Term { return e.FieldAddr(t, f.Name(), x.Type()) })
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		st.env[x] = e.mapv(e.get(st, x.X), func(t *Term) *Term { return e.Field(t, f.Name(), x.Type()) })
	case *ssa.IndexAddr:
		st.env[x] = e.cross(stripNN(e.get(st, x.X)), e.get(st, x.Index), func(s, i *Term) *Term {
			return e.intern(&Term{Op: "iaddr", Args: []*Term{s, i}, Type: x.Type()})
		})
	case *ssa.Index:
		st.env[x] = e.cross(stripNN(e.get(st, x.X)), e.get(st, x.Index), func(s, i *Term) *Term {
			return e.Alt(e.elemOf(s, i, x.Type()))
		})
	case *ssa.Lookup:
		e.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m, k, v := stripNN(e.get(st, x.Map)), e.get(st, x.Key), e.get(st, x.Value)
		e.notify(fr, st, in, "mapstore", m, k, v)
		for _, mt := range m {
			for _, kt := range k {
				e.mapStore(st.g, mt, kt, v, len(m) == 1 && len(k) == 1)
			}
		}
	case *ssa.Store:
		addr, v := e.get(st, x.Addr), e.get(st, x.Val)
		if e.StoreHook != nil {
			e.StoreHook(&Ev{E: e, Kind: "store", Instr: x, Ctx: fr.ctx, G: st.g, st: st}, addr, v)
		}
		e.store(st.g, addr, v)
	case *ssa.MakeMap:
		st.env[x] = Val{e.fresh("make", "map", fr, x, x.Type())}
		e.killMap(st.g, st.env[x][0])
	case *ssa.MakeChan:
		st.env[x] = e.mapv(e.get(st, x.Size), func(t *Term) *Term {
			return e.intern(&Term{Op: "make", Str: "chan", Ctx: fr.ctx, Site: x, Type: x.Type(), Args: []*Term{t}})
		})
	case *ssa.MakeSlice:
		st.env[x] = e.mapv(e.get(st, x.Len), func(t *Term) *Term {
			return e.intern(&Term{Op: "make", Str: "slice", Ctx: fr.ctx, Site: x, Type: x.Type(), Args: []*Term{t}})
		})
		for _, t := range st.env[x] {
			delete(st.g.Mem, e.contentAddr(t))
			for k := range st.g.Mem {
				if k.Op == "cell" && k.Args[0] == t {
					delete(st.g.Mem, k)
				}
			}
		}
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range x.Bindings {
			args = append(args, e.Alt(e.get(st, b)))
		}
		fn := x.Fn.(*ssa.Function)
		st.env[x] = Val{e.intern(&Term{Op: "closure", Str: e.P.FnName(fn), Fn: fn, Args: args, Type: x.Type()})}
	case *ssa.MakeInterface:
		st.env[x] = e.get(st, x.X)
	case *ssa.ChangeInterface:
		st.env[x] = e.get(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = e.get(st, x.X)
	case *ssa.Convert:
		v := e.get(st, x.X)
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		if bf, ok := from.(*types.Basic); ok && bf.Info()&types.IsNumeric != 0 {
			if bt, ok := to.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				st.env[x] = e.mapv(v, func(t *Term) *Term { return e.pureCall("convert-rune", x.Type(), t) })
				return
			}
		}
		st.env[x] = v
	case *ssa.MultiConvert:
		st.env[x] = e.get(st, x.X)
	case *ssa.SliceToArrayPointer:
		st.env[x] = e.get(st, x.X)
	case *ssa.Slice:
		e.slice(fr, st, x)
	case *ssa.Extract:
		tup := e.get(st, x.Tuple)
		var out Val
		for _, t := range tup {
			switch t.Op {
			case "tuple":
				a := t.Args[x.Index]
				if a.Op == "alt" {
					out = e.union(out, Val(a.Args))
				} else {
					out = e.union(out, Val{a})
				}
			case "undef":
				out = e.union(out, Val{e.T("undef", "", x.Type())})
			default:
				out = e.union(out, Val{e.intern(&Term{Op: "res", Str: fmt.Sprint(x.Index), Args: []*Term{t}, Type: x.Type()})})
			}
		}
		st.env[x] = out
	case *ssa.Range:
		st.env[x] = e.mapv(stripNN(e.get(st, x.X)), func(t *Term) *Term {
			return e.intern(&Term{Op: "range", Args: []*Term{t}, Ctx: fr.ctx, Site: x})
		})
	case *ssa.Next:
		e.next(fr, st, x)
	case *ssa.TypeAssert:
		v := e.get(st, x.X)
		if x.CommaOk {
			okv := e.mapv(v, func(t *Term) *Term {
				if t.Type != nil && !types.IsInterface(t.Type) && !types.IsInterface(x.AssertedType) {
					return e.Bool(types.Identical(t.Type, x.AssertedType))
				}
				return e.intern(&Term{Op: "istype", Args: []*Term{Strip(t)}, Type: types.Typ[types.Bool], Str: types.TypeString(x.AssertedType, nil)})
			})
			st.env[x] = Val{e.intern(&Term{Op: "tuple", Args: []*Term{e.Alt(v), e.Alt(okv)}})}
			return
		}
		st.env[x] = v
	case *ssa.Send:
		e.notify(fr, st, in, "send", e.get(st, x.Chan), e.get(st, x.X))
		e.send(st, e.get(st, x.Chan), e.get(st, x.X))
	default:
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = Val{e.fresh("opaque", fmt.Sprintf("%T", in), fr, in, v.Type())}
		}
	}
}

func isEmptyStr(t *Term) bool {
	s, ok := t.ConstString()
	return ok && s == ""
}

func (e *Eng) send(st *State, ch, v Val) {
	for _, c := range ch {
		c = Strip(c)
		for c.Op == "prev" {
			c = c.Args[0]
		}
		old := e.chans[c]
		n := old
		for _, t := range v {
			known := false
			for _, o := range n {
				known = known || o == t
			}
			if !known && e.chanPass > 8 && t.Type != nil && !t.isNilOrConst() {
				// give up telling the values apart
				t = e.intern(&Term{Op: "recv", Args: []*Term{c}, Type: t.Type})
			} else if !known && len(n) >= 3 && t.Type != nil {
				// keep the values of channels of plain data few
				if _, basic := t.Type.Underlying().(*types.Basic); basic && !t.isNilOrConst() {
					t = e.intern(&Term{Op: "recv", Args: []*Term{c}, Type: t.Type})
				}
			}
			n = e.union(n, Val{t})
		}
		if !sameVal(old, n) {
			e.chans[c] = n
			e.chanChg = true
		}
	}
}

func (e *Eng) recv(fr *Frame, st *State, in ssa.Instruction, ch Val, commaOk bool, typ types.Type) Val {
	var et types.Type = typ
	if commaOk {
		et = typ.(*types.Tuple).At(0).Type()
	}
	var out Val
	if e.Recv != nil {
		if v := e.Recv(in, et); v != nil {
			out, ch = v, nil
		}
	}
	for _, c := range ch {
		c = Strip(c)
		for c.Op == "prev" {
			c = c.Args[0]
		}
		if v, ok := e.chans[c]; ok {
			out = e.union(out, v)
			continue
		}
		if c.Op == "make" {
			if e.chanClosed[c] {
				out = e.union(out, Val{e.Zero(et)})
			} else {
				e.chanDead[c] = et
			}
			continue
		}
		out = e.union(out, Val{e.intern(&Term{Op: "recv", Args: []*Term{c}, Ctx: fr.ctx, Site: in, Type: et})})
	}
	if commaOk {
		if len(out) == 0 {
			return Val{e.intern(&Term{Op: "tuple", Args: []*Term{e.Zero(et), e.Bool(false)}})}
		}
		ok := e.fresh("opaque", "recvok", fr, in, types.Typ[types.Bool])
		return Val{e.intern(&Term{Op: "tuple", Args: []*Term{e.Alt(out), ok}})}
	}
	return out
}

func (e *Eng) mapCell(m, k *Term) *Term {
	return e.intern(&Term{Op: "mapcell", Args: []*Term{m, k}})
}

func (e *Eng) killMap(g *G, m *Term) {
	for k := range g.Mem {
		if k.Op == "mapcell" && k.Args[0] == m {
			delete(g.Mem, k)
		}
	}
}

// mayEqual says whether two key terms may denote the same key.
func mayEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.CV != nil && b.CV != nil {
		return a.Str == b.Str
	}
	return true
}

func (e *Eng) mapStore(g *G, m, k *Term, v Val, strong bool) {
	for c, old := range g.Mem {
		if c.Op == "mapcell" && c.Args[0] == m && c.Args[1] != k && mayEqual(c.Args[1], k) {
			g.Mem[c] = e.union(old, v)
		}
	}
	c := e.mapCell(m, k)
	if strong && k.Op != "prev" && k.Op != "mix" && m.Op != "prev" {
		g.Mem[c] = v
	} else {
		old, ok := g.Mem[c]
		if !ok {
			old = Val{e.absent()}
		}
		g.Mem[c] = e.union(old, v)
	}
}

func (e *Eng) lookup(fr *Frame, st *State, x *ssa.Lookup) {
	ms, ks := stripNN(e.get(st, x.X)), stripNN(e.get(st, x.Index))
	if isString(x.X.Type()) {
		st.env[x] = e.cross(ms, ks, func(s, i *Term) *Term {
			return e.intern(&Term{Op: "index", Args: []*Term{s, i}, Type: x.Type()})
		})
		return
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	var vals, oks Val
	for _, m := range ms {
		for _, k := range ks {
			v, ok := e.mapGet(st.g, m, k, vt)
			vals = e.union(vals, v)
			oks = e.union(oks, ok)
		}
	}
	if x.CommaOk {
		// keep presence and value correlated when presence is decided
		st.env[x] = Val{e.intern(&Term{Op: "tuple", Args: []*Term{e.Alt(vals), e.Alt(oks)}})}
		return
	}
	st.env[x] = vals
}

// mapGet reads m[k]: the possible values and the presence term.
func (e *Eng) mapGet(g *G, m, k *Term, vt types.Type) (Val, Val) {
	bt := types.Typ[types.Bool]
	has := e.intern(&Term{Op: "haskey", Args: []*Term{m, k}, Type: bt})
	if m.Op == "nil" {
		return Val{e.Zero(vt)}, Val{e.Bool(false)}
	}
	if e.KeyIs != nil && (e.constMap[m] != nil || m.Op == "make") {
		if x := e.KeyIs(k); x != nil {
			k = x
			if _, ok := e.constMap[m][k]; !ok && m.Op != "make" {
				return Val{e.Zero(vt)}, Val{e.Bool(false)}
			}
		}
	}
	if k.Op == "key" && k.Args[0] == m {
		return e.mapValOf(g, m, k, vt), Val{e.Bool(true)}
	}
	c, ok := g.Mem[e.mapCell(m, k)]
	if !ok {
		c, ok = e.constMap[m][k]
	}
	if ok {
		var vals []*Term
		abs := false
		for _, t := range c {
			if t.Op == "absent" {
				abs = true
			} else {
				vals = append(vals, t)
			}
		}
		if !abs {
			return e.V(vals...), Val{e.Bool(true)}
		}
		if m.Op == "make" {
			if len(vals) == 0 && !e.SymMaps {
				return Val{e.Zero(vt)}, Val{e.Bool(false)}
			}
			switch e.Truth(g, has) {
			case 1:
				return e.V(vals...), Val{e.Bool(true)}
			case -1:
				return Val{e.Zero(vt)}, Val{e.Bool(false)}
			}
			return e.madeVal(vals, has, vt), Val{has}
		}
		lk := e.intern(&Term{Op: "lookup", Args: []*Term{m, k}, Type: vt})
		return e.V(append(vals, lk)...), Val{has}
	}
	var vals []*Term
	found := false
	e.mapCells(g, m, func(ck *Term, v Val) {
		if mayEqual(ck, k) {
			found = true
			for _, t := range v {
				if t.Op != "absent" {
					vals = append(vals, t)
				}
			}
		}
	})
	if m.Op == "make" {
		if !found && !e.SymMaps {
			return Val{e.Zero(vt)}, Val{e.Bool(false)}
		}
		switch e.Truth(g, has) {
		case 1:
			if len(vals) > 0 {
				return e.V(vals...), Val{e.Bool(true)}
			}
		case -1:
			return Val{e.Zero(vt)}, Val{e.Bool(false)}
		}
		return e.madeVal(vals, has, vt), Val{has}
	}
	if e.Truth(g, has) == -1 {
		vals = append(vals, e.Zero(vt))
	} else {
		vals = append(vals, e.intern(&Term{Op: "lookup", Args: []*Term{m, k}, Type: vt}))
	}
	return e.V(vals...), Val{has}
}

// madeVal is what a map made here holds under a key that may be present: in a
// set kept as a map to true, the value is presence itself.
func (e *Eng) madeVal(vals []*Term, has *Term, vt types.Type) Val {
	if b, ok := vt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		all := true
		for _, v := range vals {
			x, ok := v.ConstBool()
			all = all && ok && x
		}
		if all {
			return Val{has}
		}
	}
	return e.V(append(vals, e.Zero(vt))...)
}

func (e *Eng) mapValOf(g *G, m, k *Term, vt types.Type) Val {
	if m.Op == "make" {
		var vals Val
		e.mapCells(g, m, func(ck *Term, v Val) {
			for _, t := range v {
				if t.Op != "absent" {
					vals = e.union(vals, Val{t})
				}
			}
		})
		if len(vals) > 0 {
			return vals
		}
	}
	return Val{e.intern(&Term{Op: "val", Args: []*Term{m, k}, Type: vt})}
}

func (e *Eng) next(fr *Frame, st *State, x *ssa.Next) {
	it := e.get(st, x.Iter)
	tt := x.Type().(*types.Tuple)
	bt := types.Typ[types.Bool]
	more := e.intern(&Term{Op: "more", Args: []*Term{e.Alt(it)}, Ctx: fr.ctx, Site: x, Type: bt})
	var ks, vs Val
	for _, r := range it {
		for r.Op == "prev" {
			r = r.Args[0]
		}
		if r.Op != "range" {
			ks, vs = Val{e.fresh("opaque", "rangekey", fr, x, tt.At(1).Type())}, Val{e.fresh("opaque", "rangeval", fr, x, tt.At(2).Type())}
			continue
		}
		m := r.Args[0]
		if x.IsString {
			ks = e.union(ks, Val{e.fresh("opaque", "runeidx", fr, x, tt.At(1).Type())})
			vs = e.union(vs, Val{e.intern(&Term{Op: "rune", Args: []*Term{m}, Ctx: fr.ctx, Site: x, Type: tt.At(2).Type()})})
			continue
		}
		if m.Op == "make" {
			found := false
			e.mapCells(st.g, m, func(ck *Term, v Val) {
				found = true
				ks = e.union(ks, Val{ck})
				for _, t := range v {
					if t.Op != "absent" {
						vs = e.union(vs, Val{t})
					}
				}
			})
			if !found && m.Op == "make" {
				more = e.Bool(false)
				ks = Val{e.T("undef", "", tt.At(1).Type())}
				vs = Val{e.T("undef", "", tt.At(2).Type())}
			}
			continue
		}
		k := e.intern(&Term{Op: "key", Args: []*Term{m}, Ctx: fr.ctx, Site: x, Type: tt.At(1).Type()})
		ks = e.union(ks, Val{k})
		mt, _ := m.Type.(types.Type)
		var vt types.Type
		if mt != nil {
			if mm, ok := mt.Underlying().(*types.Map); ok {
				vt = mm.Elem()
			}
		}
		if tt.At(1).Type() != nil && k.Type == nil {
			k.Type = tt.At(1).Type()
		}
		vs = e.union(vs, e.mapValOf(st.g, m, k, vt))
	}
	st.env[x] = Val{e.intern(&Term{Op: "tuple", Args: []*Term{more, e.Alt(ks), e.Alt(vs)}})}
}

func (e *Eng) slice(fr *Frame, st *State, x *ssa.Slice) {
	st.env[x] = e.mapv(stripNN(e.get(st, x.X)), func(t *Term) *Term {
		if isArrayPtr(t) && x.Low == nil && x.High == nil {
			at := t.Type.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if at.Len() <= 64 {
				var args []*Term
				for i := int64(0); i < at.Len(); i++ {
					a := e.intern(&Term{Op: "iaddr", Args: []*Term{t, e.Int(i)}, Type: types.NewPointer(at.Elem())})
					args = append(args, e.Alt(e.loadTerm(st.g, a)))
				}
				return e.intern(&Term{Op: "vlist", Args: args, Type: x.Type()})
			}
		}
		lo, hi := e.Int(0), e.T("end", "", nil)
		if x.Low != nil {
			lo = e.Alt(e.get(st, x.Low))
		}
		if x.High != nil {
			hi = e.Alt(e.get(st, x.High))
		}
		if i, ok := lo.ConstInt(); ok && i == 0 && (x.High == nil || e.isLenOf(hi, t)) {
			return t // all of it
		}
		if t.Op == "vlist" {
			a, okA := lo.ConstInt()
			b, okB := hi.ConstInt()
			if x.High == nil {
				b, okB = int64(len(t.Args)), true
			}
			if okA && okB && a >= 0 && a <= b && int(b) <= len(t.Args) {
				return e.intern(&Term{Op: "vlist", Args: t.Args[a:b], Type: x.Type()})
			}
		}
		if i, ok := hi.ConstInt(); ok && i == 0 && !isString(x.Type()) {
			return e.intern(&Term{Op: "vlist", Type: x.Type()})
		}
		return e.intern(&Term{Op: "slice", Args: []*Term{t, lo, hi}, Type: x.Type()})
	})
}

// isLenOf says whether n is the length of t.
func (e *Eng) isLenOf(n, t *Term) bool {
	return n.Op == "call" && n.Str == "len" && len(n.Args) == 1 && Strip(n.Args[0]) == Strip(t)
}

// notify reports an operation that is not a call as an event.
func (e *Eng) notify(fr *Frame, st *State, in ssa.Instruction, name string, args ...Val) {
	if e.Call != nil {
		e.Call(&Ev{E: e, Kind: "op", Name: name, Args: args, Instr: in, Ctx: fr.ctx, G: st.g, st: st})
	}
}

func (t *Term) isNilOrConst() bool { return t.Op == "nil" || t.Op == "const" || t.Op == "zero" }
