package checks

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failedUses are the uses of a call's result, as something that must not be
// nil, that may be reached when the call failed.
func failedUses(c *C, fn *ssa.Function) (sites int, bad []ssa.Instruction) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if strings.Contains(c.P.CalleeName(call.Common()), "/structtag.") {
				continue // of the program's own types
			}
			tup, ok := call.Type().(*types.Tuple)
			if !ok || tup.Len() < 2 || !isErrorType(tup.At(tup.Len()-1).Type()) {
				continue
			}
			var err ssa.Value
			vals := map[ssa.Value]bool{}
			for _, r := range *call.Referrers() {
				ex, ok := r.(*ssa.Extract)
				if !ok {
					continue
				}
				if ex.Index == tup.Len()-1 {
					err = ex
				} else if nillable(ex.Type()) {
					vals[ex] = true
				}
			}
			if len(vals) == 0 {
				continue
			}
			for v := range vals {
				for _, u := range derefs(v) {
					sites++
					if !checked(c, err, u) {
						bad = append(bad, u)
					}
				}
			}
		}
	}
	return sites, bad
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// derefs are the uses of a value that fail when it is nil.
func derefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			out = append(out, x)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				out = append(out, x)
			}
		case ssa.CallInstruction:
			if x.Common().IsInvoke() && x.Common().Value == v {
				out = append(out, x)
			}
		}
	}
	return out
}

// checked reports whether a use is reached only when err is nil.
func checked(c *C, err ssa.Value, u ssa.Instruction) bool {
	if err == nil {
		return false
	}
	b := u.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i := range d.Succs {
			if impliesNil(c, br.Cond, i == 0, err) && !leadsTo(c, d.Succs[1-i], b, d) {
				return true
			}
		}
	}
	return false
}

// impliesNil reports whether a condition implies that err is nil.
func impliesNil(c *C, cond ssa.Value, holds bool, err ssa.Value) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return impliesNil(c, x.X, !holds, err)
		}
	case *ssa.BinOp:
		same := func(v ssa.Value) bool {
			if v == err {
				return true
			}
			// kept in a variable that a literal shares
			ld, ok := v.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || err.Referrers() == nil {
				return false
			}
			for _, r := range *err.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Val == err && st.Addr == ld.X {
					return true
				}
			}
			return false
		}
		isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
		if same(x.X) && isNil(x.Y) || same(x.Y) && isNil(x.X) {
			return x.Op == token.EQL && holds || x.Op == token.NEQ && !holds
		}
	}
	return false
}
