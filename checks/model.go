package checks

import (
	"go/constant"
	"strings"

	"verif/engine"
)

// Model gives values to the quantities a rule ranges over; the engine then
// follows only the branches that agree with it. Values are int64, string and
// bool.
type Model struct {
	Atom func(t *engine.Term) (any, bool)
}

// Use makes the engine decide conditions by the model.
func (m *Model) Use(e *engine.Eng) {
	e.Assume = func(t *engine.Term) (bool, bool) {
		v, ok := m.Eval(t)
		if !ok {
			return false, false
		}
		b, ok := v.(bool)
		return b, ok
	}
}

// Eval computes a term under the model.
func (m *Model) Eval(t *engine.Term) (any, bool) {
	t = engine.Strip(t)
	if t.CV != nil {
		switch t.CV.Kind() {
		case constant.Bool:
			return constant.BoolVal(t.CV), true
		case constant.String:
			return constant.StringVal(t.CV), true
		case constant.Int:
			if i, ok := constant.Int64Val(t.CV); ok {
				return i, true
			}
		}
	}
	if v, ok := m.Atom(t); ok {
		return v, true
	}
	switch t.Op {
	case "alt":
		var r any
		for i, a := range t.Args {
			v, ok := m.Eval(a)
			if !ok || i > 0 && v != r {
				return nil, false
			}
			r = v
		}
		return r, len(t.Args) > 0
	case "zero":
		return nil, false
	case "un":
		v, ok := m.Eval(t.Args[0])
		if !ok {
			return nil, false
		}
		switch x := v.(type) {
		case bool:
			if t.Str == "!" {
				return !x, true
			}
		case int64:
			if t.Str == "-" {
				return -x, true
			}
		}
	case "bin":
		if len(t.Args) != 2 {
			return nil, false
		}
		x, ok1 := m.Eval(t.Args[0])
		y, ok2 := m.Eval(t.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return binVal(t.Str, x, y)
	case "call":
		if t.Str == "strings.EqualFold" && len(t.Args) == 2 {
			x, ok1 := m.Eval(t.Args[0])
			y, ok2 := m.Eval(t.Args[1])
			if ok1 && ok2 {
				xs, a := x.(string)
				ys, b := y.(string)
				if a && b {
					return strings.EqualFold(xs, ys), true
				}
			}
		}
		return m.stringCall(t)
	}
	return nil, false
}

// stringCall computes the pure string functions of the standard library.
func (m *Model) stringCall(t *engine.Term) (any, bool) {
	var a []string
	for _, x := range t.Args {
		v, ok := m.Eval(x)
		if !ok {
			return nil, false
		}
		s, ok := v.(string)
		if !ok {
			return nil, false
		}
		a = append(a, s)
	}
	switch len(a) {
	case 1:
		switch t.Str {
		case "strings.ToLower":
			return strings.ToLower(a[0]), true
		case "strings.ToUpper":
			return strings.ToUpper(a[0]), true
		case "strings.TrimSpace":
			return strings.TrimSpace(a[0]), true
		}
	case 2:
		switch t.Str {
		case "strings.HasPrefix":
			return strings.HasPrefix(a[0], a[1]), true
		case "strings.HasSuffix":
			return strings.HasSuffix(a[0], a[1]), true
		case "strings.Contains":
			return strings.Contains(a[0], a[1]), true
		case "strings.TrimPrefix":
			return strings.TrimPrefix(a[0], a[1]), true
		case "strings.TrimSuffix":
			return strings.TrimSuffix(a[0], a[1]), true
		}
	}
	return nil, false
}

func binVal(op string, x, y any) (any, bool) {
	switch a := x.(type) {
	case int64:
		b, ok := y.(int64)
		if !ok {
			return nil, false
		}
		switch op {
		case "==":
			return a == b, true
		case "<":
			return a < b, true
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b != 0 {
				return a / b, true
			}
		case "%":
			if b != 0 {
				return a % b, true
			}
		}
	case string:
		b, ok := y.(string)
		if !ok {
			return nil, false
		}
		switch op {
		case "==":
			return a == b, true
		case "<":
			return a < b, true
		case "+":
			return a + b, true
		}
	case bool:
		b, ok := y.(bool)
		if ok && op == "==" {
			return a == b, true
		}
	}
	return nil, false
}

// EvalVal computes a value whose alternatives all agree.
func (m *Model) EvalVal(v engine.Val) (any, bool) {
	var r any
	for i, t := range v {
		x, ok := m.Eval(t)
		if !ok || i > 0 && x != r {
			return nil, false
		}
		r = x
	}
	return r, len(v) > 0
}

// chain reports whether t is the selection of the named fields, innermost
// first, ending at something base accepts.
func chain(t *engine.Term, base func(*engine.Term) bool, names ...string) bool {
	t = deref(t)
	for i := len(names) - 1; i >= 0; i-- {
		if t.Op != "field" || t.Str != names[i] {
			return false
		}
		t = deref(t.Args[0])
	}
	return base == nil || base(t)
}

// lookupOf returns the map and key of a map read.
func lookupOf(t *engine.Term) (m, k *engine.Term) {
	t = engine.Strip(t)
	switch t.Op {
	case "lookup", "haskey", "index", "mapval":
		if len(t.Args) == 2 {
			return engine.Strip(t.Args[0]), engine.Strip(t.Args[1])
		}
	}
	return nil, nil
}

// deref strips earlier-iteration marks and pointer loads.
func deref(t *engine.Term) *engine.Term {
	for {
		t = engine.Strip(t)
		if t.Op != "load" || len(t.Args) != 1 {
			return t
		}
		t = t.Args[0]
	}
}
