package checks

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"verif/engine"
)

// Text normalises string terms: with the atoms of the model standing for
// placeholder tokens, operations on text reduce to what they do to the tokens,
// and any other operation stays as an uninterpreted application. Two terms
// with the same normal form denote the same text for every value of the
// tokens that the operations do not take apart.
type Text struct {
	M *Model
	// Hash maps what was written to a hash so far, by handle.
	Extra func(t *engine.Term) (any, bool)
}

// Norm is the normal form, or false when part of the term is not modelled.
func (x *Text) Norm(t *engine.Term) (string, bool) {
	v, ok := x.norm(t)
	if !ok {
		return "", false
	}
	switch s := v.(type) {
	case string:
		return s, true
	case int64:
		return fmt.Sprint(s), true
	case bool:
		return fmt.Sprint(s), true
	}
	return "", false
}

// NormVal is the normal form of a value all of whose alternatives agree.
func (x *Text) NormVal(v engine.Val) (string, bool) {
	r := ""
	for i, t := range v {
		s, ok := x.Norm(t)
		if !ok || i > 0 && s != r {
			return "", false
		}
		r = s
	}
	return r, len(v) > 0
}

func (x *Text) list(t *engine.Term) ([]any, bool) {
	t = engine.Strip(t)
	if t.Op != "vlist" && t.Op != "list" {
		return nil, false
	}
	var out []any
	for _, a := range t.Args {
		v, ok := x.norm(a)
		if !ok {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func (x *Text) norm(t *engine.Term) (any, bool) {
	t = engine.Strip(t)
	if x.M != nil {
		if v, ok := x.M.Eval(t); ok {
			return v, true
		}
	}
	if x.Extra != nil {
		if v, ok := x.Extra(t); ok {
			return v, true
		}
	}
	switch t.Op {
	case "zero":
		if t.Type != nil && isString(t.Type) {
			return "", true
		}
		return nil, false
	case "bin":
		a, ok1 := x.norm(t.Args[0])
		b, ok2 := x.norm(t.Args[1])
		if ok1 && ok2 {
			if v, ok := binVal(t.Str, a, b); ok {
				return v, true
			}
		}
		return nil, false
	case "un":
		if v, ok := x.norm(t.Args[0]); ok && t.Str == "!" {
			if b, ok := v.(bool); ok {
				return !b, true
			}
		}
		return nil, false
	case "alt":
		var r any
		for i, a := range t.Args {
			v, ok := x.norm(a)
			if !ok || i > 0 && v != r {
				return nil, false
			}
			r = v
		}
		return r, len(t.Args) > 0
	case "call":
		return x.call(t)
	case "empty":
		v, _ := x.norm(t.Args[0])
		switch s := v.(type) {
		case string:
			if !strings.ContainsAny(s, "<>") {
				return s == "", true
			}
		case []string:
			return len(s) == 0, true
		}
		return nil, false
	case "index":
		b, ok1 := x.norm(t.Args[0])
		i, ok2 := x.norm(t.Args[1])
		n, ok3 := i.(int64)
		if !ok1 || !ok2 || !ok3 || n < 0 {
			return nil, false
		}
		switch b := b.(type) {
		case []string:
			if int(n) < len(b) {
				return b[n], true
			}
		case string:
			if int(n) < len(b) {
				return int64(b[n]), true
			}
		}
		return nil, false
	case "convert-rune":
		if v, ok := x.norm(t.Args[0]); ok {
			if n, ok := v.(int64); ok {
				return string(rune(n)), true
			}
		}
		return nil, false
	case "slice":
		if s, ok := x.sub(t); ok {
			return s, true
		}
		return x.app(t)
	case "res":
		if c := engine.Strip(t.Args[0]); c.Op == "call" && c.Str == "strings.Cut" && len(c.Args) == 2 {
			a, ok1 := x.Norm(c.Args[0])
			b, ok2 := x.Norm(c.Args[1])
			if ok1 && ok2 {
				l, r, found := strings.Cut(a, b)
				switch t.Str {
				case "0":
					return l, true
				case "1":
					return r, true
				case "2":
					return found, true
				}
			}
		}
		if len(t.Args) == 1 {
			if s, ok := x.Norm(t.Args[0]); ok {
				return fmt.Sprintf("%s#%s", s, t.Str), true
			}
		}
		return nil, false
	case "convert-bytes", "convert":
		return x.app(t)
	}
	if strings.HasPrefix(t.Op, "slice") || strings.HasPrefix(t.Op, "convert") {
		return x.app(t)
	}
	return nil, false
}

// sub is a part of a text with known bounds.
func (x *Text) sub(t *engine.Term) (string, bool) {
	v, ok := x.norm(t.Args[0])
	s, ok2 := v.(string)
	if !ok || !ok2 || strings.Contains(s, "<") || strings.Contains(s, "hash{") || strings.Contains(s, "686173687b") {
		return "", false
	}
	bound := func(i int, def int) (int, bool) {
		if i >= len(t.Args) || t.Args[i].Op == "nil" || t.Args[i].Op == "end" {
			return def, true
		}
		v, ok := x.norm(t.Args[i])
		n, ok2 := v.(int64)
		return int(n), ok && ok2
	}
	lo, ok1 := bound(1, 0)
	hi, ok2 := bound(2, len(s))
	if !ok1 || !ok2 || lo < 0 || lo > hi || hi > len(s) {
		return "", false
	}
	return s[lo:hi], true
}

// app is the uninterpreted application.
func (x *Text) app(t *engine.Term) (any, bool) {
	name := t.Str
	if name == "" {
		name = t.Op
	}
	var as []string
	for _, a := range t.Args {
		if l, ok := x.list(a); ok {
			for _, v := range l {
				as = append(as, fmt.Sprint(v))
			}
			continue
		}
		s, ok := x.Norm(a)
		if !ok {
			return nil, false
		}
		as = append(as, s)
	}
	if len(as) == 0 {
		return nil, false
	}
	return name + "<" + strings.Join(as, ",") + ">", true
}

func (x *Text) call(t *engine.Term) (any, bool) {
	str := func(i int) (string, bool) {
		if i >= len(t.Args) {
			return "", false
		}
		v, ok := x.norm(t.Args[i])
		if !ok {
			return "", false
		}
		s, ok := v.(string)
		return s, ok
	}
	strs := func(n int) ([]string, bool) {
		var out []string
		for i := 0; i < n; i++ {
			s, ok := str(i)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	num := func(i int) (int, bool) {
		if i >= len(t.Args) {
			return 0, false
		}
		v, ok := x.norm(t.Args[i])
		n, ok2 := v.(int64)
		return int(n), ok && ok2
	}
	name := t.Str
	if rest, ok := strings.CutPrefix(name, "bytes."); ok {
		name = "strings." + rest // the same operations, on texts held as bytes
	}
	switch name {
	case "strings.Equal":
		if s, ok := strs(2); ok && !strings.ContainsAny(s[0]+s[1], "<>") {
			return s[0] == s[1], true
		}
		return nil, false
	case "strings.Compare":
		if s, ok := strs(2); ok && !strings.ContainsAny(s[0]+s[1], "<>") {
			return int64(strings.Compare(s[0], s[1])), true
		}
		return nil, false
	case "strings.ContainsAny":
		if s, ok := strs(2); ok && !strings.ContainsAny(s[0], "<>") {
			return strings.ContainsAny(s[0], s[1]), true
		}
		return nil, false
	case "strings.TrimLeft":
		if s, ok := strs(2); ok && !strings.ContainsAny(s[0], "<>") {
			return strings.TrimLeft(s[0], s[1]), true
		}
	case "strings.Repeat":
		if s, ok := str(0); ok {
			if n, ok := num(1); ok && n >= 0 && n < 100 {
				return strings.Repeat(s, n), true
			}
		}
		return nil, false
	case "convert-rune":
		if n, ok := num(0); ok {
			return string(rune(n)), true
		}
		return nil, false
	case "fmt.Sprintf":
		f, ok := str(0)
		if !ok || len(t.Args) < 2 {
			break
		}
		if l, ok := x.list(t.Args[1]); ok {
			return fmt.Sprintf(f, l...), true
		}
		return nil, false
	case "fmt.Sprint":
		if l, ok := x.list(t.Args[0]); ok {
			return fmt.Sprint(l...), true
		}
		return nil, false
	case "path/filepath.Join", "path.Join":
		if l, ok := x.list(t.Args[0]); ok {
			var ss []string
			for _, v := range l {
				s, ok := v.(string)
				if !ok {
					return nil, false
				}
				ss = append(ss, s)
			}
			return filepath.Join(ss...), true
		}
		return nil, false
	case "path/filepath.Base", "path.Base":
		if s, ok := str(0); ok {
			return filepath.Base(s), true
		}
	case "path/filepath.Dir", "path.Dir":
		if s, ok := str(0); ok {
			return filepath.Dir(s), true
		}
	case "path/filepath.Clean", "path.Clean":
		if s, ok := str(0); ok {
			return filepath.Clean(s), true
		}
	case "path/filepath.IsAbs":
		if s, ok := str(0); ok {
			return filepath.IsAbs(s), true
		}
	case "strings.TrimSuffix":
		if s, ok := strs(2); ok {
			return strings.TrimSuffix(s[0], s[1]), true
		}
	case "strings.TrimPrefix":
		if s, ok := strs(2); ok {
			return strings.TrimPrefix(s[0], s[1]), true
		}
	case "strings.TrimRight":
		if s, ok := strs(2); ok {
			return strings.TrimRight(s[0], s[1]), true
		}
	case "strings.Trim":
		if a, ok := strs(2); ok && !strings.ContainsAny(a[0], "<>") {
			return strings.Trim(a[0], a[1]), true
		}
	case "strings.ToUpper":
		if a, ok := strs(1); ok && !strings.ContainsAny(a[0], "<>") {
			return strings.ToUpper(a[0]), true
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return strings.TrimSpace(s), true
		}
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return strings.ToLower(s), true
		}
	case "strings.HasPrefix":
		if s, ok := strs(2); ok {
			return strings.HasPrefix(s[0], s[1]), true
		}
	case "strings.HasSuffix":
		if s, ok := strs(2); ok {
			return strings.HasSuffix(s[0], s[1]), true
		}
	case "strings.Contains":
		if s, ok := strs(2); ok {
			return strings.Contains(s[0], s[1]), true
		}
	case "strings.EqualFold":
		if s, ok := strs(2); ok {
			return strings.EqualFold(s[0], s[1]), true
		}
	case "empty":
		if s, ok := str(0); ok {
			return s == "", true
		}
	case "strings.ReplaceAll":
		if s, ok := strs(3); ok {
			return strings.ReplaceAll(s[0], s[1], s[2]), true
		}
	case "strings.Replace":
		if s, ok := strs(3); ok {
			if n, ok := num(3); ok {
				return strings.Replace(s[0], s[1], s[2], n), true
			}
		}
	case "strings.Split":
		if s, ok := strs(2); ok {
			return strings.Split(s[0], s[1]), true
		}
	case "strings.SplitN":
		if s, ok := strs(2); ok {
			if n, ok := num(2); ok {
				return strings.SplitN(s[0], s[1], n), true
			}
		}
	case "strings.Fields":
		if s, ok := str(0); ok {
			return strings.Fields(s), true
		}
	case "strings.Index":
		if s, ok := strs(2); ok {
			return int64(strings.Index(s[0], s[1])), true
		}
	case "strings.LastIndex":
		if s, ok := strs(2); ok {
			return int64(strings.LastIndex(s[0], s[1])), true
		}
	case "strings.IndexByte":
		if s, ok := str(0); ok {
			if n, ok := num(1); ok {
				return int64(strings.IndexByte(s, byte(n))), true
			}
		}
	case "len":
		if len(t.Args) == 1 {
			v, ok := x.norm(t.Args[0])
			switch s := v.(type) {
			case string:
				if ok && !strings.Contains(s, "<") {
					return int64(len(s)), true
				}
			case []string:
				return int64(len(s)), ok
			}
		}
		return nil, false
	case "strconv.Itoa":
		if n, ok := num(0); ok {
			return fmt.Sprint(n), true
		}
	case "strings.Join":
		if v, ok := x.norm(t.Args[0]); ok {
			if l, ok := v.([]string); ok {
				if sep, ok := str(1); ok {
					return strings.Join(l, sep), true
				}
			}
		}
		if l, ok := x.list(t.Args[0]); ok {
			if sep, ok := str(1); ok {
				var ss []string
				for _, v := range l {
					ss = append(ss, fmt.Sprint(v))
				}
				return strings.Join(ss, sep), true
			}
		}
	case "io.WriteString":
	}
	if t.Type != nil {
		if b, ok := t.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			return nil, false
		}
	}
	return x.app(t)
}

// Use decides conditions on text as well.
func (x *Text) Use(e *engine.Eng) {
	e.Assume = func(t *engine.Term) (bool, bool) {
		v, ok := x.norm(t)
		if !ok {
			return false, false
		}
		b, ok := v.(bool)
		return b, ok
	}
}
