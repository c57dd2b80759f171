package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

// identT: external struct types that are modelled by identity (address) because
// they are never copied: locks, atomics, builders.
func identT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		_, isS := n.Underlying().(*types.Struct)
		return isS
	case "strings":
		return n.Obj().Name() == "Builder"
	case "github.com/SokaDance/rmx":
		return n.Obj().Name() == "RecursiveMutex"
	}
	return false
}

func (m *Mach) cell(st *State, key string, a *Term, sort string) *Term {
	return m.kn(m.c.Select(m.comp(st, key, arrSort("Int", sort)), a))
}

// external models a call to a function whose body is not part of the package.
func (m *Mach) external(st *State, n ast.Node, fr *Frame, f *types.Func, recv *Val, args []Val, k KV) {
	c := m.c
	full := f.FullName()
	sig := f.Type().(*types.Signature)
	trust := func() { m.models[full] = true }
	intT, boolT, strT := types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]
	one := func(t types.Type, x *Term) { k(st, []Val{{T: t, X: x}}) }
	errT := types.Universe.Lookup("error").Type()
	errTag := func(key string, as ...*Term) *Term { // a non-nil error value
		e := c.App("err:"+key, "V", as...)
		if m.pure == 0 && !e.hasBV {
			m.assume(st, c.Not(c.Is("VNil", e)))
		}
		return e
	}
	noProbe := func() {
		if m.probe > 0 {
			panic(pureAbort{"effect"})
		}
	}
	switch full {
	// ---- locks ----
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		noProbe()
		trust()
		m.chk(st, n, c.Eq(m.cell(st, "K:lock", recv.X, "Int"), c.Int(0)), "lock acquired while already held (self-deadlock)", func(st *State) {
			m.setComp(st, "K:lock", recv.X, c.Int(-1), "Int")
			k(st, nil)
		})
		return
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		noProbe()
		trust()
		m.chk(st, n, c.Eq(m.cell(st, "K:lock", recv.X, "Int"), c.Int(-1)), "unlock of unlocked mutex", func(st *State) {
			m.setComp(st, "K:lock", recv.X, c.Int(0), "Int")
			k(st, nil)
		})
		return
	case "(*sync.RWMutex).RLock":
		noProbe()
		trust()
		x := m.cell(st, "K:lock", recv.X, "Int")
		m.chk(st, n, c.Eq(x, c.Int(0)), "read lock while held by the same goroutine", func(st *State) {
			m.setComp(st, "K:lock", recv.X, c.AddK(x, 1), "Int")
			k(st, nil)
		})
		return
	case "(*sync.RWMutex).RUnlock":
		noProbe()
		trust()
		x := m.cell(st, "K:lock", recv.X, "Int")
		m.chk(st, n, c.Le(c.Int(1), x), "unlock of unlocked mutex", func(st *State) {
			m.setComp(st, "K:lock", recv.X, c.AddK(x, -1), "Int")
			k(st, nil)
		})
		return
	case "(*github.com/SokaDance/rmx.RecursiveMutex).Lock":
		// may be taken again by its holder: only the depth matters to one goroutine
		noProbe()
		trust()
		m.setComp(st, "K:lock", recv.X, c.AddK(m.cell(st, "K:lock", recv.X, "Int"), 1), "Int")
		k(st, nil)
		return
	case "(*github.com/SokaDance/rmx.RecursiveMutex).Unlock":
		noProbe()
		trust()
		x := m.cell(st, "K:lock", recv.X, "Int")
		m.chk(st, n, c.Le(c.Int(1), x), "unlock of unlocked mutex", func(st *State) {
			m.setComp(st, "K:lock", recv.X, c.AddK(x, -1), "Int")
			k(st, nil)
		})
		return
	// ---- atomics ----
	case "(*sync/atomic.Int64).Add":
		noProbe()
		x := c.Add(m.cell(st, "K:atomic", recv.X, "Int"), args[0].X)
		m.setComp(st, "K:atomic", recv.X, x, "Int")
		one(sig.Results().At(0).Type(), x)
		return
	case "(*sync/atomic.Int64).Load":
		one(sig.Results().At(0).Type(), m.cell(st, "K:atomic", recv.X, "Int"))
		return
	case "(*sync/atomic.Int64).Store":
		noProbe()
		m.setComp(st, "K:atomic", recv.X, args[0].X, "Int")
		k(st, nil)
		return
	// ---- builders ----
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		noProbe()
		cur := m.cell(st, "K:sb", recv.X, "Str")
		var add *Term
		if strings.HasSuffix(full, "WriteString") {
			add = args[0].X
		} else {
			add = m.convert(st, n, Val{T: types.Typ[types.Int32], X: args[0].X}, strT).X
		}
		m.setComp(st, "K:sb", recv.X, m.concat(cur, add), "Str")
		switch sig.Results().Len() {
		case 1:
			k(st, []Val{m.zero(errT)})
		default:
			k(st, []Val{{T: intT, X: m.strlen(add)}, m.zero(errT)})
		}
		return
	case "(*strings.Builder).String":
		one(strT, m.cell(st, "K:sb", recv.X, "Str"))
		return
	case "(*strings.Builder).Len":
		one(intT, m.strlen(m.cell(st, "K:sb", recv.X, "Str")))
		return
	case "(*strings.Builder).Grow":
		k(st, nil)
		return
	// ---- strings ----
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		trust()
		if m.c.UseStr {
			op := map[string]string{"strings.HasPrefix": "str.prefixof", "strings.HasSuffix": "str.suffixof"}[full]
			if op == "" {
				one(boolT, m.smtFn("str.contains", "Bool", args[0].X, args[1].X))
			} else {
				one(boolT, m.smtFn(op, "Bool", args[1].X, args[0].X))
			}
			return
		}
		s, p := args[0].X, args[1].X
		switch full {
		case "strings.HasPrefix":
			one(boolT, c.And(c.Le(m.strlen(p), m.strlen(s)), c.Eq(m.substr(s, c.Int(0), m.strlen(p)), p)))
		case "strings.HasSuffix":
			one(boolT, c.And(c.Le(m.strlen(p), m.strlen(s)), c.Eq(m.substr(s, c.Sub(m.strlen(s), m.strlen(p)), m.strlen(s)), p)))
		default:
			if s.Op == "str" && p.Op == "str" {
				one(boolT, c.Bool(strings.Contains(s.Name, p.Name)))
				return
			}
			one(boolT, c.App(full, "Bool", s, p))
		}
		return
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		trust()
		sub := args[1].X
		if full != "strings.Index" {
			sub = m.convert(st, n, Val{T: types.Typ[types.Int32], X: sub}, strT).X
		}
		if m.c.UseStr {
			one(intT, m.smtFn("str.indexof", "Int", args[0].X, sub, c.Int(0)))
			return
		}
		r := c.App("strings.Index", "Int", args[0].X, sub)
		if !r.hasBV {
			m.assume(st, c.And(c.Le(c.Int(-1), r), c.Or(c.Eq(r, c.Int(-1)), c.Le(c.Add(r, m.strlen(sub)), m.strlen(args[0].X)))))
			m.assume(st, c.Implies(c.Le(c.Int(0), r), c.Eq(m.substr(args[0].X, r, c.Add(r, m.strlen(sub))), sub)))
			m.assume(st, c.Implies(c.Le(c.Int(0), r), c.Eq(args[0].X, m.concat(m.substr(args[0].X, c.Int(0), r), m.concat(sub, m.substr(args[0].X, c.Add(r, m.strlen(sub)), m.strlen(args[0].X)))))))
		}
		one(intT, r)
		return
	case "strings.LastIndex", "strings.LastIndexByte":
		trust()
		sub := args[1].X
		if full != "strings.LastIndex" {
			sub = m.convert(st, n, Val{T: types.Typ[types.Int32], X: sub}, strT).X
		}
		if sub.Op == "str" {
			if at := m.lastIndex(args[0].X, sub.Name); at != nil {
				one(intT, at)
				return
			}
		}
		r := c.App("strings.LastIndex", "Int", args[0].X, sub)
		if !r.hasBV {
			m.assume(st, c.And(c.Le(c.Int(-1), r), c.Or(c.Eq(r, c.Int(-1)), c.Le(c.Add(r, m.strlen(sub)), m.strlen(args[0].X)))))
			m.assume(st, c.Implies(c.Le(c.Int(0), r), c.Eq(m.substr(args[0].X, r, c.Add(r, m.strlen(sub))), sub)))
			if m.c.UseStr {
				// no later occurrence
				m.assume(st, c.Implies(c.Le(c.Int(0), r), c.Not(m.smtFn("str.contains", "Bool", m.substr(args[0].X, c.AddK(r, 1), m.strlen(args[0].X)), sub))))
				m.assume(st, c.Implies(c.Eq(r, c.Int(-1)), c.Not(m.smtFn("str.contains", "Bool", args[0].X, sub))))
			}
		}
		one(intT, r)
		return
	case "strings.ToLower", "strings.ToUpper", "net/url.PathEscape", "strconv.Itoa", "path/filepath.ToSlash", "strconv.FormatBool":
		trust()
		r := c.App(full, "Str", args[0].X)
		m.wf(st, Val{T: strT, X: r})
		if !r.hasBV && m.pure == 0 {
			switch full {
			case "strconv.Itoa":
				m.assume(st, c.Not(c.App("strings.Contains", "Bool", r, c.Str("/"))))
				first := m.strAt(r, c.Int(0))
				m.assume(st, c.And(c.Le(c.Int(1), m.strlen(r)), c.Or(c.Eq(first, c.Int('-')), c.And(c.Le(c.Int('0'), first), c.Le(first, c.Int('9'))))))
				m.assume(st, c.And(c.Eq(c.App("atoi:ok", "Bool", r), c.True), c.Eq(c.App("atoi:val", "Int", r), args[0].X)))
			case "net/url.PathEscape":
				m.assume(st, c.And(c.Eq(c.App("unescape:ok", "Bool", r), c.True), c.Eq(c.App("unescape:val", "Str", r), args[0].X)))
			}
		}
		one(strT, r)
		return
	case "net/url.PathUnescape":
		trust()
		ok := c.App("unescape:ok", "Bool", args[0].X)
		v := c.App("unescape:val", "Str", args[0].X)
		k(st, []Val{{T: strT, X: c.Ite(ok, v, c.Str(""))}, {T: errT, X: c.Ite(ok, c.Ctor("VNil", "V"), errTag("unescape", args[0].X))}})
		return
	case "strconv.Atoi":
		if args[0].X.Op == "str" {
			if n, err := strconv.Atoi(args[0].X.Name); err == nil {
				k(st, []Val{{T: intT, X: c.Int(int64(n))}, {T: errT, X: c.Ctor("VNil", "V")}})
				return
			}
		}
		trust()
		ok := c.App("atoi:ok", "Bool", args[0].X)
		v := c.App("atoi:val", "Int", args[0].X)
		e := errTag("atoi", args[0].X)
		k(st, []Val{{T: intT, X: c.Ite(ok, v, c.App("atoi:bad", "Int", args[0].X))}, {T: errT, X: c.Ite(ok, c.Ctor("VNil", "V"), e)}})
		return
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
		trust()
		nm := full
		var as []*Term
		for _, a := range args {
			as = append(as, a.X)
		}
		ok := c.App(nm+":ok", "Bool", as...)
		rt := sig.Results().At(0).Type()
		v := Val{T: rt, X: c.App(nm+":val", "Int", as...)}
		if full == "strconv.ParseInt" && args[2].X.Op == "int" && args[2].X.I > 0 && args[2].X.I < 63 && !v.X.hasBV {
			h := int64(1) << uint(args[2].X.I-1)
			m.assume(st, c.And(c.Le(c.Int(-h), v.X), c.Le(v.X, c.Int(h-1))))
		}
		if full == "strconv.ParseUint" && args[2].X.Op == "int" && args[2].X.I > 0 && args[2].X.I < 63 && !v.X.hasBV {
			h := int64(1) << uint(args[2].X.I)
			m.assume(st, c.And(c.Le(c.Int(0), v.X), c.Le(v.X, c.Int(h-1))))
		}
		k(st, []Val{v, {T: errT, X: c.Ite(ok, c.Ctor("VNil", "V"), errTag(nm, as...))}})
		return
	case "strconv.ParseBool":
		trust()
		ok := c.App(full+":ok", "Bool", args[0].X)
		k(st, []Val{{T: boolT, X: c.App(full+":val", "Bool", args[0].X)}, {T: errT, X: c.Ite(ok, c.Ctor("VNil", "V"), errTag(full, args[0].X))}})
		return
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat":
		trust()
		var as []*Term
		for _, a := range args {
			as = append(as, a.X)
		}
		r := c.App(full, "Str", as...)
		m.wf(st, Val{T: strT, X: r})
		one(strT, r)
		return
	case "strings.Join":
		trust()
		el := types.Typ[types.String]
		row := c.Select(m.mem(st, el), c.Proj("sl_arr", args[0].X))
		off, ln := c.Proj("sl_off", args[0].X), c.Proj("sl_len", args[0].X)
		r := c.App("strings.Join", "Str", row, off, ln, args[1].X)
		m.wf(st, Val{T: strT, X: r})
		if m.pure == 0 && !r.hasBV {
			m.assume(st, c.Implies(c.Eq(ln, c.Int(0)), c.Eq(r, c.Str(""))))
			m.assume(st, c.Implies(c.Eq(ln, c.Int(1)), c.Eq(r, c.Select(row, off))))
			if sep := args[1].X; sep.Op == "str" && len(sep.Name) == 1 {
				many := c.Le(c.Int(2), ln)
				m.assume(st, c.Implies(many, c.Le(c.AddK(ln, -1), m.strlen(r))))
				m.assume(st, c.Implies(c.And(many, c.Eq(c.Select(row, off), c.Str(""))), c.Eq(m.strAt(r, c.Int(0)), c.Int(int64(sep.Name[0])))))
			}
		}
		one(strT, r)
		return
	case "strings.Cut":
		trust()
		s, sep := args[0].X, args[1].X
		var i *Term
		if m.c.UseStr {
			i = m.smtFn("str.indexof", "Int", s, sep, c.Int(0))
		} else {
			i = c.App("strings.Index", "Int", s, sep)
			m.assume(st, c.And(c.Le(c.Int(-1), i), c.Or(c.Eq(i, c.Int(-1)), c.Le(c.Add(i, m.strlen(sep)), m.strlen(s)))))
		}
		found := c.Le(c.Int(0), i)
		k(st, []Val{{T: strT, X: c.Ite(found, m.substr(s, c.Int(0), i), s)}, {T: strT, X: c.Ite(found, m.substr(s, c.Add(i, m.strlen(sep)), m.strlen(s)), c.Str(""))}, {T: boolT, X: found}})
		return
	case "strings.Split":
		trust()
		noProbe()
		s, sep := args[0].X, args[1].X
		a := m.newAddr(st)
		row := c.App("split:row", arrSort("Int", "Str"), s, sep)
		ln := c.App("split:len", "Int", s, sep)
		if ps := m.splitKnown(s, sep); ps != nil {
			ln = c.Int(int64(len(ps)))
			row = c.ConstArr(arrSort("Int", "Str"), c.Str(""))
			for i, p := range ps {
				row = c.Store(row, c.Int(int64(i)), p)
			}
		} else if s.Op == "app" && s.Name == "strings.Join" && s.Args[3] == sep {
			// parts without separator are found again
			r2, o2, n2 := s.Args[0], s.Args[1], s.Args[2]
			x := c.BoundVar("i", "Int")
			in := c.And(c.Le(c.Int(0), x), c.Lt(x, n2))
			from := c.Select(r2, c.Add(o2, x))
			free := c.Forall([]*Term{x}, c.Implies(in, c.Not(c.App("strings.Contains", "Bool", from, sep))), nil)
			same := c.Forall([]*Term{x}, c.Implies(in, c.Eq(c.Select(row, x), from)), [][]*Term{{c.Select(row, x)}})
			m.assume(st, c.Not(c.App("strings.Contains", "Bool", c.Str(""), sep)))
			m.assume(st, c.Implies(c.And(c.Le(c.Int(1), n2), free), c.And(c.Eq(ln, n2), same)))
		}
		m.assume(st, c.Le(c.Int(1), ln))
		m.comp(st, "M:Str", arrSort("Int", arrSort("Int", "Str")))
		m.setComp(st, "M:Str", a, row, "")
		m.assume(st, c.Eq(c.App("strings.Join", "Str", row, c.Int(0), ln, sep), s))
		one(sig.Results().At(0).Type(), c.Ctor("sl", "Sl", a, c.Int(0), ln, ln))
		return
	// ---- formatting and errors ----
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		trust()
		r := c.Fresh("fmt", "Str")
		if full == "fmt.Sprintf" && args[0].X.Op == "str" && args[0].X.Name == "%v" && len(args) == 2 {
			// the text of a value depends on the value alone, and a string is its own
			if sl, ok := types.Unalias(args[1].T).Underlying().(*types.Slice); ok {
				x := m.loadElem(st, sl.Elem(), c.Proj("sl_arr", args[1].X), c.Proj("sl_off", args[1].X)).X
				r = c.App("fmt:v", "Str", x)
				if !r.hasBV && m.pure == 0 {
					m.assume(st, c.Implies(c.Eq(c.Tag(x), m.tagOf(strT)), c.Eq(r, c.Proj("vs_v", x))))
				}
			}
		}
		if full == "fmt.Sprintf" && args[0].X.Op == "str" && args[0].X.Name == "%d" && len(args) == 2 {
			// the digits of an integer depend on the integer alone
			if sl, ok := types.Unalias(args[1].T).Underlying().(*types.Slice); ok {
				x := m.loadElem(st, sl.Elem(), c.Proj("sl_arr", args[1].X), c.Proj("sl_off", args[1].X)).X
				if c.Tag(x) == m.tagOf(intT) {
					r = c.App("strconv.Itoa", "Str", c.Proj("vi_v", x))
				} else {
					r = c.App("fmt:d", "Str", x)
				}
			}
		}
		m.wf(st, Val{T: strT, X: r})
		one(strT, r)
		return
	case "fmt.Errorf", "errors.New":
		trust()
		noProbe()
		m.errN++
		one(errT, errTag(fmt.Sprintf("%d", m.errN)))
		return
	case "(error).Error":
		trust()
		one(strT, c.App("errstr", "Str", recv.X))
		return
	case "math/bits.OnesCount":
		x := args[0].X
		if x.Op == "int" {
			b := 0
			for v := uint64(x.I); v != 0; v &= v - 1 {
				b++
			}
			one(intT, c.Int(int64(b)))
			return
		}
		trust()
		r := c.App("popcount", "Int", x)
		if !r.hasBV {
			m.assume(st, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(64)), c.Eq(c.Eq(r, c.Int(0)), c.Eq(x, c.Int(0)))))
		}
		one(intT, r)
		return
	case "reflect.ValueOf":
		one(sig.Results().At(0).Type(), c.App("reflptr", "Int", m.box(args[0])))
		return
	case "(reflect.Value).Pointer":
		// distinct objects have distinct addresses
		trust()
		if v := recv.X; v.Op == "app" && v.Name == "reflptr" && !v.hasBV {
			m.assume(st, c.Eq(c.App("reflobj", "V", v), v.Args[0]))
		}
		one(types.Typ[types.Uintptr], recv.X)
		return
	case "reflect.DeepEqual":
		trust()
		one(boolT, c.App("deepequal", "Bool", m.box(args[0]), m.box(args[1])))
		return
	case "path/filepath.IsAbs":
		trust()
		one(boolT, c.App(full, "Bool", args[0].X))
		return
	case "unicode/utf8.DecodeLastRuneInString":
		trust()
		r := c.App("lastrune", "Int", args[0].X)
		if ls := m.strLeaves(args[0].X); !r.hasBV && m.pure == 0 && len(ls) > 0 && ls[len(ls)-1].Op == "app" && ls[len(ls)-1].Name == "strconv.Itoa" {
			// a number ends in a digit
			m.assume(st, c.App("isdigit", "Bool", r))
		}
		k(st, []Val{{T: types.Typ[types.Int32], X: r}, {T: intT, X: c.App("lastrunesize", "Int", args[0].X)}})
		return
	case "unicode.IsDigit":
		one(boolT, c.App("isdigit", "Bool", args[0].X))
		return
	case "sort.Strings":
		m.unsup(n, "sort.Strings")
	case "slices.Index":
		m.slicesIndex(st, n, args, k)
		return
	}
	if strings.HasPrefix(full, "(*go.uber.org/zap") || strings.HasPrefix(full, "go.uber.org/zap") {
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, m.freshVal("zap", sig.Results().At(i).Type()))
		}
		k(st, rs)
		return
	}
	if m.externSet(st, n, fr, f, full, recv, args, k) || m.externWeak(st, n, fr, f, recv, args, k) || m.externURL(st, n, full, recv, args, k) {
		return
	}
	m.unsup(n, "call of external function %s", full)
}

func (m *Mach) slicesIndex(st *State, n ast.Node, args []Val, k KV) {
	c := m.c
	m.models["slices.Index"] = true
	el := m.sliceElem(args[0].T)
	row := c.Select(m.mem(st, el), c.Proj("sl_arr", args[0].X))
	off, ln := c.Proj("sl_off", args[0].X), c.Proj("sl_len", args[0].X)
	v := m.coerce(args[1], el)
	if m.pure > 0 {
		panic(pureAbort{"slices.Index"})
	}
	r := c.Fresh("idx", "Int")
	j := c.BoundVar("j", "Int")
	sel := c.Select(row, j)
	at := func(i *Term) *Term { return c.Select(row, c.Add(off, i)) }
	m.assume(st, c.And(c.Le(c.Int(-1), r), c.Lt(r, ln)))
	m.assume(st, c.Implies(c.Le(c.Int(0), r), c.Eq(at(r), v.X)))
	m.assume(st, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(off, j), c.Lt(j, c.Add(off, ln)), c.Or(c.Eq(r, c.Int(-1)), c.Lt(j, c.Add(off, r)))), c.Not(c.Eq(sel, v.X))), [][]*Term{{sel}}))
	k(st, []Val{{T: types.Typ[types.Int], X: r}})
}

// externSet: the ordered set of the collection library (trusted model).
func (m *Mach) externSet(st *State, n ast.Node, fr *Frame, f *types.Func, full string, recv *Val, args []Val, k KV) bool {
	if f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "sets/linkedhashset") {
		return false
	}
	tn, _ := m.p.Pkg.Scope().Lookup("vmLHS").(*types.TypeName)
	if tn == nil {
		return false
	}
	pt := types.NewPointer(tn.Type())
	call := func(name string, as []Val) bool {
		o, _, _ := types.LookupFieldOrMethod(pt, true, m.p.Pkg, name)
		mf, _ := o.(*types.Func)
		if mf == nil {
			return false
		}
		m.models["linkedhashset.Set."+f.Name()+" (an insertion-ordered set of distinct elements)"] = true
		r := Val{T: pt, X: recv.X}
		m.callFunc(st, n, fr, mf, &r, as, k)
		return true
	}
	if recv == nil {
		if f.Name() != "New" || len(args) != 1 || m.c.Proj("sl_len", args[0].X) != m.c.Int(0) {
			return false
		}
		if m.probe > 0 {
			panic(pureAbort{"effect"})
		}
		a := m.newObject(st, tn.Type())
		k(st, []Val{{T: f.Type().(*types.Signature).Results().At(0).Type(), X: a}})
		return true
	}
	switch f.Name() {
	case "Add", "Remove", "Contains":
		if m.c.Proj("sl_len", args[0].X) != m.c.Int(1) {
			return false
		}
		el := types.NewInterfaceType(nil, nil)
		row := m.c.Select(m.mem(st, el), m.c.Proj("sl_arr", args[0].X))
		x := m.c.Select(row, m.c.Proj("sl_off", args[0].X))
		return call(f.Name(), []Val{{T: el, X: x}})
	case "Size", "Empty", "Values", "Each":
		return call(f.Name(), args)
	}
	return false
}

// externWeak: the weak map of the URI cache (trusted model vmURICache: a map
// whose entries may disappear at any time).
func (m *Mach) externWeak(st *State, n ast.Node, fr *Frame, f *types.Func, recv *Val, args []Val, k KV) bool {
	if f.Pkg() == nil || f.Pkg().Path() != "github.com/KarpelesLab/weak" {
		return false
	}
	tn, _ := m.p.Pkg.Scope().Lookup("vmURICache").(*types.TypeName)
	if tn == nil {
		return false
	}
	rt := f.Type().(*types.Signature).Results()
	pt := types.NewPointer(tn.Type())
	m.models["weak.Map."+f.Name()+" (a map whose entries may disappear)"] = true
	if recv == nil {
		if f.Name() != "NewMap" {
			return false
		}
		if m.probe > 0 {
			panic(pureAbort{"effect"})
		}
		a := m.newObject(st, tn.Type())
		mt := tn.Type().Underlying().(*types.Struct).Field(0).Type()
		ma := m.newMap(st, mt)
		m.storeField(st, tn.Type(), 0, a, Val{T: mt, X: ma})
		k(st, []Val{{T: rt.At(0).Type(), X: a}})
		return true
	}
	name := f.Name()
	if name == "Get" && m.pure > 0 {
		name = "Peek"
	}
	o, _, _ := types.LookupFieldOrMethod(pt, true, m.p.Pkg, name)
	mf, _ := o.(*types.Func)
	if mf == nil {
		return false
	}
	m.callFunc(st, n, fr, mf, &Val{T: pt, X: recv.X}, args, k)
	return true
}

// externURL: url.Parse returns an arbitrary URL or an error, determined by the text.
func (m *Mach) externURL(st *State, n ast.Node, full string, recv *Val, args []Val, k KV) bool {
	c := m.c
	strT, boolT := types.Typ[types.String], types.Typ[types.Bool]
	switch full {
	case "net/url.Parse":
		m.models[full] = true
		raw := args[0].X
		var pkg *types.Package
		for _, p := range m.p.Pkg.Imports() {
			if p.Path() == "net/url" {
				pkg = p
			}
		}
		ut := pkg.Scope().Lookup("URL").Type()
		s, _ := m.localStruct(ut)
		ok := c.App("urlparse:ok", "Bool", raw)
		a := m.newObject(st, ut)
		v := m.zero(ut)
		for i := 0; i < s.NumFields(); i++ {
			x := Val{T: s.Field(i).Type(), X: c.App("urlparse:"+s.Field(i).Name(), m.sortOf(s.Field(i).Type()), raw)}
			if x.X.Sort == "Int" {
				m.assume(st, c.And(c.Le(c.Int(0), x.X), c.Lt(x.X, a)))
			}
			m.wf(st, x)
			v.F[i] = x
		}
		m.storeStruct(st, ut, a, v)
		errT := types.Universe.Lookup("error").Type()
		e := c.App("err:urlparse", "V", raw)
		m.assume(st, c.Not(c.Is("VNil", e)))
		k(st, []Val{{T: types.NewPointer(ut), X: c.Ite(ok, a, c.Int(0))}, {T: errT, X: c.Ite(ok, c.Ctor("VNil", "V"), e)}})
		return true
	case "(*net/url.Userinfo).Username":
		m.models[full] = true
		r := Val{T: strT, X: c.App("userinfo:name", "Str", recv.X)}
		m.wf(st, r)
		k(st, []Val{r})
		return true
	case "(*net/url.Userinfo).Password":
		m.models[full] = true
		r := Val{T: strT, X: c.App("userinfo:password", "Str", recv.X)}
		m.wf(st, r)
		k(st, []Val{r, {T: boolT, X: c.App("userinfo:has", "Bool", recv.X)}})
		return true
	}
	return false
}

// modelFunc replaces functions of the package that are outside the verified subset.
func (m *Mach) modelFunc(st *State, n ast.Node, fr *Frame, key string, recv *Val, args []Val, k KV) bool {
	// contract functions vu...: uninterpreted functions of scalar arguments, which
	// the native form of a contract defines
	if recv == nil && !m.unfold[key] && len(key) > 2 && strings.HasPrefix(key, "vu") && key[2] >= 'A' && key[2] <= 'Z' {
		o, _ := m.p.Pkg.Scope().Lookup(key).(*types.Func)
		if o == nil {
			return false
		}
		rt := o.Type().(*types.Signature).Results().At(0).Type()
		var as []*Term
		for _, a := range args {
			a = m.scalarFn(a)
			if a.X == nil {
				m.unsup(n, "argument of %s", key)
			}
			as = append(as, a.X)
		}
		v := Val{T: rt, X: m.c.App("vu:"+key, m.sortOf(rt), as...)}
		if !v.X.hasBV {
			m.wf(st, v)
		}
		k(st, []Val{v})
		return true
	}
	return false
}

// splitKnown: the parts of s, if all its separators are in literal text.
func (m *Mach) splitKnown(s, sep *Term) []*Term {
	if m.c.UseStr || sep.Op != "str" || len(sep.Name) != 1 {
		return nil
	}
	if s.Op == "str" {
		var r []*Term
		for _, p := range strings.Split(s.Name, sep.Name) {
			r = append(r, m.c.Str(p))
		}
		return r
	}
	cur := m.c.Str("")
	var r []*Term
	for _, l := range m.strLeaves(s) {
		switch {
		case l.Op == "str":
			ps := strings.Split(l.Name, sep.Name)
			cur = m.concat(cur, m.c.Str(ps[0]))
			for _, p := range ps[1:] {
				r = append(r, cur)
				cur = m.c.Str(p)
			}
		case l.Op == "app" && l.Name == "strconv.Itoa" && !strings.Contains("-0123456789", sep.Name):
			cur = m.concat(cur, l)
		default:
			return nil
		}
	}
	return append(r, cur)
}
