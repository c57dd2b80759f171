package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type K func(*State, Val)

func (m *Mach) typeOf(e ast.Expr) types.Type {
	if t := m.p.Info.TypeOf(e); t != nil {
		return t
	}
	m.unsup(e, "expression without type information")
	return nil
}

func (m *Mach) constVal(e ast.Expr, tv types.TypeAndValue) (Val, bool) {
	if tv.Value == nil {
		return Val{}, false
	}
	t := tv.Type
	return m.constOf(tv.Value, t), true
}

func (m *Mach) constOf(cv constant.Value, t types.Type) Val {
	switch cv.Kind() {
	case constant.Bool:
		return Val{T: t, X: m.c.Bool(constant.BoolVal(cv))}
	case constant.String:
		return Val{T: t, X: m.c.Str(constant.StringVal(cv))}
	case constant.Int:
		if isFloat(t) {
			return Val{T: t, X: m.c.Const("float:"+cv.ExactString(), "Int")}
		}
		i, ok := constant.Int64Val(cv)
		if !ok {
			return Val{T: t, X: m.c.Const("bigint:"+cv.ExactString(), "Int")}
		}
		return Val{T: t, X: m.c.Int(i)}
	default:
		return Val{T: t, X: m.c.Const("float:"+cv.ExactString(), "Int")}
	}
}

func (m *Mach) lookup(st *State, fr *Frame, obj types.Object) (vkey, Val, bool) {
	for f := fr; f != nil; f = f.Parent {
		k := vkey{fr: f.id, obj: obj}
		if v, ok := st.vars[k]; ok {
			return k, v, true
		}
	}
	return vkey{}, Val{}, false
}

func (m *Mach) boxedVar(obj types.Object) bool {
	if identT(obj.Type()) {
		return false
	}
	if _, isArr := types.Unalias(obj.Type()).Underlying().(*types.Array); isArr {
		return m.p.addrTaken(obj)
	}
	if s, _ := m.localStruct(obj.Type()); s != nil {
		return true
	}
	return m.p.addrTaken(obj)
}

func (m *Mach) declare(st *State, fr *Frame, obj types.Object, v Val) {
	if obj == nil {
		return
	}
	k := vkey{fr: fr.id, obj: obj}
	if v.Q != nil {
		st.vars[k] = v
		return
	}
	if identT(obj.Type()) {
		a := m.newAddr(st)
		m.zeroIdent(st, obj.Type(), a)
		st.vars[k] = Val{T: obj.Type(), X: a}
		return
	}
	v = m.coerce(v, obj.Type())
	if m.boxedVar(obj) {
		if m.pure > 0 && v.F != nil {
			st.vars[k] = v // immutable struct value in contract expressions
			return
		}
		a := m.newAddr(st)
		if v.F != nil {
			m.storeStruct(st, obj.Type(), a, v)
		} else {
			v = m.scalarFn(v)
			m.setComp(st, "C:"+m.sortOf(obj.Type()), a, v.X, "")
		}
		st.vars[k] = Val{T: obj.Type(), X: a}
		return
	}
	st.vars[k] = v
}

func (m *Mach) readVar(st *State, obj types.Object, v Val) Val {
	if v.Q == nil && m.boxedVar(obj) && v.F == nil {
		if s, _ := m.localStruct(obj.Type()); s != nil {
			return m.loadStruct(st, obj.Type(), v.X)
		}
		h := m.comp(st, "C:"+m.sortOf(obj.Type()), arrSort("Int", m.sortOf(obj.Type())))
		return m.refn(Val{T: obj.Type(), X: m.c.Select(h, v.X)})
	}
	return v
}

// panicTo unwinds to the innermost handler.
func (m *Mach) panicTo(st *State, c *ctl) {
	h := st.ph
	if h == nil {
		return // pure evaluation: the branch is dropped
	}
	st.ph = h.parent
	h.f(st, c)
}

func (m *Mach) chk(st *State, n ast.Node, cond *Term, why string, k func(*State)) {
	m.check(st, n, cond, why, k, m.panicTo)
}

func (m *Mach) evalList(st *State, fr *Frame, es []ast.Expr, k func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(es) {
			k(st, acc)
			return
		}
		m.eval(st, fr, es[i], func(st *State, v Val) {
			rec(st, i+1, append(append([]Val(nil), acc...), v))
		})
	}
	rec(st, 0, nil)
}

// evalPure evaluates an expression as a mathematical expression (no checks, no
// effects); branching inside is merged into if-then-else terms.
func (m *Mach) evalPure(st *State, fr *Frame, e ast.Expr) Val {
	return m.mergePure(st, func(s *State, k K) { m.eval(s, fr, e, k) }, m.typeOf(e))
}

func (m *Mach) mergePure(st *State, run func(*State, K), t types.Type) Val {
	type res struct {
		c *Term
		v Val
	}
	var rs []res
	s := st.clone()
	s.delta = nil
	s.ph = nil
	m.pure++
	run(s, func(s2 *State, v Val) {
		rs = append(rs, res{m.c.And(s2.delta...), v})
	})
	m.pure--
	if len(rs) == 0 {
		return m.freshVal("undef", t)
	}
	v := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		v = m.iteVal(rs[i].c, rs[i].v, v)
	}
	return v
}

func (m *Mach) iteVal(c *Term, a, b Val) Val {
	if a.Q != nil || b.Q != nil {
		if a.Q == nil || b.Q == nil || a.Q.Elem == nil {
			panic(pureAbort{"merge of snapshots"})
		}
		q := &SeqV{Arr: m.c.Ite(c, a.Q.Arr, b.Q.Arr), Elem: a.Q.Elem}
		if a.Q.Len != nil {
			q.Off, q.Len = m.c.Ite(c, a.Q.Off, b.Q.Off), m.c.Ite(c, a.Q.Len, b.Q.Len)
		}
		if a.Q.Has != nil {
			q.Has = m.c.Ite(c, a.Q.Has, b.Q.Has)
		}
		return Val{T: a.T, Q: q}
	}
	if a.F != nil || b.F != nil {
		v := Val{T: a.T}
		for i := range a.F {
			v.F = append(v.F, m.iteVal(c, a.F[i], b.F[i]))
		}
		return v
	}
	if a.Fn != nil && b.Fn != nil && a.Fn == b.Fn {
		return a
	}
	a, b = m.scalarFn(a), m.scalarFn(b)
	if a.X == nil && b.X == nil {
		return a
	}
	if a.X.Sort != b.X.Sort {
		if a.X.Sort == "V" || b.X.Sort == "V" {
			t := a.T
			if a.X.Sort != "V" {
				t = b.T
			}
			a, b = m.coerce(a, t), m.coerce(b, t)
		}
	}
	return m.refn(Val{T: a.T, X: m.c.Ite(c, a.X, b.X)})
}

// tryMerge evaluates e without forking if e has no effects and no failing checks.
func (m *Mach) tryMerge(st *State, fr *Frame, e ast.Expr) (v Val, ok bool) {
	if m.pure > 0 {
		return Val{}, false
	}
	if m.probe > 0 {
		return Val{}, false
	}
	type res struct {
		c *Term
		v Val
	}
	var rs []res
	savedPaths, savedForks, savedPure, savedGoal, savedInv := m.paths, m.nforks, m.pure, m.goal, m.invCtx
	nkn := len(m.knTrail)
	m.sess.Push()
	nw := len(m.wfStack)
	pushDepth := len(m.sess.stack)
	savedPF := m.probeFrame
	m.probeFrame = m.frameN
	m.probe++
	m.nforks = 0
	ok = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case pureAbort:
					ok = false
				case unsupported:
					ok = false
				default:
					panic(r)
				}
			}
		}()
		s := st.clone()
		s.delta = nil
		s.ph = &handler{f: func(*State, *ctl) { panic(pureAbort{"panic in probe"}) }}
		m.eval(s, fr, e, func(s2 *State, v Val) {
			rs = append(rs, res{m.c.And(s2.delta...), v})
			if len(rs) > 24 {
				panic(pureAbort{"too many results"})
			}
		})
	}()
	m.probe--
	m.probeFrame = savedPF
	m.nforks = savedForks
	m.paths = savedPaths
	for len(m.sess.stack) > pushDepth {
		m.sess.Pop()
	}
	m.sess.Pop()
	for _, k := range m.wfStack[nw:] {
		delete(m.wfDone, k)
	}
	m.wfStack = m.wfStack[:nw]
	m.pure, m.goal, m.invCtx = savedPure, savedGoal, savedInv
	for _, t := range m.knTrail[nkn:] {
		delete(m.known, t)
	}
	m.knTrail = m.knTrail[:nkn]
	if !ok || len(rs) == 0 {
		return Val{}, false
	}
	v = rs[len(rs)-1].v
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pureAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i := len(rs) - 2; i >= 0; i-- {
		v = m.iteVal(rs[i].c, rs[i].v, v)
	}
	return v, true
}

// cond evaluates a boolean expression and forks on it.
func (m *Mach) cond(st *State, fr *Frame, e ast.Expr, kt, kf func(*State)) {
	e = ast.Unparen(e)
	if m.pure == 0 && m.probe == 0 {
		if simpleExpr(e) {
			m.eval(st, fr, e, func(st *State, v Val) { m.fork(st, v.X, kt, kf) })
			return
		}
		if v, ok := m.tryMerge(st, fr, e); ok {
			m.fork(st, v.X, kt, kf)
			return
		}
	}
	switch x := e.(type) {
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			m.cond(st, fr, x.X, func(s *State) { m.cond(s, fr, x.Y, kt, kf) }, kf)
			return
		}
		if x.Op == token.LOR {
			m.cond(st, fr, x.X, kt, func(s *State) { m.cond(s, fr, x.Y, kt, kf) })
			return
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			m.cond(st, fr, x.X, kf, kt)
			return
		}
	}
	m.eval(st, fr, e, func(st *State, v Val) { m.fork(st, v.X, kt, kf) })
}

func simpleExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SelectorExpr, *ast.FuncLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (m *Mach) eval(st *State, fr *Frame, e ast.Expr, k K) {
	if tv, ok := m.p.Info.Types[e]; ok {
		if v, ok := m.constVal(e, tv); ok {
			k(st, v)
			return
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		m.eval(st, fr, e.X, k)
	case *ast.Ident:
		m.evalIdent(st, fr, e, k)
	case *ast.BasicLit:
		m.unsup(e, "literal")
	case *ast.FuncLit:
		k(st, Val{T: m.typeOf(e), Fn: &FnVal{Lit: e, Fr: fr}})
	case *ast.SelectorExpr:
		m.evalSelector(st, fr, e, k)
	case *ast.StarExpr:
		m.eval(st, fr, e.X, func(st *State, p Val) {
			m.chk(st, e, m.c.Not(m.c.Eq(p.X, m.c.Int(0))), "nil pointer dereference", func(st *State) {
				t := m.typeOf(e)
				if s, _ := m.localStruct(t); s != nil {
					k(st, m.loadStruct(st, t, p.X))
					return
				}
				h := m.comp(st, "C:"+m.sortOf(t), arrSort("Int", m.sortOf(t)))
				v := m.refn(Val{T: t, X: m.c.Select(h, p.X)})
				m.wf(st, v)
				k(st, v)
			})
		})
	case *ast.UnaryExpr:
		m.evalUnary(st, fr, e, k)
	case *ast.BinaryExpr:
		m.evalBinary(st, fr, e, k)
	case *ast.CallExpr:
		m.evalCall(st, fr, e, func(st *State, vs []Val) {
			if len(vs) == 1 {
				k(st, vs[0])
			} else {
				k(st, Val{T: m.p.Info.TypeOf(e), F: vs})
			}
		})
	case *ast.IndexExpr:
		m.evalIndex(st, fr, e, false, func(st *State, v, _ Val) { k(st, v) })
	case *ast.IndexListExpr:
		m.evalIdentLike(st, fr, e.X, k)
	case *ast.SliceExpr:
		m.evalSlice(st, fr, e, k)
	case *ast.TypeAssertExpr:
		m.evalAssert(st, fr, e, false, func(st *State, v, _ Val) { k(st, v) })
	case *ast.CompositeLit:
		m.evalComposite(st, fr, e, k)
	case *ast.KeyValueExpr:
		m.unsup(e, "key-value")
	default:
		m.unsup(e, "expression %T", e)
	}
}

func (m *Mach) evalIdentLike(st *State, fr *Frame, e ast.Expr, k K) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		m.evalIdent(st, fr, e, k)
	case *ast.SelectorExpr:
		m.evalSelector(st, fr, e, k)
	default:
		m.unsup(e, "instantiation")
	}
}

func (m *Mach) evalIdent(st *State, fr *Frame, e *ast.Ident, k K) {
	obj := m.p.Info.ObjectOf(e)
	switch o := obj.(type) {
	case *types.Nil:
		t := m.p.Info.TypeOf(e)
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			k(st, Val{T: t, X: m.c.Ctor("VNil", "V")})
			return
		}
		k(st, m.zero(t))
	case *types.Const:
		k(st, m.constOf(o.Val(), o.Type()))
	case *types.Func:
		k(st, Val{T: m.p.Info.TypeOf(e), Fn: &FnVal{Fun: o}})
	case *types.Var:
		if _, v, ok := m.lookup(st, fr, o); ok {
			k(st, m.readVar(st, o, v))
			return
		}
		if o.Parent() == m.p.Pkg.Scope() || o.Pkg() != m.p.Pkg {
			k(st, m.global(st, o))
			return
		}
		m.unsup(e, "variable %s not bound", e.Name)
	default:
		m.unsup(e, "identifier %s", e.Name)
	}
}

func (m *Mach) global(st *State, o *types.Var) Val {
	t := o.Type()
	if s, _ := m.localStruct(t); s != nil {
		return m.loadStruct(st, t, m.c.Const("GA:"+o.Name(), "Int"))
	}
	h := m.comp(st, "G:"+o.Name(), arrSort("Int", m.sortOf(t)))
	v := m.refn(Val{T: t, X: m.c.Select(h, m.c.Int(0))})
	m.wf(st, v)
	return v
}

// cursor denotes a value or an addressable struct while walking a selector path.
type cursor struct {
	addr *Term
	t    types.Type // type of the denoted value (struct type when addr != nil)
	v    Val
}

// evalBase evaluates the operand of a selector to a cursor; structs stay addressable.
func (m *Mach) evalBase(st *State, fr *Frame, e ast.Expr, k func(*State, cursor)) {
	e = ast.Unparen(e)
	t := m.typeOf(e)
	if s, _ := m.localStruct(t); s != nil {
		switch x := e.(type) {
		case *ast.Ident:
			if o, ok := m.p.Info.ObjectOf(x).(*types.Var); ok {
				if _, v, ok := m.lookup(st, fr, o); ok {
					if v.F != nil {
						k(st, cursor{t: t, v: v})
					} else {
						k(st, cursor{addr: v.X, t: t})
					}
					return
				}
				if o.Parent() == m.p.Pkg.Scope() {
					k(st, cursor{addr: m.c.Const("GA:"+o.Name(), "Int"), t: t})
					return
				}
			}
		case *ast.StarExpr:
			m.eval(st, fr, x.X, func(st *State, p Val) {
				m.chk(st, e, m.c.Not(m.c.Eq(p.X, m.c.Int(0))), "nil pointer dereference", func(st *State) {
					k(st, cursor{addr: p.X, t: t})
				})
			})
			return
		case *ast.SelectorExpr:
			if sel := m.p.Info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				m.evalBase(st, fr, x.X, func(st *State, c cursor) {
					m.walk(st, x, c, sel.Index(), k)
				})
				return
			}
		}
	}
	m.eval(st, fr, e, func(st *State, v Val) { k(st, cursor{t: v.T, v: v}) })
}

func derefType(t types.Type) (types.Type, bool) {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// walk follows field indices from a cursor.
func (m *Mach) walk(st *State, n ast.Node, c cursor, path []int, k func(*State, cursor)) {
	if len(path) == 0 {
		k(st, c)
		return
	}
	if c.addr == nil {
		if el, isPtr := derefType(c.t); isPtr {
			if s, _ := m.localStruct(el); s == nil {
				m.unsup(n, "field of external struct %s", el)
			}
			m.chk(st, n, m.c.Not(m.c.Eq(c.v.X, m.c.Int(0))), "nil pointer dereference", func(st *State) {
				m.walk(st, n, cursor{addr: c.v.X, t: el}, path, k)
			})
			return
		}
	}
	s, named := m.localStruct(c.t)
	if s == nil {
		m.unsup(n, "field of external struct %s", c.t)
	}
	i := path[0]
	ft := s.Field(i).Type()
	// static (possibly instantiated) field type
	sft := ft
	if us, ok := types.Unalias(c.t).Underlying().(*types.Struct); ok && i < us.NumFields() {
		sft = us.Field(i).Type()
	}
	if c.addr != nil {
		if fs, _ := m.localStruct(ft); fs != nil {
			m.walk(st, n, cursor{addr: m.subAddr(named, s, i, c.addr), t: sft}, path[1:], k)
			return
		}
		v := m.loadField(st, c.t, i, c.addr)
		v = m.coerce(v, sft)
		m.walk(st, n, cursor{t: sft, v: v, addr: nil}, path[1:], k)
		return
	}
	v := m.coerce(c.v.F[i], sft)
	m.walk(st, n, cursor{t: sft, v: v}, path[1:], k)
}

func (m *Mach) cursorVal(st *State, c cursor) Val {
	if c.addr != nil {
		return m.loadStruct(st, c.t, c.addr)
	}
	return c.v
}

func (m *Mach) evalSelector(st *State, fr *Frame, e *ast.SelectorExpr, k K) {
	sel := m.p.Info.Selections[e]
	if sel == nil {
		// package-qualified
		m.evalQualified(st, fr, e, k)
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		m.evalBase(st, fr, e.X, func(st *State, c cursor) {
			m.walk(st, e, c, sel.Index(), func(st *State, c cursor) {
				v := m.cursorVal(st, c)
				k(st, v)
			})
		})
	case types.MethodVal:
		m.evalRecv(st, fr, e, sel, func(st *State, recv Val, f *types.Func) {
			k(st, Val{T: m.typeOf(e), Fn: &FnVal{Fun: f, Recv: &recv}})
		})
	default:
		m.unsup(e, "method expression")
	}
}

func (m *Mach) evalQualified(st *State, fr *Frame, e *ast.SelectorExpr, k K) {
	obj := m.p.Info.ObjectOf(e.Sel)
	switch o := obj.(type) {
	case *types.Func:
		k(st, Val{T: m.p.Info.TypeOf(e), Fn: &FnVal{Fun: o}})
	case *types.Var:
		if o.Pkg() == m.p.Pkg {
			k(st, m.global(st, o))
			return
		}
		t := o.Type()
		v := Val{T: t, X: m.c.Const("ext:"+o.Pkg().Name()+"."+o.Name(), m.sortOf(t))}
		if m.sortOf(t) == "V" {
			m.assume(st, m.c.Not(m.c.Is("VNil", v.X)))
		}
		k(st, v)
	case *types.Const:
		k(st, m.constOf(o.Val(), o.Type()))
	default:
		m.unsup(e, "qualified identifier")
	}
}

// evalRecv evaluates the receiver of a method selection; for promoted methods the
// embedding path is walked so that the receiver is the one declared by the method.
func (m *Mach) evalRecv(st *State, fr *Frame, e *ast.SelectorExpr, sel *types.Selection, k func(*State, Val, *types.Func)) {
	f := sel.Obj().(*types.Func)
	path := sel.Index()
	path = path[:len(path)-1]
	sig := f.Type().(*types.Signature)
	m.evalBase(st, fr, e.X, func(st *State, c cursor) {
		m.walk(st, e, c, path, func(st *State, c cursor) {
			m.adaptRecv(st, e, c, sig, f, k)
		})
	})
}

func (m *Mach) adaptRecv(st *State, n ast.Node, c cursor, sig *types.Signature, f *types.Func, k func(*State, Val, *types.Func)) {
	rt := sig.Recv().Type()
	if isIface(rt) || isIface(c.t) {
		v := c.v
		k(st, v, f)
		return
	}
	_, wantPtr := types.Unalias(rt).(*types.Pointer)
	if wantPtr {
		if c.addr != nil {
			k(st, Val{T: rt, X: c.addr}, f)
			return
		}
		if _, isPtr := derefType(c.t); isPtr {
			k(st, Val{T: rt, X: c.v.X}, f)
			return
		}
		// method on non-struct named type with pointer receiver, or addressable opaque value
		k(st, Val{T: rt, X: c.v.X, F: c.v.F}, f)
		return
	}
	// value receiver
	if el, isPtr := derefType(c.t); isPtr && c.addr == nil {
		if s, _ := m.localStruct(el); s != nil {
			k(st, m.loadStruct(st, el, c.v.X), f)
			return
		}
	}
	k(st, m.cursorVal(st, c), f)
}

func (m *Mach) evalUnary(st *State, fr *Frame, e *ast.UnaryExpr, k K) {
	switch e.Op {
	case token.NOT:
		m.eval(st, fr, e.X, func(st *State, v Val) { k(st, Val{T: v.T, X: m.c.Not(v.X)}) })
	case token.SUB:
		m.eval(st, fr, e.X, func(st *State, v Val) {
			if isFloat(v.T) {
				k(st, Val{T: v.T, X: m.c.App("fneg", "Int", v.X)})
				return
			}
			k(st, Val{T: v.T, X: m.c.Sub(m.c.Int(0), v.X)})
		})
	case token.ADD:
		m.eval(st, fr, e.X, k)
	case token.XOR:
		m.eval(st, fr, e.X, func(st *State, v Val) {
			if b, ok := types.Unalias(v.T).Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				if _, hi, ok := intRange(b.Kind()); ok {
					k(st, Val{T: v.T, X: m.c.Sub(m.c.Int(hi), v.X)})
					return
				}
			}
			k(st, Val{T: v.T, X: m.c.Sub(m.c.Int(-1), v.X)})
		})
	case token.AND:
		x := ast.Unparen(e.X)
		t := m.typeOf(e)
		switch x := x.(type) {
		case *ast.CompositeLit:
			m.evalComposite(st, fr, x, func(st *State, v Val) {
				el, _ := derefType(t)
				a := m.newAddr(st)
				if s, _ := m.localStruct(el); s != nil {
					m.storeStruct(st, el, a, v)
				} else {
					m.setComp(st, "C:"+m.sortOf(el), a, v.X, "")
				}
				k(st, Val{T: t, X: a})
			})
			return
		case *ast.Ident:
			if o, ok := m.p.Info.ObjectOf(x).(*types.Var); ok {
				if _, v, ok := m.lookup(st, fr, o); ok && v.F == nil {
					k(st, Val{T: t, X: v.X})
					return
				}
			}
		case *ast.SelectorExpr:
			if s, _ := m.localStruct(m.typeOf(x)); s != nil {
				m.evalBase(st, fr, x, func(st *State, c cursor) {
					if c.addr == nil {
						m.unsup(e, "address of value")
					}
					k(st, Val{T: t, X: c.addr})
				})
				return
			}
			// address of an opaque field (mutex ...): symbolic sub-address
			sel := m.p.Info.Selections[x]
			if sel != nil && sel.Kind() == types.FieldVal {
				m.evalBase(st, fr, x.X, func(st *State, c cursor) {
					p := sel.Index()
					m.walk(st, x, c, p[:len(p)-1], func(st *State, c cursor) {
						a, ct := c.addr, c.t
						if a == nil {
							a = c.v.X
							ct, _ = derefType(ct)
						}
						s, named := m.localStruct(ct)
						k(st, Val{T: t, X: m.c.App("addr:"+m.fieldComp(named, s, p[len(p)-1]), "Int", a)})
					})
				})
				return
			}
		}
		m.unsup(e, "address-of")
	default:
		m.unsup(e, "unary %s", e.Op)
	}
}

func (m *Mach) evalBinary(st *State, fr *Frame, e *ast.BinaryExpr, k K) {
	if e.Op == token.LAND || e.Op == token.LOR {
		bt := m.typeOf(e)
		if m.pure > 0 {
			a := m.mergePureInner(st, fr, e.X)
			if (e.Op == token.LAND && a.X == m.c.False) || (e.Op == token.LOR && a.X == m.c.True) {
				k(st, Val{T: bt, X: a.X})
				return
			}
			b := m.mergePureInner(st, fr, e.Y)
			if e.Op == token.LAND {
				k(st, Val{T: bt, X: m.c.And(a.X, b.X)})
			} else {
				k(st, Val{T: bt, X: m.c.Or(a.X, b.X)})
			}
			return
		}
		if m.probe > 0 {
			m.eval(st, fr, e.X, func(st *State, a Val) {
				m.fork(st, a.X, func(s *State) {
					if e.Op == token.LAND {
						m.eval(s, fr, e.Y, func(s *State, b Val) { k(s, Val{T: bt, X: b.X}) })
					} else {
						k(s, Val{T: bt, X: m.c.True})
					}
				}, func(s *State) {
					if e.Op == token.LAND {
						k(s, Val{T: bt, X: m.c.False})
					} else {
						m.eval(s, fr, e.Y, func(s *State, b Val) { k(s, Val{T: bt, X: b.X}) })
					}
				})
			})
			return
		}
		if v, ok := m.tryMerge(st, fr, e); ok {
			k(st, Val{T: bt, X: v.X})
			return
		}
		m.cond(st, fr, e, func(s *State) { k(s, Val{T: bt, X: m.c.True}) }, func(s *State) { k(s, Val{T: bt, X: m.c.False}) })
		return
	}
	m.eval(st, fr, e.X, func(st *State, a Val) {
		m.eval(st, fr, e.Y, func(st *State, b Val) {
			m.binop(st, e, e.Op, a, b, m.typeOf(e), k)
		})
	})
}

func (m *Mach) mergePureInner(st *State, fr *Frame, e ast.Expr) Val {
	return m.mergePure(st, func(s *State, k K) { m.eval(s, fr, e, k) }, m.typeOf(e))
}

func (m *Mach) eqVal(a, b Val, n ast.Node) *Term {
	if isIface(a.T) || isIface(b.T) || isNilT(a.T) || isNilT(b.T) {
		if isNilT(a.T) && isNilT(b.T) {
			return m.c.True
		}
		if isNilT(a.T) {
			a, b = b, a
		}
		if isNilT(b.T) && !isIface(a.T) {
			switch m.sortOf(a.T) {
			case "Sl":
				return m.c.Eq(m.c.Proj("sl_arr", a.X), m.c.Int(0))
			default:
				if a.Fn != nil {
					return m.c.False
				}
				if a.X == nil {
					m.unsup(n, "comparison of %s %v", a.T, a)
				}
				return m.c.Eq(a.X, m.c.Int(0))
			}
		}
		return m.c.Eq(m.box(a), m.box(b))
	}
	if a.F != nil || b.F != nil {
		var cs []*Term
		for i := range a.F {
			cs = append(cs, m.eqVal(a.F[i], b.F[i], n))
		}
		return m.c.And(cs...)
	}
	a, b = m.scalarFn(a), m.scalarFn(b)
	return m.c.Eq(a.X, b.X)
}

func isNilT(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (m *Mach) binop(st *State, n ast.Node, op token.Token, a, b Val, t types.Type, k K) {
	c := m.c
	ret := func(x *Term) { k(st, Val{T: t, X: x}) }
	switch op {
	case token.EQL:
		ret(m.eqVal(a, b, n))
		return
	case token.NEQ:
		ret(c.Not(m.eqVal(a, b, n)))
		return
	}
	if m.sortOf(a.T) == "Str" {
		switch op {
		case token.ADD:
			ret(m.concat(a.X, b.X))
		case token.LSS:
			ret(m.strLess(a.X, b.X))
		case token.GTR:
			ret(m.strLess(b.X, a.X))
		case token.LEQ:
			ret(c.Not(m.strLess(b.X, a.X)))
		case token.GEQ:
			ret(c.Not(m.strLess(a.X, b.X)))
		default:
			m.unsup(n, "string op %s", op)
		}
		return
	}
	if isFloat(a.T) || isFloat(b.T) {
		s := "Int"
		if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
			s = "Bool"
		}
		ret(c.App("f"+op.String(), s, a.X, b.X))
		return
	}
	wrap := func(x *Term) *Term { return m.wrapInt(x, t) }
	switch op {
	case token.ADD:
		ret(wrap(c.Add(a.X, b.X)))
	case token.SUB:
		ret(wrap(c.Sub(a.X, b.X)))
	case token.MUL:
		ret(wrap(c.Mul(a.X, b.X)))
	case token.QUO, token.REM:
		m.chk(st, n, c.Not(c.Eq(b.X, c.Int(0))), "integer divide by zero", func(st *State) {
			nm := "div"
			if op == token.REM {
				nm = "mod"
			}
			k(st, Val{T: t, X: m.divmod(nm, a.X, b.X)})
		})
	case token.LSS:
		ret(c.Lt(a.X, b.X))
	case token.LEQ:
		ret(c.Le(a.X, b.X))
	case token.GTR:
		ret(c.Lt(b.X, a.X))
	case token.GEQ:
		ret(c.Le(b.X, a.X))
	case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
		ret(wrap(m.bitop(op, a.X, b.X, a.T)))
	default:
		m.unsup(n, "binary %s", op)
	}
}

func (m *Mach) divmod(op string, a, b *Term) *Term {
	c := m.c
	if a.Op == "int" && b.Op == "int" && b.I != 0 {
		if op == "div" {
			return c.Int(a.I / b.I)
		}
		return c.Int(a.I % b.I)
	}
	raw := func(x, y *Term) *Term {
		return c.intern(&Term{Op: "div", Name: "div", Args: []*Term{x, y}, Sort: "Int"})
	}
	neg := c.Sub(c.Int(0), a)
	q := c.Ite(c.Le(c.Int(0), a), raw(a, b), c.Sub(c.Int(0), raw(neg, b)))
	if op == "div" {
		return q
	}
	return c.Sub(a, c.Mul(b, q))
}

func (m *Mach) wrapInt(x *Term, t types.Type) *Term {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16, types.Uint32, types.Int8, types.Int16, types.Int32:
	default:
		return x
	}
	lo, hi, _ := intRange(b.Kind())
	if x.Op == "int" {
		n := hi - lo + 1
		v := (x.I-lo)%n + lo
		if v < lo {
			v += n
		}
		return m.c.Int(v)
	}
	if (x.Op == "app" || x.Op == "bvop") && x.I == 0 && strings.HasPrefix(x.Name, "bv:") {
		return x
	}
	c := m.c
	n := hi - lo + 1
	md := c.intern(&Term{Op: "mod", Name: "mod", Args: []*Term{c.AddK(x, -lo), c.Int(n)}, Sort: "Int"})
	return c.Ite(c.And(c.Le(c.Int(lo), x), c.Le(x, c.Int(hi))), x, c.AddK(md, lo))
}

// bitop: constants are folded; shifts by constants are arithmetic; the remaining
// operations are bit-vector operations of the operand width over the integers.
func (m *Mach) bitop(op token.Token, a, b *Term, t types.Type) *Term {
	c := m.c
	if a.Op == "int" && b.Op == "int" {
		switch op {
		case token.SHL:
			return c.Int(a.I << uint(b.I))
		case token.SHR:
			return c.Int(a.I >> uint(b.I))
		case token.AND:
			return c.Int(a.I & b.I)
		case token.OR:
			return c.Int(a.I | b.I)
		case token.XOR:
			return c.Int(a.I ^ b.I)
		case token.AND_NOT:
			return c.Int(a.I &^ b.I)
		}
	}
	if r := m.lowBits(op, a, b); r != nil {
		return r
	}
	if b.Op == "int" && b.I >= 0 && b.I < 62 {
		switch op {
		case token.SHL:
			return c.Mul(a, c.Int(1<<uint(b.I)))
		case token.SHR:
			return c.intern(&Term{Op: "div", Name: "div", Args: []*Term{a, c.Int(1 << uint(b.I))}, Sort: "Int"})
		}
	}
	w := 32
	if bt, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
		switch bt.Kind() {
		case types.Uint8, types.Int8:
			w = 8
		case types.Uint16, types.Int16:
			w = 16
		case types.Uint32, types.Int32:
			w = 32
		default:
			w = 64
		}
	}
	nm := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr", token.AND_NOT: "bvandn"}[op]
	return m.bvop(nm, w, a, b)
}

// lowBits: operations that only concern the low bits of a, when those are known:
// a is a constant plus a multiple of 2^p.
func (m *Mach) lowBits(op token.Token, a, b *Term) *Term {
	c := m.c
	if a.Op == "int" && (op == token.AND || op == token.OR) {
		a, b = b, a
	}
	if b.Op != "int" {
		return nil
	}
	l := c.toLin(a)
	p := 61
	for _, k := range l.co {
		n := 0
		for k&1 == 0 && n < 61 {
			k >>= 1
			n++
		}
		if n < p {
			p = n
		}
	}
	if p == 0 {
		return nil
	}
	mod := int64(1) << uint(p)
	low := l.k & (mod - 1)
	v := b.I
	if op == token.AND && v < 0 {
		op, v = token.AND_NOT, ^v
	}
	if op == token.SHR {
		if v < 0 || v > int64(p) {
			return nil
		}
		r := lin{k: l.k >> uint(v), co: map[*Term]int64{}}
		for t, k := range l.co {
			r.co[t] = k >> uint(v)
		}
		return c.fromLin(r)
	}
	if v < 0 || v >= mod {
		return nil
	}
	switch op {
	case token.AND:
		return c.Int(low & v)
	case token.OR:
		return c.AddK(a, (low|v)-low)
	case token.AND_NOT:
		return c.AddK(a, (low&^v)-low)
	}
	return nil
}

func (m *Mach) bvop(nm string, w int, a, b *Term) *Term {
	c := m.c
	f := fmt.Sprintf("bv:%s%d", nm, w)
	if _, ok := c.Funs[f]; !ok {
		in := fmt.Sprintf("((_ int2bv %d) x)", w)
		in2 := fmt.Sprintf("((_ int2bv %d) y)", w)
		body := fmt.Sprintf("(%s %s %s)", nm, in, in2)
		if nm == "bvandn" {
			body = fmt.Sprintf("(bvand %s (bvnot %s))", in, in2)
		}
		c.Funs[f] = &FunDecl{f, []string{"Int", "Int"}, "Int"}
		m.sess.decl(fmt.Sprintf("(define-fun %s ((x Int) (y Int)) Int (bv2nat %s))", symName(f), body))
	}
	return c.intern(&Term{Op: "app", Name: f, Args: []*Term{a, b}, Sort: "Int"})
}

// ---- strings ----

func (m *Mach) smtFn(op, ret string, args ...*Term) *Term {
	return m.c.intern(&Term{Op: "smt:" + op, Name: op, Args: args, Sort: ret})
}

func (m *Mach) concat(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return m.c.Str(a.Name + b.Name)
	}
	if a.Op == "str" && a.Name == "" {
		return b
	}
	if b.Op == "str" && b.Name == "" {
		return a
	}
	if m.c.UseStr {
		return m.smtFn("str.++", "Str", a, b)
	}
	var ls []*Term
	for _, l := range append(m.strLeaves(a), m.strLeaves(b)...) {
		if n := len(ls); n > 0 && ls[n-1].Op == "str" && l.Op == "str" {
			ls[n-1] = m.c.Str(ls[n-1].Name + l.Name)
			continue
		}
		ls = append(ls, l)
	}
	return m.joinLeaves(ls)
}

// strLeaves: the parts of a concatenation, in order.
func (m *Mach) strLeaves(s *Term) []*Term {
	if s.Op == "app" && s.Name == "concat" {
		return append(m.strLeaves(s.Args[0]), m.strLeaves(s.Args[1])...)
	}
	if s.Op == "str" && s.Name == "" {
		return nil
	}
	return []*Term{s}
}

func (m *Mach) joinLeaves(ls []*Term) *Term {
	if len(ls) == 0 {
		return m.c.Str("")
	}
	r := ls[len(ls)-1]
	for i := len(ls) - 2; i >= 0; i-- {
		r = m.c.App("concat", "Str", ls[i], r)
		if i == 0 && m.pure == 0 && m.probe == 0 && !r.hasBV {
			m.sess.Assert(m.c.Eq(m.c.intern(&Term{Op: "strlen", Name: "strlen", Args: []*Term{r}, Sort: "Int"}), m.strlen(r)))
		}
	}
	return r
}

func (m *Mach) strLess(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return m.c.Bool(a.Name < b.Name)
	}
	if m.c.UseStr {
		return m.smtFn("str.<", "Bool", a, b)
	}
	return m.c.App("strless", "Bool", a, b)
}

func (m *Mach) strAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.I >= 0 && i.I < int64(len(s.Name)) {
		return m.c.Int(int64(s.Name[i.I]))
	}
	if m.c.UseStr {
		return m.smtFn("str.to_code", "Int", m.smtFn("str.at", "Str", s, i))
	}
	if i.Op == "int" && i.I >= 0 {
		if ls := m.strLeaves(s); len(ls) > 1 && ls[0].Op == "str" && i.I < int64(len(ls[0].Name)) {
			return m.c.Int(int64(ls[0].Name[i.I]))
		}
	}
	return m.c.App("strat", "Int", s, i)
}

// lastIndex: where the character sub occurs last in s, if the parts of s tell.
func (m *Mach) lastIndex(s *Term, sub string) *Term {
	if m.c.UseStr || len(sub) != 1 {
		return nil
	}
	ls := m.strLeaves(s)
	for i := len(ls) - 1; i >= 0; i-- {
		l := ls[i]
		switch {
		case l.Op == "str":
			if at := strings.LastIndex(l.Name, sub); at >= 0 {
				pos := m.c.Int(0)
				for _, x := range ls[:i] {
					pos = m.c.Add(pos, m.strlen(x))
				}
				return m.c.AddK(pos, int64(at))
			}
		case l.Op == "app" && l.Name == "strconv.Itoa" && !strings.Contains("-0123456789", sub):
		default:
			return nil
		}
	}
	return m.c.Int(-1)
}

func (m *Mach) substr(s, a, b *Term) *Term {
	if a.Op == "int" && a.I == 0 && b == m.strlen(s) {
		return s
	}
	if a == b {
		return m.c.Str("")
	}
	if s.Op == "str" && a.Op == "int" && b.Op == "int" && 0 <= a.I && a.I <= b.I && b.I <= int64(len(s.Name)) {
		return m.c.Str(s.Name[a.I:b.I])
	}
	if m.c.UseStr {
		return m.smtFn("str.substr", "Str", s, a, m.c.Sub(b, a))
	}
	if s.Op == "app" && s.Name == "concat" {
		// cut at the boundaries of the parts
		ls := m.strLeaves(s)
		pos, from, to := m.c.Int(0), -1, -1
		for i := 0; i <= len(ls); i++ {
			if pos == a && from < 0 {
				from = i
			}
			if pos == b {
				to = i
			}
			if i < len(ls) {
				pos = m.c.Add(pos, m.strlen(ls[i]))
			}
		}
		if from >= 0 && to >= from {
			return m.joinLeaves(ls[from:to])
		}
	}
	r := m.c.App("substr", "Str", s, a, b)
	if m.pure == 0 && m.probe == 0 && !r.hasBV {
		m.sess.Assert(m.c.Implies(m.c.And(m.c.Le(m.c.Int(0), a), m.c.Le(a, b), m.c.Le(b, m.strlen(s))), m.c.Eq(m.strlen(r), m.c.Sub(b, a))))
		m.sess.Assert(m.c.Implies(m.c.And(m.c.Eq(a, m.c.Int(0)), m.c.Eq(b, m.strlen(s))), m.c.Eq(r, s)))
	}
	return r
}

// ---- index, slice, assertions, composites ----

func (m *Mach) evalIndex(st *State, fr *Frame, e *ast.IndexExpr, commaOk bool, k func(*State, Val, Val)) {
	// generic instantiation
	if tv, ok := m.p.Info.Types[e.Index]; ok && tv.IsType() {
		m.evalIdentLike(st, fr, e.X, func(st *State, v Val) { k(st, v, Val{}) })
		return
	}
	bt := types.Typ[types.Bool]
	m.eval(st, fr, e.X, func(st *State, x Val) {
		m.eval(st, fr, e.Index, func(st *State, i Val) {
			switch u := types.Unalias(x.T).Underlying().(type) {
			case *types.Map:
				key := m.mapKey(i, u.Key())
				has := m.c.Select(m.mapHas(st, x.T, x.X), key)
				val := m.c.Select(m.mapVal(st, x.T, x.X), key)
				m.mapFacts(st, x.T, x.X, key)
				if isEmptyStruct(u.Elem()) {
					k(st, m.zero(u.Elem()), Val{T: bt, X: has})
					return
				}
				zero := m.zero(u.Elem())
				v := m.refn(Val{T: u.Elem(), X: m.c.Ite(has, val, zero.X)})
				if !has.hasBV {
					if _, ok := u.Elem().Underlying().(*types.Signature); !ok {
						m.wf(st, Val{T: u.Elem(), X: val})
					}
				}
				k(st, v, Val{T: bt, X: has})
			case *types.Slice:
				m.chk(st, e, m.c.And(m.c.Le(m.c.Int(0), i.X), m.c.Lt(i.X, m.c.Proj("sl_len", x.X))), "index out of range", func(st *State) {
					k(st, m.loadElem(st, u.Elem(), m.c.Proj("sl_arr", x.X), m.c.Add(m.c.Proj("sl_off", x.X), i.X)), Val{})
				})
			case *types.Basic: // string
				m.chk(st, e, m.c.And(m.c.Le(m.c.Int(0), i.X), m.c.Lt(i.X, m.strlen(x.X))), "index out of range", func(st *State) {
					v := Val{T: types.Typ[types.Uint8], X: m.strAt(x.X, i.X)}
					m.wf(st, v)
					k(st, v, Val{})
				})
			case *types.Array:
				m.chk(st, e, m.c.And(m.c.Le(m.c.Int(0), i.X), m.c.Lt(i.X, m.c.Int(u.Len()))), "index out of range", func(st *State) {
					if len(x.F) > 0 {
						r := x.F[len(x.F)-1]
						for j := len(x.F) - 2; j >= 0; j-- {
							r = m.iteVal(m.c.Eq(i.X, m.c.Int(int64(j))), x.F[j], r)
						}
						k(st, r, Val{})
						return
					}
					k(st, Val{T: u.Elem(), X: m.c.App("arrayat:"+m.sortOf(u.Elem()), m.sortOf(u.Elem()), x.X, i.X)}, Val{})
				})
			default:
				m.unsup(e, "index of %s", x.T)
			}
		})
	})
}

func (m *Mach) mapKey(v Val, kt types.Type) *Term {
	v = m.scalarFn(m.coerce(v, kt))
	if v.F != nil {
		panic(unsupported{"struct map key"})
	}
	return v.X
}

func (m *Mach) evalSlice(st *State, fr *Frame, e *ast.SliceExpr, k K) {
	opt := func(st *State, x ast.Expr, d *Term, k func(*State, *Term)) {
		if x == nil {
			k(st, d)
			return
		}
		m.eval(st, fr, x, func(st *State, v Val) { k(st, v.X) })
	}
	c := m.c
	m.eval(st, fr, e.X, func(st *State, x Val) {
		t := m.typeOf(e)
		if m.sortOf(x.T) == "Str" {
			l := m.strlen(x.X)
			opt(st, e.Low, c.Int(0), func(st *State, lo *Term) {
				opt(st, e.High, l, func(st *State, hi *Term) {
					m.chk(st, e, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, l)), "slice bounds out of range", func(st *State) {
						k(st, Val{T: t, X: m.substr(x.X, lo, hi)})
					})
				})
			})
			return
		}
		if m.sortOf(x.T) != "Sl" {
			m.unsup(e, "slice of %s", x.T)
		}
		ln, cp := c.Proj("sl_len", x.X), c.Proj("sl_cap", x.X)
		opt(st, e.Low, c.Int(0), func(st *State, lo *Term) {
			opt(st, e.High, ln, func(st *State, hi *Term) {
				opt(st, e.Max, cp, func(st *State, mx *Term) {
					m.chk(st, e, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "slice bounds out of range", func(st *State) {
						k(st, Val{T: t, X: c.Ctor("sl", "Sl", c.Proj("sl_arr", x.X), c.Add(c.Proj("sl_off", x.X), lo), c.Sub(hi, lo), c.Sub(mx, lo))})
					})
				})
			})
		})
	})
}

func (m *Mach) evalAssert(st *State, fr *Frame, e *ast.TypeAssertExpr, commaOk bool, k func(*State, Val, Val)) {
	t := m.typeOf(e)
	if commaOk {
		if tp, ok := t.(*types.Tuple); ok {
			t = tp.At(0).Type()
		}
	}
	m.eval(st, fr, e.X, func(st *State, x Val) {
		m.assertTo(st, e, x, t, commaOk, k)
	})
}

func (m *Mach) typeCond(st *State, x *Term, t types.Type) *Term {
	if isIface(t) {
		tag := m.knownTag(st, x)
		return m.Impl(t, tag)
	}
	return m.isType(x, t)
}

func (m *Mach) knownTag(st *State, x *Term) *Term {
	if t, ok := st.tags[x]; ok {
		return m.tagOf(t)
	}
	return m.c.Tag(x)
}

func (m *Mach) assertTo(st *State, n ast.Node, x Val, t types.Type, commaOk bool, k func(*State, Val, Val)) {
	cond := m.typeCond(st, x.X, t)
	bt := types.Typ[types.Bool]
	if commaOk {
		var v Val
		if isIface(t) {
			v = Val{T: t, X: m.c.Ite(cond, x.X, m.c.Ctor("VNil", "V"))}
		} else if m.sortOf(t) == "struct" {
			v = m.iteVal(cond, m.unbox(x.X, t), m.zero(t))
		} else {
			u, z := m.unbox(x.X, t), m.zero(t)
			v = m.refn(Val{T: t, X: m.c.Ite(cond, u.X, z.X)})
		}
		k(st, v, Val{T: bt, X: cond})
		return
	}
	m.chk(st, n, cond, "interface conversion to "+types.TypeString(t, types.RelativeTo(m.p.Pkg)), func(st *State) {
		if isIface(t) {
			k(st, Val{T: t, X: x.X}, Val{})
			return
		}
		v := m.unbox(x.X, t)
		m.wf(st, v)
		k(st, v, Val{})
	})
}

func (m *Mach) evalComposite(st *State, fr *Frame, e *ast.CompositeLit, k K) {
	t := m.typeOf(e)
	if el, isPtr := derefType(t); isPtr { // elided &T in nested literals
		m.compositeOf(st, fr, e, el, func(st *State, v Val) {
			a := m.newAddr(st)
			m.storeStruct(st, el, a, v)
			k(st, Val{T: t, X: a})
		})
		return
	}
	m.compositeOf(st, fr, e, t, k)
}

func (m *Mach) compositeOf(st *State, fr *Frame, e *ast.CompositeLit, t types.Type, k K) {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		s, _ := m.localStruct(t)
		if s == nil {
			k(st, m.zeroOpaque(t, e))
			return
		}
		v := m.zero(t)
		var idx []int
		var es []ast.Expr
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < s.NumFields(); j++ {
					if s.Field(j).Name() == name {
						idx = append(idx, j)
					}
				}
				es = append(es, kv.Value)
			} else {
				idx = append(idx, i)
				es = append(es, el)
			}
		}
		m.evalList(st, fr, es, func(st *State, vs []Val) {
			r := Val{T: t, F: append([]Val(nil), v.F...)}
			for i, x := range vs {
				r.F[idx[i]] = m.coerce(x, s.Field(idx[i]).Type())
			}
			k(st, r)
		})
	case *types.Array:
		s, _ := m.localStruct(t)
		if s == nil {
			m.unsup(e, "composite literal of %s", t)
		}
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				m.unsup(e, "keyed array literal")
			}
		}
		z := m.zero(t)
		m.evalList(st, fr, e.Elts, func(st *State, vs []Val) {
			r := Val{T: t, F: append([]Val(nil), z.F...)}
			for i, x := range vs {
				r.F[i] = m.coerce(x, u.Elem())
			}
			k(st, r)
		})
	case *types.Slice:
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				m.unsup(e, "keyed slice literal")
			}
		}
		m.evalList(st, fr, e.Elts, func(st *State, vs []Val) {
			k(st, Val{T: t, X: m.sliceOf(st, u.Elem(), vs)})
		})
	case *types.Map:
		var ks, vs []ast.Expr
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			ks = append(ks, kv.Key)
			vs = append(vs, kv.Value)
		}
		m.evalList(st, fr, ks, func(st *State, kv []Val) {
			m.evalList(st, fr, vs, func(st *State, vv []Val) {
				a := m.newMap(st, t)
				for i := range kv {
					m.mapStore(st, t, a, m.mapKey(kv[i], u.Key()), m.scalarFn(m.coerce(vv[i], u.Elem())).X)
				}
				k(st, Val{T: t, X: a})
			})
		})
	default:
		m.unsup(e, "composite literal of %s", t)
	}
}

func (m *Mach) zeroOpaque(t types.Type, e *ast.CompositeLit) Val {
	if len(e.Elts) != 0 {
		m.unsup(e, "literal of external struct %s", t)
	}
	return m.zero(t)
}

// sliceOf allocates a slice holding vs.
func (m *Mach) sliceOf(st *State, elem types.Type, vs []Val) *Term {
	c := m.c
	a := m.newAddr(st)
	n := c.Int(int64(len(vs)))
	m.zeroArray(st, elem, a)
	for i, v := range vs {
		m.storeElem(st, elem, a, c.Int(int64(i)), v)
	}
	return c.Ctor("sl", "Sl", a, c.Int(0), n, n)
}

func (m *Mach) zeroArray(st *State, elem types.Type, a *Term) {
	keys, sorts := m.elemComps(elem)
	for i, key := range keys {
		var z *Term
		if s, _ := m.localStruct(elem); s != nil {
			z = m.zero(s.Field(i).Type()).X
		} else {
			z = m.zero(elem).X
		}
		m.comp(st, key, arrSort("Int", arrSort("Int", sorts[i])))
		m.setComp(st, key, a, m.c.ConstArr(arrSort("Int", sorts[i]), z), "")
	}
}

func (m *Mach) mapStore(st *State, t types.Type, addr, key, val *Term) {
	c := m.c
	if val == nil { // the element of a set
		val = c.Int(0)
	}
	has, vals, ln := m.mapHas(st, t, addr), m.mapVal(st, t, addr), m.mapLen(st, t, addr)
	was := c.Select(has, key)
	m.mapSet(st, t, addr, c.Store(has, key, c.True), c.Store(vals, key, val), c.Add(ln, c.Ite(was, c.Int(0), c.Int(1))))
}

func (m *Mach) mapDelete(st *State, t types.Type, addr, key *Term) {
	c := m.c
	has, ln := m.mapHas(st, t, addr), m.mapLen(st, t, addr)
	m.mapFacts(st, t, addr, key)
	was := c.Select(has, key)
	m.mapSet(st, t, addr, c.Store(has, key, c.False), nil, c.Sub(ln, c.Ite(was, c.Int(1), c.Int(0))))
}
