package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

var intrinsics = map[string]bool{
	"vRequires": true, "vEnsures": true, "vCall": true, "vForall": true, "vExists": true, "vAll": true, "vAny": true,
	"vImplies": true, "vIff": true, "vSnap": true, "vSnapMap": true, "vEmit": true, "vTraceLen": true, "vEvent": true,
	"vEvKind": true, "vEvArg": true, "vFresh": true, "vSame": true, "vSep": true, "vApart": true, "vWeak": true, "vBorn": true, "vModifies": true, "vElems": true, "vKeys": true,
	"vObj": true, "vTrace": true, "vOldLoop": true, "vAtStart": true, "vVisited": true, "vPure": true, "vOld": true,
	"vLockFree": true, "vLockHeld": true, "vRLockHeld": true, "vMerge": true, "vTypeID": true, "vPickInt": true, "vPickBool": true, "vPickAny": true,
	"vElemsCur": true, "vUF": true, "vUFB": true, "vAssert": true, "vHint": true, "vTrig": true, "vSum": true, "vFold": true, "vFoldBy": true,
}

func (m *Mach) isIntrinsic(f *types.Func) bool {
	return intrinsics[f.Name()] && f.Pkg() == m.p.Pkg && f.Type().(*types.Signature).Recv() == nil
}

func (m *Mach) strConst(e ast.Expr) string {
	v := m.p.Info.Types[e].Value
	if v == nil {
		return "?"
	}
	return strings.Trim(v.ExactString(), "\"")
}

// closureTerm evaluates closure expression e on the given arguments as a pure term.
func (m *Mach) closureVal(st *State, fr *Frame, e ast.Expr, args []Val, rt types.Type) Val {
	return m.mergePure(st, func(s *State, k K) {
		m.eval(s, fr, e, func(s *State, fv Val) {
			m.callValue(s, e, fr, fv, args, func(s *State, vs []Val) {
				if len(vs) == 0 {
					k(s, Val{})
					return
				}
				k(s, vs[0])
			})
		})
	}, rt)
}

// tryPure evaluates a postcondition as one term; false if it has effects or loops.
func (m *Mach) tryPure(st *State, fr *Frame, e ast.Expr) (t *Term, ok bool) {
	effects := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if id, is := c.Fun.(*ast.Ident); is && id.Name == "vCall" {
				effects = true
			}
			// the code under test may panic: not a mathematical expression
			var f types.Object
			switch x := ast.Unparen(c.Fun).(type) {
			case *ast.Ident:
				f = m.p.Info.Uses[x]
			case *ast.SelectorExpr:
				f = m.p.Info.Uses[x.Sel]
			}
			if fn, is := f.(*types.Func); is && fn.Pkg() == m.p.Pkg && !m.p.inSpec(fn.Pos()) {
				effects = true
			}
		}
		return true
	})
	if effects && m.pure == 0 {
		return nil, false
	}
	pure, probe, goal, inv, nt := m.pure, m.probe, m.goal, m.invCtx, len(m.trigs)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pureAbort); is && pure == 0 && probe == 0 {
				m.pure, m.probe, m.goal, m.invCtx, m.trigs = pure, probe, goal, inv, m.trigs[:nt]
				ok = false
				return
			}
			panic(r)
		}
	}()
	m.goal++
	t = m.evalPure(st, fr, e).X
	m.goal--
	return t, true
}

func (m *Mach) intrinsic(st *State, fr *Frame, e *ast.CallExpr, name string, k KV) {
	c := m.c
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	retB := func(x *Term) { k(st, []Val{{T: bt, X: x}}) }
	retI := func(x *Term) { k(st, []Val{{T: it, X: x}}) }
	switch name {
	case "vRequires":
		if m.applying != nil && m.applying.frame == fr {
			saved := m.applying
			m.applying = nil
			t := m.evalPure(st, fr, e.Args[0]).X
			m.applying = saved
			m.oblige(st, fmt.Sprintf("call %s requires@%s", saved.key, m.lineless(saved.site, fr)), t, "precondition of "+saved.key)
			m.assume(st, t)
			k(st, nil)
			return
		}
		t := m.evalPure(st, fr, e.Args[0]).X
		m.assume(st, t)
		k(st, nil)
	case "vEnsures", "vAssert":
		if m.applying != nil && m.applying.frame == fr {
			saved := m.applying
			m.applying = nil
			t := m.evalPure(st, fr, e.Args[1]).X
			m.applying = saved
			m.assume(st, t)
			k(st, nil)
			return
		}
		if t, ok := m.tryPure(st, fr, e.Args[1]); ok {
			m.oblige(st, m.strConst(e.Args[0]), t, "postcondition")
			if name == "vAssert" { // once shown it may be used
				m.assume(st, t)
			}
			k(st, nil)
			return
		}
		m.eval(st, fr, e.Args[1], func(st *State, v Val) {
			m.oblige(st, m.strConst(e.Args[0]), v.X, "postcondition")
			k(st, nil)
		})
	case "vHint":
		m.evalPure(st, fr, e.Args[0])
		k(st, nil)
	case "vPure":
		k(st, []Val{m.evalPure(st, fr, e.Args[0])})
	case "vMerge":
		if v, ok := m.tryMerge(st, fr, e.Args[0]); ok {
			k(st, []Val{v})
			return
		}
		m.eval(st, fr, e.Args[0], func(st *State, v Val) { k(st, []Val{v}) })
	case "vCall":
		m.vcall(st, fr, e, k)
	case "vForall", "vExists":
		lo, hi := m.evalPure(st, fr, e.Args[0]).X, m.evalPure(st, fr, e.Args[1]).X
		if lo.Op == "int" && hi.Op == "int" && hi.I-lo.I <= 6 {
			var ts []*Term
			for i := lo.I; i < hi.I; i++ {
				ts = append(ts, m.closureVal(st, fr, e.Args[2], []Val{{T: it, X: c.Int(i)}}, bt).X)
			}
			if name == "vForall" {
				retB(c.And(ts...))
			} else {
				retB(c.Or(ts...))
			}
			return
		}
		i := c.BoundVar("i", "Int")
		body, trig := m.trigBody(func() *Term { return m.closureVal(st, fr, e.Args[2], []Val{{T: it, X: i}}, bt).X })
		rng := c.And(c.Le(lo, i), c.Lt(i, hi))
		if name == "vForall" {
			retB(m.quant(i, c.Implies(rng, body), trig))
		} else {
			retB(c.Not(m.quant(i, c.Implies(rng, c.Not(body)), trig)))
		}
	case "vSum":
		// sum of f(i) for 0 <= i < n, as a function of n defined by its unfolding
		n := m.evalPure(st, fr, e.Args[0]).X
		i := c.intern(&Term{Op: "bound", Name: fmt.Sprintf("sum?%d", m.sumDepth), Sort: "Int"})
		m.sumDepth++
		body := m.closureVal(st, fr, e.Args[1], []Val{{T: it, X: i}}, it).X
		m.sumDepth--
		k(st, []Val{{T: it, X: m.sum(body, i, n)}})
	case "vFold", "vFoldBy":
		// iteration from an initial value; vFoldBy has a parameter, so that the same function serves every value of it
		n := m.evalPure(st, fr, e.Args[0]).X
		t := m.typeOf(e)
		init := m.coerce(m.evalPure(st, fr, e.Args[1]), t).X
		i := c.intern(&Term{Op: "bound", Name: fmt.Sprintf("fold?%d", m.sumDepth), Sort: "Int"})
		acc := c.intern(&Term{Op: "bound", Name: fmt.Sprintf("facc?%d", m.sumDepth), Sort: init.Sort})
		args := []Val{{T: t, X: acc}, {T: it, X: i}}
		var ps, as []*Term
		if name == "vFoldBy" {
			v := m.evalPure(st, fr, e.Args[3])
			p := c.intern(&Term{Op: "bound", Name: fmt.Sprintf("fpar?%d", m.sumDepth), Sort: v.X.Sort})
			args = append(args, Val{T: v.T, X: p})
			ps, as = []*Term{p}, []*Term{v.X}
		}
		m.sumDepth++
		body := m.coerce(m.closureVal(st, fr, e.Args[2], args, t), t).X
		m.sumDepth--
		k(st, []Val{{T: t, X: m.fold(init, body, acc, i, n, ps, as)}})
	case "vAll", "vAny":
		sig := m.p.Info.TypeOf(e.Args[0]).Underlying().(*types.Signature)
		pt := sig.Params().At(0).Type()
		x := c.BoundVar("x", m.sortOf(pt))
		body, trig := m.trigBody(func() *Term { return m.closureVal(st, fr, e.Args[0], []Val{{T: pt, X: x}}, bt).X })
		if name == "vAll" {
			retB(m.quant(x, body, trig))
		} else {
			retB(c.Not(m.quant(x, c.Not(body), trig)))
		}
	case "vTrig":
		b := m.evalPure(st, fr, e.Args[0]).X
		for _, a := range e.Args[1:] {
			v := m.scalarFn(m.evalPure(st, fr, a))
			if n := len(m.trigs); n > 0 && v.X != nil {
				x := v.X
				for x.Op == "ctor" && x.Sort == "V" && len(x.Args) == 2 { // boxed into any
					x = x.Args[1]
				}
				m.trigs[n-1] = append(m.trigs[n-1], x)
			}
		}
		retB(b)
	case "vImplies", "vIff":
		a, b := m.evalPure(st, fr, e.Args[0]).X, (*Term)(nil)
		if name == "vImplies" && a == c.False {
			retB(c.True)
			return
		}
		b = m.evalPure(st, fr, e.Args[1]).X
		if name == "vImplies" {
			retB(c.Implies(a, b))
		} else {
			retB(c.Eq(a, b))
		}
	case "vBorn": // the object exists (natively trivial)
		a := m.evalPure(st, fr, e.Args[0])
		ref := a.X
		if a.T != nil {
			if _, ok := a.T.Underlying().(*types.Slice); ok {
				ref = c.Proj("sl_arr", ref)
				retB(c.And(c.Le(c.Int(0), ref), c.LeRaw(ref, st.alloc)))
				return
			}
		}
		retB(c.And(c.Le(c.Int(0), ref), c.Le(ref, st.alloc)))
	case "vWeak":
		a := m.evalPure(st, fr, e.Args[0])
		k(st, []Val{{T: m.typeOf(e), X: a.X}})
	case "vApart":
		a, b := m.evalPure(st, fr, e.Args[0]), m.evalPure(st, fr, e.Args[1])
		retB(c.Not(c.Eq(a.X, b.X)))
	case "vSep":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			k(st, []Val{{T: bt, X: c.Not(c.Eq(c.Proj("sl_arr", vs[0].X), c.Proj("sl_arr", vs[1].X)))}})
		})
	case "vSame":
		m.eval(st, fr, e.Args[0], func(st *State, a Val) {
			m.eval(st, fr, e.Args[1], func(st *State, b Val) {
				k(st, []Val{{T: bt, X: m.eqVal(a, b, e)}})
			})
		})
	case "vSnap":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			el := m.sliceElem(v.T)
			if s, _ := m.localStruct(el); s != nil {
				m.unsup(e, "snapshot of struct slice")
			}
			row := c.Select(m.mem(st, el), c.Proj("sl_arr", v.X))
			k(st, []Val{{T: m.typeOf(e), Q: &SeqV{Arr: row, Off: c.Proj("sl_off", v.X), Len: c.Proj("sl_len", v.X), Elem: el}}})
		})
	case "vSnapMap":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			mt := v.T.Underlying().(*types.Map)
			m.mapFacts(st, v.T, v.X, nil)
			k(st, []Val{{T: m.typeOf(e), Q: &SeqV{Arr: m.mapVal(st, v.T, v.X), Has: m.mapHas(st, v.T, v.X), Len: m.mapLen(st, v.T, v.X), Off: c.Int(0), Elem: mt.Elem()}}})
		})
	case "vEmit":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			m.emit(st, m.mkEvent(vs))
			k(st, nil)
		})
	case "vTraceLen":
		retI(m.traceLen(st))
	case "vEvent":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			ev := m.mkEvent(vs[1:])
			k(st, []Val{{T: bt, X: c.And(c.Le(c.Int(0), vs[0].X), c.Lt(vs[0].X, m.traceLen(st)), c.Eq(c.Select(m.traceArr(st), vs[0].X), ev))}})
		})
	case "vEvKind":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			k(st, []Val{{T: it, X: m.evProj("ev_k", c.Select(m.traceArr(st), v.X))}})
		})
	case "vEvArg":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			if vs[1].X.Op != "int" {
				m.unsup(e, "vEvArg index")
			}
			f := []string{"ev_a", "ev_b", "ev_c", "ev_d"}[vs[1].X.I]
			k(st, []Val{{T: m.typeOf(e), X: m.evProj(f, c.Select(m.traceArr(st), vs[0].X))}})
		})
	case "vFresh":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			var a *Term
			switch {
			case v.X.Sort == "Sl":
				a = c.Proj("sl_arr", v.X)
			case v.X.Sort == "V":
				a = c.Proj("vp_v", v.X)
			default:
				a = v.X
			}
			base := m.alloc0
			if m.applying != nil && m.applying.frame == fr {
				base = m.applying.alloc
			}
			k(st, []Val{{T: bt, X: c.Le(c.AddK(base, 1), a)}})
		})
	case "vElems", "vKeys", "vObj", "vElemsCur", "vTrace":
		m.unsup(e, "%s outside vModifies", name)
	case "vModifies":
		m.vmodifies(st, fr, e, k)
	case "vOldLoop", "vAtStart", "vOld":
		var hs map[string]*Term
		switch name {
		case "vOldLoop":
			if m.invCtx == nil {
				m.unsup(e, "vOldLoop outside a loop invariant")
			}
			hs = m.invCtx.entry.heap
		case "vAtStart":
			if m.invCtx == nil {
				m.unsup(e, "vAtStart outside a loop invariant")
			}
			hs = m.invCtx.start.heap
		case "vOld":
			hs = m.heap0
			if m.oldHeap != nil {
				hs = m.oldHeap
			}
		}
		s := st.clone()
		s.heap = map[string]*Term{}
		for kk, v := range hs {
			s.heap[kk] = v
		}
		v := m.closureVal(s, fr, e.Args[0], nil, m.typeOf(e))
		k(st, []Val{v})
	case "vVisited":
		if m.invCtx == nil || m.invCtx.vis == nil {
			m.unsup(e, "vVisited outside a map-range invariant")
		}
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			v = m.scalarFn(m.coerce(v, m.invCtx.visKey))
			k(st, []Val{{T: bt, X: c.Select(m.invCtx.vis, v.X)}})
		})
	case "vLockFree", "vLockHeld", "vRLockHeld":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			x := c.Select(m.comp(st, "K:lock", arrSort("Int", "Int")), v.X)
			switch name {
			case "vLockFree":
				k(st, []Val{{T: bt, X: c.Eq(x, c.Int(0))}})
			case "vLockHeld":
				k(st, []Val{{T: bt, X: c.Eq(x, c.Int(-1))}})
			default:
				k(st, []Val{{T: bt, X: c.Not(c.Eq(x, c.Int(0)))}})
			}
		})
	case "vPickInt":
		retI(c.Fresh("pick", "Int"))
	case "vPickBool":
		retB(c.Fresh("pick", "Bool"))
	case "vPickAny":
		v := m.freshVal("pick", m.typeOf(e))
		m.wf(st, v)
		k(st, []Val{v})
	case "vUF", "vUFB":
		// an uninterpreted function of its arguments (the same on both sides of a contract)
		m.evalList(st, fr, e.Args[1:], func(st *State, vs []Val) {
			var as []*Term
			for _, v := range vs {
				as = append(as, m.box(v))
			}
			s := "Bool"
			t := types.Type(bt)
			if name == "vUF" {
				s = "V"
				t = m.typeOf(e)
			}
			v := Val{T: t, X: c.App("uf:"+m.strConst(e.Args[0]), s, as...)}
			m.wf(st, v)
			k(st, []Val{v})
		})
	case "vTypeID":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			k(st, []Val{{T: it, X: c.Tag(m.box(v))}})
		})
	default:
		m.unsup(e, "intrinsic %s", name)
	}
}

func (m *Mach) lineless(n ast.Node, fr *Frame) string {
	if fr == nil || fr.Caller == nil {
		return ""
	}
	return fr.Caller.Name
}

func (m *Mach) evProj(f string, t *Term) *Term {
	if t.Op == "ite" {
		return m.c.Ite(t.Args[0], m.evProj(f, t.Args[1]), m.evProj(f, t.Args[2]))
	}
	return m.c.Proj(f, t)
}

// mkEvent builds an event: kind followed by at most four values.
func (m *Mach) mkEvent(vs []Val) *Term {
	c := m.c
	as := []*Term{vs[0].X}
	for _, v := range vs[1:] {
		as = append(as, m.box(v))
	}
	for len(as) < 5 {
		as = append(as, c.Ctor("VNil", "V"))
	}
	if len(as) > 5 {
		panic(unsupported{"event with more than four arguments"})
	}
	return c.Ctor("ev", "Ev", as...)
}

// quant builds forall x. body with patterns on array reads; bodies reading arrays at
// an offset are re-indexed so that every pattern is a plain variable index.
// trigBody evaluates a quantifier body, collecting the triggers it names.
func (m *Mach) trigBody(f func() *Term) (*Term, []*Term) {
	m.trigs = append(m.trigs, nil)
	n := len(m.trigs)
	defer func() { m.trigs = m.trigs[:n-1] }()
	b := f()
	return b, m.trigs[n-1]
}

func (m *Mach) quant(x *Term, body *Term, trig []*Term) *Term {
	c := m.c
	if body == c.True {
		return body
	}
	if len(trig) > 0 {
		for _, t := range trig {
			if t.Op == "select" && !t.Args[0].hasBV && x.Sort == "Int" && c.toLin(t.Args[1]).co[x] == 1 {
				off := c.Sub(t.Args[1], x)
				if off.hasBV || off == c.Int(0) {
					continue
				}
				j := c.BoundVar("j", "Int")
				sb := map[*Term]*Term{x: c.Sub(j, off)}
				var nt []*Term
				for _, y := range trig {
					nt = append(nt, c.Subst(y, sb))
				}
				return c.Forall([]*Term{j}, c.Subst(body, sb), [][]*Term{nt})
			}
		}
		return c.Forall([]*Term{x}, body, [][]*Term{trig})
	}
	if m.goal > 0 && x.Sort == "Int" {
		return c.Forall([]*Term{x}, body, m.plainPats(body, x))
	}
	if x.Sort != "Int" {
		return c.Forall([]*Term{x}, body, m.plainPats(body, x))
	}
	// offsets used
	offs := map[*Term]bool{}
	var order, outer []*Term // outer: the row or the offset depends on an enclosing quantifier
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.Op == "select" && (!t.Args[0].hasBV || !hasFree(t.Args[0], x)) {
			l := c.toLin(t.Args[1])
			if l.co[x] == 1 {
				off := c.Sub(t.Args[1], x)
				if !offs[off] && !(off.hasBV && hasFree(off, x)) {
					offs[off] = true
					if t.Args[0].hasBV || off.hasBV {
						outer = append(outer, off)
					} else {
						order = append(order, off)
					}
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(body)
	if len(order) == 0 && len(outer) > 0 {
		order = outer[:1]
	}
	if len(order) == 0 {
		return c.Forall([]*Term{x}, body, m.plainPats(body, x))
	}
	if len(order) > 3 {
		order = order[:3]
	}
	var out []*Term
	for _, off := range order {
		j := c.BoundVar("j", "Int")
		b := c.Subst(body, map[*Term]*Term{x: c.Sub(j, off)})
		out = append(out, c.Forall([]*Term{j}, b, m.plainPats(b, j)))
	}
	return c.And(out...)
}

// plainPats: alternative single-term patterns select(A, x) / f(..x..).
func (m *Mach) plainPats(body, x *Term) [][]*Term {
	var pats [][]*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[1] == x && (!t.Args[0].hasBV || !hasFree(t.Args[0], x)) {
			pats = append(pats, []*Term{t})
		}
		if t.Op == "app" && !strings.HasPrefix(t.Name, "bv:") {
			ok := true
			has := false
			for _, a := range t.Args {
				if a == x {
					has = true
				} else if a.hasBV {
					ok = false
				}
			}
			if ok && has {
				pats = append(pats, []*Term{t})
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(body)
	if len(pats) > 4 {
		pats = pats[:4]
	}
	if len(pats) == 0 {
		// any application whose only free bound variable is x
		var v2 func(t *Term)
		seen = map[*Term]bool{}
		v2 = func(t *Term) {
			if seen[t] || !t.hasBV || len(pats) > 0 {
				return
			}
			seen[t] = true
			for _, a := range t.Args {
				v2(a)
			}
			if len(pats) == 0 && (t.Op == "select" || t.Op == "app" && !strings.HasPrefix(t.Name, "bv:")) {
				fv := map[*Term]bool{}
				freeBV(t, map[*Term]bool{}, fv)
				if len(fv) == 1 && fv[x] && noArith(t, x) {
					pats = append(pats, []*Term{t})
				}
			}
		}
		v2(body)
	}
	return pats
}

func hasFree(t, x *Term) bool {
	fv := map[*Term]bool{}
	freeBV(t, map[*Term]bool{}, fv)
	return fv[x]
}

// noArith: x does not occur under an interpreted operation inside t.
func noArith(t, x *Term) bool {
	if t == x {
		return true
	}
	if !t.hasBV {
		return true
	}
	switch t.Op {
	case "select", "app", "ctor", "proj":
	default:
		return false
	}
	for _, a := range t.Args {
		if !noArith(a, x) {
			return false
		}
	}
	return true
}

// vcall runs a closure and reports whether it panicked.
func (m *Mach) vcall(st *State, fr *Frame, e *ast.CallExpr, k KV) {
	bt := types.Typ[types.Bool]
	m.eval(st, fr, e.Args[0], func(st *State, fv Val) {
		saved := st.ph
		st.ph = &handler{parent: saved, apply: m.applying, f: func(st *State, c *ctl) {
			st.ph = saved
			k(st, []Val{{T: bt, X: m.c.True}})
		}}
		m.callValue(st, e, fr, fv, nil, func(st *State, _ []Val) {
			st.ph = saved
			k(st, []Val{{T: bt, X: m.c.False}})
		})
	})
}

// vmodifies: in verification mode records the frame, in application mode havocs it.
func (m *Mach) vmodifies(st *State, fr *Frame, e *ast.CallExpr, k KV) {
	locs := m.modLocs(st, fr, e.Args)
	if m.applying != nil && m.applying.frame == fr {
		m.applying.mods = append(m.applying.mods, locs...)
		k(st, nil)
		return
	}
	old := m.frameMods
	m.frameMods = append(old[:len(old):len(old)], locs...)
	k(st, nil)
	m.frameMods = old
}

// checkFrame obliges the call under contract to have changed, of the memory that was
// there before, only what the contract says.
func (m *Mach) checkFrame(st, before *State) {
	c := m.c
	keys := make([]string, 0, len(st.heap))
	for key := range st.heap {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		h := st.heap[key]
		h0 := m.comp(before, key, h.Sort)
		if h == h0 || !strings.HasPrefix(h.Sort, "(Array Int") {
			continue
		}
		a := c.Fresh("a", "Int")
		cond := []*Term{c.LeRaw(a, before.alloc)}
		for _, l := range m.frameMods {
			if l.comp == key {
				cond = append(cond, c.Not(c.Eq(a, l.addr)))
			}
		}
		m.oblige(st, "changes only what its contract says: "+m.compName(key), c.Implies(c.And(cond...), c.Eq(c.Select(h, a), c.Select(h0, a))), "frame of "+m.rootKey)
	}
}

func (m *Mach) compName(key string) string { return key }

func (m *Mach) modLocs(st *State, fr *Frame, args []ast.Expr) []modLoc {
	c := m.c
	var out []modLoc
	addStruct := func(t types.Type, addr *Term) {
		var rec func(t types.Type, addr *Term)
		rec = func(t types.Type, addr *Term) {
			s, named := m.localStruct(t)
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if fs, _ := m.localStruct(ft); fs != nil {
					rec(ft, m.subAddr(named, s, i, addr))
					continue
				}
				out = append(out, modLoc{comp: m.fieldComp(named, s, i), addr: addr, sort: m.sortOf(ft)})
			}
		}
		rec(t, addr)
	}
	for _, a := range args {
		a = ast.Unparen(a)
		switch x := a.(type) {
		case *ast.CallExpr:
			id, _ := x.Fun.(*ast.Ident)
			if id == nil {
				m.unsup(a, "modifies location")
			}
			switch id.Name {
			case "vTrace":
				out = append(out, modLoc{comp: "T:len", addr: c.Int(0), sort: "Int"}, modLoc{comp: "T:arr", addr: c.Int(0), sort: arrSort("Int", "Ev")})
			case "vElems":
				v := m.evalPure(st, fr, x.Args[0])
				keys, sorts := m.elemComps(m.sliceElem(v.T))
				for i, key := range keys {
					out = append(out, modLoc{comp: key, addr: c.Proj("sl_arr", v.X), sort: arrSort("Int", sorts[i])})
				}
			case "vKeys":
				v := m.evalPure(st, fr, x.Args[0])
				ks, vs := m.mapKeys(v.T)
				out = append(out, modLoc{comp: "MH:" + ks + ":" + vs, addr: v.X, sort: arrSort(ks, "Bool")}, modLoc{comp: "MV:" + ks + ":" + vs, addr: v.X, sort: arrSort(ks, vs)}, modLoc{comp: "ML:" + ks + ":" + vs, addr: v.X, sort: "Int"})
			case "vObj":
				v := m.evalPure(st, fr, x.Args[0])
				el, ok := derefType(v.T)
				if !ok {
					m.unsup(a, "vObj of non-pointer")
				}
				addStruct(el, v.X)
			default:
				m.unsup(a, "modifies location")
			}
		case *ast.Ident:
			o, ok := m.p.Info.ObjectOf(x).(*types.Var)
			if !ok || o.Parent() != m.p.Pkg.Scope() {
				m.unsup(a, "modifies location")
			}
			out = append(out, modLoc{comp: "G:" + o.Name(), addr: c.Int(0), sort: m.sortOf(o.Type())})
		case *ast.SelectorExpr:
			sel := m.p.Info.Selections[x]
			if sel == nil || sel.Kind() != types.FieldVal {
				m.unsup(a, "modifies location")
			}
			path := sel.Index()
			s := st.clone()
			s.ph = nil
			m.pure++
			m.evalBase(s, fr, x.X, func(s *State, cu cursor) {
				m.walk(s, x, cu, path[:len(path)-1], func(s *State, cu cursor) {
					t, addr := cu.t, cu.addr
					if addr == nil {
						t, _ = derefType(cu.t)
						addr = cu.v.X
					}
					ss, named := m.localStruct(t)
					i := path[len(path)-1]
					ft := ss.Field(i).Type()
					if fs, _ := m.localStruct(ft); fs != nil {
						addStruct(ft, m.subAddr(named, ss, i, addr))
						return
					}
					out = append(out, modLoc{comp: m.fieldComp(named, ss, i), addr: addr, sort: m.sortOf(ft)})
				})
			})
			m.pure--
		default:
			m.unsup(a, "modifies location")
		}
	}
	return out
}

type applyCtx struct {
	key    string
	decl   *ast.FuncDecl
	frame  *Frame
	site   ast.Node
	alloc  *Term
	mods   []modLoc
	done   bool
	panics bool
	up     *applyCtx
}

// applyContract replaces a call by the contract of the callee: the contract function
// is executed with its target call havocked, requires proved and ensures assumed.
func (m *Mach) applyContract(st *State, n ast.Node, fr *Frame, key string, decl *ast.FuncDecl, recv *Val, args []Val, k KV) {
	if m.probe > 0 {
		panic(pureAbort{"contract application"})
	}
	m.applied[decl.Name.Name] = true
	f := m.newFrame(decl.Name.Name, fr)
	f.Decl = decl
	obj := m.p.Info.Defs[decl.Name].(*types.Func)
	sig := obj.Type().(*types.Signature)
	f.Sig = sig
	f.Spec = true
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	if sig.Params().Len() < len(all) {
		m.unsup(n, "contract %s has too few parameters", decl.Name.Name)
	}
	// extra parameters of the contract are ghost witnesses: not supported at call sites
	if sig.Params().Len() > len(all) {
		m.unsup(n, "contract %s has extra parameters", decl.Name.Name)
	}
	if o, ok := m.p.funcByKey(key); ok && o.Type().(*types.Signature).Results().Len() != sig.Results().Len() {
		m.unsup(n, "contract %s does not return the results of %s", decl.Name.Name, key)
	}
	as := make([]Val, len(all))
	for i := range all {
		pt := sig.Params().At(i).Type()
		// adapt an embedded receiver address to the contract's parameter type
		if isIface(pt) || !isIface(all[i].T) {
			as[i] = m.coerce(all[i], pt)
		} else {
			as[i] = m.unbox(all[i].X, pt)
		}
		as[i].T = pt
	}
	ctx := &applyCtx{key: key, decl: decl, frame: f, site: n, alloc: st.alloc, up: m.applying}
	m.applying = ctx
	oldHeap, curHeap := m.oldHeap, st.clone().heap
	m.oldHeap = curHeap
	restore := func() { m.applying, m.oldHeap = ctx.up, oldHeap }
	m.bindParams(st, f, decl.Type, as)
	m.runBody(st, f, sig, decl.Type, decl.Body, func(st *State, vs []Val) {
		cur := m.applying
		restore()
		if p, ok := st.vars[vkey{fr: f.id, aux: "panicked"}]; ok && p.X == m.c.True {
			m.panicTo(st, &ctl{kind: cPanic, why: "contract of " + key + " allows a panic"})
		} else {
			k(st, vs)
		}
		m.applying, m.oldHeap = cur, curHeap
	})
	m.applying, m.oldHeap = ctx.up, oldHeap
}

// contractCall is the havocked call of the target function inside its contract.
func (m *Mach) contractCall(st *State, n ast.Node, fr *Frame, f *types.Func, k KV) {
	ctx := m.applying
	before := st.clone()
	m.newAlloc(st)
	m.havocLocs(st, ctx.mods)
	for _, l := range ctx.mods {
		if l.comp == "T:arr" {
			m.traceGrows(st, before)
		}
	}
	sig := f.Type().(*types.Signature)
	ret := func(st *State) {
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			v := m.freshVal("r."+f.Name(), sig.Results().At(i).Type())
			m.wf(st, v)
			rs = append(rs, v)
		}
		k(st, rs)
	}
	// inside vCall the contract also describes the panicking outcome
	if st.ph != nil && st.ph.apply == ctx {
		m.fork(st, m.c.Fresh("panicked", "Bool"), func(st *State) {
			st.vars[vkey{fr: ctx.frame.id, aux: "panicked"}] = Val{T: types.Typ[types.Bool], X: m.c.True}
			m.panicTo(st, &ctl{kind: cPanic})
		}, ret)
		return
	}
	ret(st)
}

func (m *Mach) havocLocs(st *State, locs []modLoc) {
	for _, l := range locs {
		hv := m.c.Fresh("hv", l.sort)
		m.born[hv] = st.alloc
		m.setComp(st, l.comp, l.addr, hv, l.sort)
	}
}

// sum: the partial sum of body (over i).
func (m *Mach) sum(body, i, n *Term) *Term {
	c := m.c
	acc := c.intern(&Term{Op: "bound", Name: "facc?" + i.Name, Sort: "Int"})
	return m.fold(c.Int(0), c.Add(acc, body), acc, i, n, nil, nil)
}

// fold: the value of iterating body (over acc and i) n times from init, unfolded once at a closed n.
func (m *Mach) fold(init, body, acc, i, n *Term, ps, as []*Term) *Term {
	c := m.c
	fv := map[*Term]bool{}
	freeBV(body, map[*Term]bool{i: true, acc: true}, fv)
	freeBV(init, map[*Term]bool{}, fv)
	var bs []*Term
	for b := range fv {
		bs = append(bs, b)
	}
	for _, p := range ps {
		delete(fv, p)
	}
	bs = bs[:0]
	for b := range fv {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(x, y int) bool { return bs[x].id < bs[y].id })
	bs = append(bs, ps...)
	name := fmt.Sprintf("sum:%d:%d:%s", init.id, body.id, i.Name)
	at := func(n *Term) *Term { return c.App(name, init.Sort, append([]*Term{n}, bs...)...) }
	steps := 1
	if n.Op == "int" && n.I <= 6 {
		steps = int(n.I)
	}
	s := at(n)
	if len(ps) > 0 {
		sb := map[*Term]*Term{}
		for j, p := range ps {
			sb[p] = as[j]
		}
		s = c.Subst(s, sb)
	}
	if n.hasBV {
		return s
	}
	for ; steps >= 0; steps-- {
		t, p := at(n), c.Sub(n, c.Int(1))
		pos := c.Lt(c.Int(0), n)
		ax := c.And(c.Implies(c.Not(pos), c.Eq(t, init)), c.Implies(pos, c.Eq(t, c.Subst(body, map[*Term]*Term{i: p, acc: at(p)}))))
		if len(bs) > 0 {
			ax = c.Forall(bs, ax, [][]*Term{{t}})
		}
		c.Axiom(fmt.Sprintf("%s:%d", name, n.id), ax)
		if n.Op != "int" || n.I <= 0 {
			break
		}
		n = p
	}
	return s
}

// specMethod evaluates methods of the contract-level types vSeq and vMap.
func (m *Mach) specMethod(st *State, fr *Frame, e *ast.CallExpr, sel *ast.SelectorExpr, s *types.Selection, k KV) bool {
	n, ok := types.Unalias(s.Recv()).(*types.Named)
	if !ok || n.Obj().Pkg() != m.p.Pkg {
		return false
	}
	name := n.Obj().Name()
	if name != "vSeq" && name != "vMap" {
		return false
	}
	c := m.c
	m.eval(st, fr, sel.X, func(st *State, q Val) {
		if q.Q == nil {
			m.unsup(e, "snapshot value expected")
		}
		m.evalList(st, fr, e.Args, func(st *State, as []Val) {
			switch sel.Sel.Name {
			case "Len":
				k(st, []Val{{T: types.Typ[types.Int], X: q.Q.Len}})
			case "At":
				v := Val{T: m.typeOf(e), X: c.Select(q.Q.Arr, c.Add(q.Q.Off, as[0].X))}
				v = m.coerce(Val{T: q.Q.Elem, X: v.X}, q.Q.Elem)
				m.wf(st, v)
				k(st, []Val{m.refn(v)})
			case "Has":
				mk := m.keyTerm(as[0], e, sel)
				k(st, []Val{{T: types.Typ[types.Bool], X: c.Select(q.Q.Has, mk)}})
			case "Get":
				mk := m.keyTerm(as[0], e, sel)
				v := Val{T: q.Q.Elem, X: c.Ite(c.Select(q.Q.Has, mk), c.Select(q.Q.Arr, mk), m.zero(q.Q.Elem).X)}
				m.wf(st, v)
				k(st, []Val{m.refn(v)})
			default:
				m.unsup(e, "snapshot method %s", sel.Sel.Name)
			}
		})
	})
	return true
}

func (m *Mach) keyTerm(v Val, e *ast.CallExpr, sel *ast.SelectorExpr) *Term {
	sig := m.p.Info.TypeOf(sel).(*types.Signature)
	return m.scalarFn(m.coerce(v, sig.Params().At(0).Type())).X
}

func (p *Program) funcByKey(key string) (*types.Func, bool) {
	for f := range p.Funcs {
		if FuncKey(f) == key {
			return f, true
		}
	}
	return nil, false
}
