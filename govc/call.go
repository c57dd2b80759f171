package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type KV func(*State, []Val)

func (m *Mach) evalCall(st *State, fr *Frame, e *ast.CallExpr, k KV) {
	fun := ast.Unparen(e.Fun)
	// conversion
	if tv, ok := m.p.Info.Types[fun]; ok && tv.IsType() {
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			k(st, []Val{m.convert(st, e, v, tv.Type)})
		})
		return
	}
	// builtin
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := m.p.Info.ObjectOf(id).(*types.Builtin); ok {
			m.builtin(st, fr, e, b.Name(), k)
			return
		}
	}
	// generic instantiation f[T](...)
	switch x := fun.(type) {
	case *ast.IndexExpr:
		if tv, ok := m.p.Info.Types[x.Index]; ok && tv.IsType() {
			fun = ast.Unparen(x.X)
		}
	case *ast.IndexListExpr:
		fun = ast.Unparen(x.X)
	}
	resT := m.resultTypes(e)
	coerceK := func(st *State, vs []Val) {
		for i := range vs {
			if i < len(resT) {
				vs[i] = m.coerce(vs[i], resT[i])
			}
		}
		k(st, vs)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if f, ok := m.p.Info.ObjectOf(id).(*types.Func); ok {
			if m.isIntrinsic(f) {
				m.intrinsic(st, fr, e, f.Name(), k)
				return
			}
			m.evalArgs(st, fr, e, f.Type().(*types.Signature), func(st *State, args []Val) {
				m.callFunc(st, e, fr, f, nil, args, coerceK)
			})
			return
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		s := m.p.Info.Selections[sel]
		if s == nil {
			if f, ok := m.p.Info.ObjectOf(sel.Sel).(*types.Func); ok {
				m.evalArgs(st, fr, e, f.Type().(*types.Signature), func(st *State, args []Val) {
					m.callFunc(st, e, fr, f, nil, args, coerceK)
				})
				return
			}
		} else if s.Kind() == types.MethodVal {
			if m.specMethod(st, fr, e, sel, s, k) {
				return
			}
			m.evalRecv(st, fr, sel, s, func(st *State, recv Val, f *types.Func) {
				m.evalArgs(st, fr, e, m.p.Info.TypeOf(fun).(*types.Signature), func(st *State, args []Val) {
					m.callFunc(st, e, fr, f, &recv, args, coerceK)
				})
			})
			return
		}
	}
	// function value
	m.eval(st, fr, fun, func(st *State, fv Val) {
		sig, _ := fv.T.Underlying().(*types.Signature)
		m.evalArgs(st, fr, e, sig, func(st *State, args []Val) {
			m.callValue(st, e, fr, fv, args, coerceK)
		})
	})
}

func (m *Mach) resultTypes(e *ast.CallExpr) []types.Type {
	t := m.p.Info.TypeOf(e)
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.Tuple); ok {
		var r []types.Type
		for i := 0; i < tp.Len(); i++ {
			r = append(r, tp.At(i).Type())
		}
		return r
	}
	return []types.Type{t}
}

func (m *Mach) evalArgs(st *State, fr *Frame, e *ast.CallExpr, sig *types.Signature, k KV) {
	fin := func(st *State, vs []Val) {
		if sig == nil {
			k(st, vs)
			return
		}
		n := sig.Params().Len()
		if sig.Variadic() && !e.Ellipsis.IsValid() {
			fixed := append([]Val(nil), vs[:n-1]...)
			rest := vs[n-1:]
			vt := sig.Params().At(n - 1).Type()
			el := m.sliceElem(vt)
			var x *Term
			if len(rest) == 0 {
				x = m.nilSlice()
			} else {
				var rs []Val
				for _, r := range rest {
					rs = append(rs, m.coerce(r, el))
				}
				x = m.sliceOf(st, el, rs)
			}
			vs = append(fixed, Val{T: vt, X: x})
		}
		out := make([]Val, len(vs))
		for i := range vs {
			if i < n {
				out[i] = m.coerce(vs[i], sig.Params().At(i).Type())
			} else {
				out[i] = vs[i]
			}
		}
		k(st, out)
	}
	if len(e.Args) == 1 {
		if t, ok := m.p.Info.TypeOf(e.Args[0]).(*types.Tuple); ok {
			_ = t
			m.evalCall(st, fr, ast.Unparen(e.Args[0]).(*ast.CallExpr), fin)
			return
		}
	}
	m.evalList(st, fr, e.Args, fin)
}

func (m *Mach) convert(st *State, n ast.Node, v Val, t types.Type) Val {
	src := types.Unalias(v.T)
	if isIface(t) {
		return m.coerce(v, t)
	}
	ss, ds := m.sortOf(src), m.sortOf(t)
	if isNilT(src) {
		return m.zero(t)
	}
	if isInt(t) && isInt(src) {
		return Val{T: t, X: m.wrapInt(v.X, t)}
	}
	if isInt(t) && isFloat(src) || isFloat(t) && (isInt(src) || isFloat(src)) {
		return Val{T: t, X: m.c.App("conv:"+typeKey(src)+">"+typeKey(t), "Int", v.X)}
	}
	if ds == "Str" && ss == "Str" || ss == ds && ss != "Sl" && ss != "Int" {
		v.T = t
		return v
	}
	if ds == "Str" && isInt(src) {
		if m.c.UseStr {
			return Val{T: t, X: m.smtFn("str.from_code", "Str", v.X)}
		}
		if v.X.Op == "int" && v.X.I >= -(1<<31) && v.X.I < 1<<31 {
			return Val{T: t, X: m.c.Str(string(rune(v.X.I)))}
		}
		r := Val{T: t, X: m.c.App("runestr", "Str", v.X)}
		m.wf(st, r)
		return r
	}
	if ds == "Str" && ss == "Sl" {
		// string(bytes): depends on the content
		el := m.sliceElem(src)
		mem := m.c.Select(m.mem(st, el), m.c.Proj("sl_arr", v.X))
		r := m.c.App("bytes2str", "Str", mem, m.c.Proj("sl_off", v.X), m.c.Proj("sl_len", v.X))
		return Val{T: t, X: r}
	}
	if ds == "Sl" && ss == "Str" {
		if m.probe > 0 {
			panic(pureAbort{"alloc"})
		}
		a := m.newAddr(st)
		el := m.sliceElem(t)
		arr := m.c.App("str2bytes", arrSort("Int", m.sortOf(el)), v.X)
		m.comp(st, m.memKey(el), arrSort("Int", arrSort("Int", m.sortOf(el))))
		m.setComp(st, m.memKey(el), a, arr, "")
		l := m.c.App("bytelen", "Int", v.X)
		if typeKey(el) == "byte" || typeKey(el) == "uint8" {
			l = m.strlen(v.X)
		}
		m.assume(st, m.c.Le(m.c.Int(0), l))
		sl := m.c.Ctor("sl", "Sl", a, m.c.Int(0), l, l)
		m.assume(st, m.c.Eq(m.c.App("bytes2str", "Str", arr, m.c.Int(0), l), v.X))
		return Val{T: t, X: sl}
	}
	if ss == ds {
		v.T = t
		return v
	}
	m.unsup(n, "conversion %s -> %s", v.T, t)
	return v
}

// FuncKey names a function or method declaration: "Recv.Name" or "Name".
func FuncKey(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func (m *Mach) callFunc(st *State, n ast.Node, fr *Frame, f *types.Func, recv *Val, args []Val, k KV) {
	f = f.Origin()
	if recv != nil && isIface(recv.T) {
		if _, isI := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
			m.dispatch(st, n, fr, f, *recv, args, k)
			return
		}
		if _, isTP := types.Unalias(recv.T).(*types.TypeParam); isTP {
			m.dispatch(st, n, fr, f, *recv, args, k)
			return
		}
	}
	decl := m.p.Funcs[f]
	if decl == nil || decl.Body == nil {
		m.external(st, n, fr, f, recv, args, k)
		return
	}
	key := FuncKey(f)
	if m.modelFunc(st, n, fr, key, recv, args, k) {
		return
	}
	if m.applying != nil && m.applying.key == key && m.within(fr, m.applying.frame) {
		m.contractCall(st, n, fr, f, k)
		return
	}
	if c := m.uses[key]; c != nil && m.pure == 0 {
		if !(key == m.rootKey && m.within(fr, m.rootFrame)) {
			m.applyContract(st, n, fr, key, c, recv, args, k)
			return
		}
	}
	if key == m.rootKey && m.pure == 0 && m.applying == nil && m.within(fr, m.rootFrame) {
		before := st.clone()
		st.ph = &handler{parent: st.ph, f: func(st *State, c *ctl) {
			m.checkFrame(st, before)
			m.panicTo(st, c)
		}}
		ph := st.ph
		m.inline(st, n, fr, f, decl, recv, args, func(st *State, vs []Val) {
			if st.ph == ph {
				st.ph = ph.parent
			}
			m.checkFrame(st, before)
			k(st, vs)
		})
		return
	}
	m.inline(st, n, fr, f, decl, recv, args, k)
}

// within: fr is root or a closure of root.
func (m *Mach) within(fr, root *Frame) bool {
	for f := fr; f != nil; f = f.Parent {
		if f == root {
			return true
		}
	}
	return false
}

func (m *Mach) callValue(st *State, n ast.Node, fr *Frame, fv Val, args []Val, k KV) {
	if fv.Fn == nil {
		fv = m.refn(fv)
	}
	if fv.Fn == nil && fv.X != nil && fv.X.Op == "ite" {
		m.fork(st, fv.X.Args[0],
			func(s *State) { m.callValue(s, n, fr, m.refn(Val{T: fv.T, X: fv.X.Args[1]}), args, k) },
			func(s *State) { m.callValue(s, n, fr, m.refn(Val{T: fv.T, X: fv.X.Args[2]}), args, k) })
		return
	}
	if fv.Fn == nil {
		if fv.X != nil && fv.X.Op == "int" && fv.X.I == 0 {
			m.chk(st, n, m.c.False, "call of nil function", func(st *State) {})
			return
		}
		// unknown function value: a pure total function of its arguments
		// (assumption recorded); used for comparison and predicate callbacks.
		sig := fv.T.Underlying().(*types.Signature)
		var as []*Term
		as = append(as, fv.X)
		for _, a := range args {
			a = m.scalarFn(a)
			if a.F != nil {
				m.unsup(n, "struct argument to unknown function")
			}
			as = append(as, a.X)
		}
		m.models["unknown function values ("+m.p.typeStr(fv.T)+") are pure"] = true
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			v := Val{T: t, X: m.c.App(fmt.Sprintf("fn:%s#%d", typeKey(sig), i), m.sortOf(t), as...)}
			m.wf(st, v)
			rs = append(rs, v)
		}
		k(st, rs)
		return
	}
	fn := fv.Fn
	switch {
	case fn.Native != nil:
		fn.Native(m, st, args, func(s *State, vs []Val, c *ctl) { k(s, vs) })
	case fn.Lit != nil:
		m.callLit(st, n, fr, fn, args, nil, k)
	default:
		m.callFunc(st, n, fr, fn.Fun, fn.Recv, args, k)
	}
}

func (m *Mach) newFrame(name string, caller *Frame) *Frame {
	m.frameN++
	f := &Frame{id: m.frameN, Name: name, Caller: caller}
	if caller != nil {
		f.depth = caller.depth + 1
	}
	return f
}

func (m *Mach) callLit(st *State, n ast.Node, caller *Frame, fn *FnVal, args []Val, y *yieldCtx, k KV) {
	sig := m.p.Info.TypeOf(fn.Lit).(*types.Signature)
	f := m.newFrame(fn.Fr.Name, caller)
	f.Parent = fn.Fr
	f.Lit = fn.Lit
	f.Decl = fn.Fr.Decl
	f.Sig = sig
	f.Spec = fn.Fr.Spec
	f.Yield = y
	m.bindParams(st, f, fn.Lit.Type, args)
	m.runBody(st, f, sig, fn.Lit.Type, fn.Lit.Body, k)
}

func (m *Mach) bindParams(st *State, f *Frame, ft *ast.FuncType, args []Val) {
	i := 0
	for _, a := range args {
		if a.Fn != nil {
			f.FnArgs = append(f.FnArgs, a.Fn)
		}
	}
	if ft.Params != nil {
		for _, p := range ft.Params.List {
			if len(p.Names) == 0 {
				i++
				continue
			}
			for _, nm := range p.Names {
				if nm.Name != "_" {
					m.declare(st, f, m.p.Info.Defs[nm], args[i])
				}
				i++
			}
		}
	}
	if ft.Results != nil {
		for _, p := range ft.Results.List {
			for _, nm := range p.Names {
				if nm.Name == "_" {
					continue
				}
				o := m.p.Info.Defs[nm]
				m.declare(st, f, o, m.zero(o.Type()))
			}
		}
	}
}

func (m *Mach) runBody(st *State, f *Frame, sig *types.Signature, ft *ast.FuncType, body *ast.BlockStmt, k KV) {
	saved := st.ph
	hasDefer := false
	ast.Inspect(body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if _, ok := n.(*ast.DeferStmt); ok {
			hasDefer = true
		}
		return true
	})
	if hasDefer {
		st.ph = &handler{parent: saved, f: func(st *State, c *ctl) {
			m.runDefers(st, f, func(st *State) { m.panicTo(st, c) })
		}}
	}
	f.Entry = st.clone()
	m.exec(st, f, body.List, func(st *State, c *ctl) {
		switch c.kind {
		case cNormal, cReturn:
			vals := c.vals
			if c.kind == cReturn && vals == nil && ft.Results != nil && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0 {
				for _, p := range ft.Results.List {
					for _, nm := range p.Names {
						o := m.p.Info.Defs[nm]
						_, v, _ := m.lookup(st, f, o)
						vals = append(vals, m.readVar(st, o, v))
					}
				}
			}
			if hasDefer {
				st.ph = saved
				m.runDefers(st, f, func(st *State) { k(st, vals) })
				return
			}
			st.ph = saved
			k(st, vals)
		default:
			m.unsup(body, "control %d escapes function", c.kind)
		}
	})
}

func (m *Mach) runDefers(st *State, f *Frame, k func(*State)) {
	ds := st.defers[f.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[f.id] = ds[:len(ds)-1]
	m.callValue(st, d.call, d.fr, Val{T: d.fn.Sig, Fn: d.fn}, d.args, func(st *State, _ []Val) {
		m.runDefers(st, f, k)
	})
}

func (m *Mach) inline(st *State, n ast.Node, fr *Frame, f *types.Func, decl *ast.FuncDecl, recv *Val, args []Val, k KV) {
	key := FuncKey(f)
	cnt := 0
	for x := fr; x != nil; x = x.Caller {
		if x.Decl == decl && x.Lit == nil {
			cnt++
		}
	}
	if cnt >= 2 || (fr != nil && fr.depth > 80) {
		m.unsup(n, "recursive call of %s needs a contract", key)
	}
	if !m.p.SpecFile[m.p.FileOf[decl]] {
		m.inlined[key] = true
	}
	sig := f.Type().(*types.Signature)
	nf := m.newFrame(key, fr)
	nf.Decl = decl
	nf.Sig = sig
	nf.Spec = m.p.SpecFile[m.p.FileOf[decl]]
	if decl.Recv != nil && len(decl.Recv.List) > 0 && len(decl.Recv.List[0].Names) > 0 {
		nm := decl.Recv.List[0].Names[0]
		if nm.Name != "_" {
			o := m.p.Info.Defs[nm]
			m.declare(st, nf, o, *recv)
		}
	}
	for i := range args {
		if i < sig.Params().Len() {
			m.sameLayout(n, args[i].T, sig.Params().At(i).Type())
		}
	}
	m.bindParams(st, nf, decl.Type, args)
	rts := sig.Results()
	m.runBody(st, nf, sig, decl.Type, decl.Body, func(st *State, vs []Val) {
		out := make([]Val, len(vs))
		for i := range vs {
			out[i] = m.coerce(vs[i], rts.At(i).Type())
		}
		k(st, out)
	})
}

// dispatch resolves the dynamic type of an interface receiver.
func (m *Mach) dispatch(st *State, n ast.Node, fr *Frame, f *types.Func, recv Val, args []Val, k KV) {
	x := recv.X
	if t := m.tagType(st, x); t != nil {
		m.dispatchTo(st, n, fr, f, x, t, args, k)
		return
	}
	if x.Op == "ctor" && x.Name == "VNil" {
		m.chk(st, n, m.c.False, "method call on nil interface", func(*State) {})
		return
	}
	if x.Op == "ite" {
		m.fork(st, x.Args[0],
			func(s *State) { m.dispatch(s, n, fr, f, Val{T: recv.T, X: x.Args[1]}, args, k) },
			func(s *State) { m.dispatch(s, n, fr, f, Val{T: recv.T, X: x.Args[2]}, args, k) })
		return
	}
	if m.pure > 0 {
		// branch over the candidate types mentioned so far
		m.dispatchPure(st, n, fr, f, recv, args, k)
		return
	}
	tag := m.kn(m.c.Tag(x))
	// runtime check: not nil
	nilc := m.c.Is("VNil", x)
	if m.probe > 0 {
		if !m.valid(st, m.c.Not(nilc), 300) {
			panic(pureAbort{"nil interface"})
		}
	}
	m.chk(st, n, m.c.Not(nilc), "method call on nil interface ("+f.Name()+")", func(st *State) {
		cs := m.candidates(f)
		if tag.Op == "int" {
			// the path condition says which
			for _, t := range cs {
				if m.tagOf(t) == tag {
					cs = []types.Type{t}
					break
				}
			}
		}
		for _, t := range cs {
			cond := m.c.Eq(tag, m.tagOf(t))
			if m.valid(st, cond, 400) {
				s := st.clone()
				if s.tags == nil {
					s.tags = map[*Term]types.Type{}
				}
				s.tags[x] = t
				m.dispatchTo(s, n, fr, f, x, t, args, k)
				return
			}
		}
		// several possible types: enumerate the feasible ones if they are exhaustive
		var feas []types.Type
		var conds []*Term
		for _, t := range m.candidates(f) {
			cond := m.c.Eq(tag, m.tagOf(t))
			if m.feasible(st, cond) {
				feas = append(feas, t)
				conds = append(conds, cond)
			}
		}
		if len(feas) > 0 && len(feas) <= 6 && m.valid(st, m.c.Or(conds...), 500) {
			m.dispatchSplit(st, n, fr, f, x, feas, args, k)
			return
		}
		m.unsup(n, "cannot resolve dynamic dispatch of %s on %s (feasible %d)", f.Name(), x.Short(), len(feas))
	})
}

func (m *Mach) dispatchSplit(st *State, n ast.Node, fr *Frame, f *types.Func, x *Term, ts []types.Type, args []Val, k KV) {
	t := ts[0]
	set := func(s *State) *State {
		if s.tags == nil {
			s.tags = map[*Term]types.Type{}
		} else {
			nt := map[*Term]types.Type{}
			for a, b := range s.tags {
				nt[a] = b
			}
			s.tags = nt
		}
		s.tags[x] = t
		return s
	}
	if len(ts) == 1 {
		m.dispatchTo(set(st.clone()), n, fr, f, x, t, args, k)
		return
	}
	m.fork(st, m.c.Eq(m.c.Tag(x), m.tagOf(t)),
		func(s *State) { m.dispatchTo(set(s), n, fr, f, x, t, args, k) },
		func(s *State) { m.dispatchSplit(s, n, fr, f, x, ts[1:], args, k) })
}

func (m *Mach) dispatchPure(st *State, n ast.Node, fr *Frame, f *types.Func, recv Val, args []Val, k KV) {
	cands := m.candidates(f)
	if len(cands) == 0 {
		m.unsup(n, "no candidate for %s", f.Name())
	}
	// in contract expressions prefer the unit's model types
	for i, t := range cands {
		s := st.clone()
		cond := m.c.Eq(m.c.Tag(recv.X), m.tagOf(t))
		if i < len(cands)-1 {
			s.delta = append(s.delta, cond)
			st = st.clone()
			st.delta = append(st.delta, m.c.Not(cond))
		}
		m.dispatchTo(s, n, fr, f, recv.X, t, args, k)
		if i >= 3 {
			break
		}
	}
}

func (m *Mach) tagType(st *State, x *Term) types.Type {
	if t, ok := st.tags[x]; ok {
		return t
	}
	tag := m.c.Tag(x)
	if tag.Op == "int" {
		return m.typeOfTag(tag.I)
	}
	return nil
}

// candidates lists concrete types implementing the interface of method f that are
// known to this unit: contract-file model types first, then types already seen.
func (m *Mach) candidates(f *types.Func) []types.Type {
	rt := f.Type().(*types.Signature).Recv().Type()
	it, _ := rt.Underlying().(*types.Interface)
	var out []types.Type
	seen := map[string]bool{}
	add := func(t types.Type) {
		if it == nil || seen[typeKey(t)] || isIface(t) {
			return
		}
		if m.implements(t, it) {
			seen[typeKey(t)] = true
			out = append(out, t)
		}
	}
	for _, t := range m.tagTypes {
		add(t)
	}
	for _, nt := range m.p.named {
		if strings.HasPrefix(nt.Obj().Name(), "vm") && nt.TypeParams() == nil && m.inScope(nt) {
			add(types.NewPointer(nt))
		}
	}
	return out
}

// inScope tells whether a model type is declared in a contract file that the
// unit depends on. The other contract files might as well not be there.
func (m *Mach) inScope(nt *types.Named) bool {
	if m.scope == nil {
		files := []string{m.p.Fset.Position(m.unit.Decl.Pos()).Filename}
		for _, un := range m.unit.Uses {
			if d := m.p.SpecFuncs[un]; d != nil {
				files = append(files, m.p.FileOf[d])
			}
		}
		m.scope = m.p.specClosure(files...)
	}
	f := m.p.Fset.Position(nt.Obj().Pos()).Filename
	return m.scope[f] || !m.p.SpecFile[f]
}

// dispatchTo calls method f (an interface method) on x whose dynamic type is t.
func (m *Mach) dispatchTo(st *State, n ast.Node, fr *Frame, f *types.Func, x *Term, t types.Type, args []Val, k KV) {
	obj, path, _ := types.LookupFieldOrMethod(t, true, f.Pkg(), f.Name())
	mf, ok := obj.(*types.Func)
	if !ok {
		m.unsup(n, "method %s not found on %s", f.Name(), t)
	}
	recv := m.unbox(x, t)
	m.wf(st, recv)
	path = path[:len(path)-1]
	m.walk(st, n, cursor{t: t, v: recv}, path, func(st *State, c cursor) {
		sig := mf.Type().(*types.Signature)
		if isIface(c.t) {
			m.callFunc(st, n, fr, mf, &c.v, args, k)
			return
		}
		m.adaptRecv(st, n, c, sig, mf, func(st *State, r Val, mf *types.Func) {
			// argument adaptation for generic receivers
			osig := mf.Origin().Type().(*types.Signature)
			as := make([]Val, len(args))
			for i := range args {
				as[i] = m.coerce(args[i], osig.Params().At(i).Type())
			}
			m.callFunc(st, n, fr, mf, &r, as, k)
		})
	})
}

func (p *Program) typeStr(t types.Type) string {
	return types.TypeString(t, types.RelativeTo(p.Pkg))
}

// ---- builtins ----

func (m *Mach) builtin(st *State, fr *Frame, e *ast.CallExpr, name string, k KV) {
	c := m.c
	one := func(st *State, t types.Type, x *Term) { k(st, []Val{{T: t, X: x}}) }
	intT := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			switch u := types.Unalias(v.T).Underlying().(type) {
			case *types.Slice:
				one(st, intT, c.Proj("sl_"+name, v.X))
			case *types.Basic:
				if !v.X.hasBV {
					m.wf(st, v)
				}
				one(st, intT, m.strlen(v.X))
			case *types.Map:
				m.mapFacts(st, v.T, v.X, nil)
				one(st, intT, m.mapLen(st, v.T, v.X))
			case *types.Array:
				one(st, intT, c.Int(u.Len()))
			default:
				m.unsup(e, "%s of %s", name, v.T)
			}
		})
	case "append":
		m.evalAppend(st, fr, e, k)
	case "copy":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			d, s := vs[0], vs[1]
			if m.sortOf(s.T) == "Str" {
				s = m.convert(st, e, s, d.T)
			}
			ld, ls := c.Proj("sl_len", d.X), c.Proj("sl_len", s.X)
			var n *Term
			if c.Le(ld, ls) == c.True || m.valid(st, c.Le(ld, ls), 200) {
				n = ld
			} else if m.valid(st, c.Le(ls, ld), 200) {
				n = ls
			} else {
				n = c.Ite(c.Le(ld, ls), ld, ls)
			}
			m.bulkCopy(st, m.sliceElem(d.T), c.Proj("sl_arr", d.X), c.Proj("sl_off", d.X), n, c.Proj("sl_arr", s.X), c.Proj("sl_off", s.X))
			one(st, intT, n)
		})
	case "make":
		t := m.typeOf(e)
		m.evalList(st, fr, e.Args[1:], func(st *State, vs []Val) {
			switch types.Unalias(t).Underlying().(type) {
			case *types.Slice:
				n := vs[0].X
				cp := n
				if len(vs) > 1 {
					cp = vs[1].X
				}
				m.chk(st, e, c.And(c.Le(c.Int(0), n), c.Le(n, cp)), "makeslice: len out of range", func(st *State) {
					a := m.newAddr(st)
					m.zeroArray(st, m.sliceElem(t), a)
					one(st, t, c.Ctor("sl", "Sl", a, c.Int(0), n, cp))
				})
			case *types.Map:
				one(st, t, m.newMap(st, t))
			default:
				m.unsup(e, "make %s", t)
			}
		})
	case "new":
		t := m.typeOf(e)
		el, _ := derefType(t)
		one(st, t, m.newObject(st, el))
	case "delete":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			mt := types.Unalias(vs[0].T).Underlying().(*types.Map)
			m.mapDelete(st, vs[0].T, vs[0].X, m.mapKey(vs[1], mt.Key()))
			k(st, nil)
		})
	case "clear":
		m.unsup(e, "clear")
	case "panic":
		m.eval(st, fr, e.Args[0], func(st *State, v Val) {
			if m.pure > 0 || m.probe > 0 {
				if m.probe > 0 {
					panic(pureAbort{"panic"})
				}
				return
			}
			m.panicTo(st, &ctl{kind: cPanic, why: m.where(e) + ": panic"})
		})
	case "min", "max":
		m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
			x := vs[0].X
			for _, v := range vs[1:] {
				if name == "min" {
					x = c.Ite(c.Le(x, v.X), x, v.X)
				} else {
					x = c.Ite(c.Le(v.X, x), x, v.X)
				}
			}
			one(st, m.typeOf(e), x)
		})
	case "print", "println":
		k(st, nil)
	default:
		m.unsup(e, "builtin %s", name)
	}
}

func (m *Mach) evalAppend(st *State, fr *Frame, e *ast.CallExpr, k KV) {
	c := m.c
	t := m.typeOf(e)
	el := m.sliceElem(t)
	m.evalList(st, fr, e.Args, func(st *State, vs []Val) {
		s := m.coerce(vs[0], t)
		arr, off, ln, cp := c.Proj("sl_arr", s.X), c.Proj("sl_off", s.X), c.Proj("sl_len", s.X), c.Proj("sl_cap", s.X)
		var n *Term
		var fill func(st *State, arr, at *Term)
		if e.Ellipsis.IsValid() {
			y := vs[1]
			if m.sortOf(y.T) == "Str" {
				y = m.convert(st, e, y, t)
			}
			y = m.coerce(y, t)
			n = c.Proj("sl_len", y.X)
			keys, sorts := m.elemComps(el)
			// snapshot of the source content before any write
			var srcs []*Term
			for i, key := range keys {
				h := m.comp(st, key, arrSort("Int", arrSort("Int", sorts[i])))
				srcs = append(srcs, c.Select(h, c.Proj("sl_arr", y.X)))
			}
			fill = func(st *State, arr, at *Term) {
				for i, key := range keys {
					h := m.comp(st, key, arrSort("Int", arrSort("Int", sorts[i])))
					m.setComp(st, key, arr, m.copyArray(st, c.Select(h, arr), at, n, srcs[i], c.Proj("sl_off", y.X)), "")
				}
			}
		} else {
			n = c.Int(int64(len(vs) - 1))
			fill = func(st *State, arr, at *Term) {
				for i, v := range vs[1:] {
					m.storeElem(st, el, arr, c.AddK(at, int64(i)), m.coerce(v, el))
				}
			}
		}
		if n.Op == "int" && n.I == 0 {
			k(st, []Val{{T: t, X: s.X}})
			return
		}
		nl := c.Add(ln, n)
		if m.probe > 0 {
			panic(pureAbort{"append"})
		}
		grow := func(st *State) {
			a := m.newAddr(st)
			cap2 := c.Fresh("cap", "Int")
			m.assume(st, c.Le(nl, cap2))
			// contents
			keys, sorts := m.elemComps(el)
			for i, key := range keys {
				h := m.comp(st, key, arrSort("Int", arrSort("Int", sorts[i])))
				_ = h
				var z *Term
				if ss, _ := m.localStruct(el); ss != nil {
					z = m.zero(ss.Field(i).Type()).X
				} else {
					z = m.zero(el).X
				}
				nw := m.copyArray(st, c.ConstArr(arrSort("Int", sorts[i]), z), c.Int(0), ln, c.Select(h, arr), off)
				m.setComp(st, key, a, nw, "")
			}
			fill(st, a, ln)
			k(st, []Val{{T: t, X: c.Ctor("sl", "Sl", a, c.Int(0), nl, cap2)}})
		}
		if m.pure > 0 {
			grow(st)
			return
		}
		m.fork(st, c.Le(nl, cp), func(st *State) {
			fill(st, arr, c.Add(off, ln))
			k(st, []Val{{T: t, X: c.Ctor("sl", "Sl", arr, off, nl, cp)}})
		}, grow)
	})
}

var _ = token.ADD

// sameLayout refuses a map or slice of concrete elements passed where the generic callee
// sees elements of a type parameter in another representation.
func (m *Mach) sameLayout(n ast.Node, t, p types.Type) {
	if t == nil || p == nil {
		return
	}
	diff := func(a, b types.Type) bool {
		_, tp := types.Unalias(b).(*types.TypeParam)
		return tp && m.sortOf(a) != m.sortOf(b)
	}
	switch pu := types.Unalias(p).Underlying().(type) {
	case *types.Map:
		if tu, ok := t.Underlying().(*types.Map); ok && (diff(tu.Key(), pu.Key()) || diff(tu.Elem(), pu.Elem())) {
			m.unsup(n, "a map of concrete type passed to a generic function")
		}
	case *types.Slice:
		if tu, ok := t.Underlying().(*types.Slice); ok && diff(tu.Elem(), pu.Elem()) {
			m.unsup(n, "a slice of concrete type passed to a generic function")
		}
	}
}
