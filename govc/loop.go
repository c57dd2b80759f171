package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type modset struct {
	vars  map[vkey]bool
	cells map[string]map[*Term]bool
	fresh map[string]bool
	any   map[string]bool
	sorts map[string]string
}

func newModset() *modset {
	return &modset{vars: map[vkey]bool{}, cells: map[string]map[*Term]bool{}, fresh: map[string]bool{}, any: map[string]bool{}, sorts: map[string]string{}}
}

type loopDesc struct {
	node  ast.Stmt
	label string
	// head decides between another iteration and the exit
	head func(st *State, body, exit func(*State))
	body func(st *State, k KS)
	post func(st *State, k func(*State))
	kkey vkey
	vkey vkey // visited set (map ranges)
	vis  types.Type
	n    *Term // number of iterations when statically known
	cond ast.Expr
	bnds func(st *State) []*Term
	pos  token.Pos
}

type invCtx struct {
	entry, start *State
	vis          *Term
	visKey       types.Type
}

func (m *Mach) loopOrd(decl *ast.FuncDecl, node ast.Stmt) int {
	n, r := 0, 0
	ast.Inspect(decl, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			n++
			if x == ast.Node(node) {
				r = n
			}
		}
		return true
	})
	return r
}

func (m *Mach) forStmt(st *State, fr *Frame, s *ast.ForStmt, label string, k KS) {
	m.stmt(st, fr, s.Init, "", func(st *State, _ *ctl) {
		L := &loopDesc{node: s, label: label, cond: s.Cond, pos: s.Body.Lbrace + 1}
		L.kkey = vkey{fr: fr.id, aux: "k:" + strconv.Itoa(int(s.Pos()))}
		L.head = func(st *State, body, exit func(*State)) {
			if s.Cond == nil {
				body(st)
				return
			}
			m.cond(st, fr, s.Cond, body, exit)
		}
		L.body = func(st *State, k KS) { m.exec(st, fr, s.Body.List, k) }
		L.post = func(st *State, k func(*State)) {
			m.stmt(st, fr, s.Post, "", func(st *State, _ *ctl) { k(st) })
		}
		m.runLoop(st, fr, L, k)
	})
}

func (m *Mach) rangeStmt(st *State, fr *Frame, s *ast.RangeStmt, label string, k KS) {
	c := m.c
	setVar := func(st *State, e ast.Expr, v Val, k func(*State)) {
		if e == nil {
			k(st)
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				k(st)
				return
			}
			if s.Tok == token.DEFINE {
				m.declare(st, fr, m.p.Info.Defs[id], v)
				k(st)
				return
			}
		}
		m.assignTo(st, fr, e, v, k)
	}
	m.eval(st, fr, s.X, func(st *State, x Val) {
		it := types.Typ[types.Int]
		L := &loopDesc{node: s, label: label, pos: s.Body.Lbrace + 1}
		L.kkey = vkey{fr: fr.id, aux: "k:" + strconv.Itoa(int(s.Pos()))}
		L.post = func(st *State, k func(*State)) { k(st) }
		kv := func(st *State) *Term { return st.vars[L.kkey].X }
		switch u := types.Unalias(x.T).Underlying().(type) {
		case *types.Slice, *types.Basic:
			var n *Term
			isStr := false
			if b, ok := u.(*types.Basic); ok {
				if b.Info()&types.IsString != 0 {
					isStr = true
					if x.X.Op != "str" {
						m.unsup(s, "range over a non-constant string")
					}
					n = c.Int(int64(len([]rune(x.X.Name))))
				} else {
					n = x.X
				}
			} else {
				n = c.Proj("sl_len", x.X)
			}
			L.n = n
			L.head = func(st *State, body, exit func(*State)) {
				m.fork(st, c.Lt(kv(st), n), body, exit)
			}
			L.bnds = func(st *State) []*Term {
				return []*Term{c.Le(c.Int(0), kv(st)), c.Or(c.Le(kv(st), n), c.And(c.Lt(n, c.Int(0)), c.Eq(kv(st), c.Int(0))))}
			}
			L.body = func(st *State, k KS) {
				i := kv(st)
				kt := types.Type(it)
				if b, ok := u.(*types.Basic); ok && !isStr {
					_ = b
					kt = x.T
					if isNilT(kt) || strings.HasPrefix(kt.String(), "untyped") {
						kt = it
					}
				}
				setVar(st, s.Key, Val{T: kt, X: i}, func(st *State) {
					var v Val
					if s.Value != nil {
						if isStr {
							v = Val{T: types.Typ[types.Int32], X: c.Int(int64([]rune(x.X.Name)[i.I]))}
						} else {
							v = m.loadElem(st, u.(*types.Slice).Elem(), c.Proj("sl_arr", x.X), c.Add(c.Proj("sl_off", x.X), i))
						}
					}
					setVar(st, s.Value, v, func(st *State) { m.exec(st, fr, s.Body.List, k) })
				})
			}
			m.runLoop(st, fr, L, k)
		case *types.Map:
			L.vkey = vkey{fr: fr.id, aux: "vis:" + strconv.Itoa(int(s.Pos()))}
			L.vis = u.Key()
			ks := m.sortOf(u.Key())
			kx := vkey{fr: fr.id, aux: "key:" + strconv.Itoa(int(s.Pos()))}
			st.vars[L.vkey] = Val{T: it, X: c.ConstArr(arrSort(ks, "Bool"), c.False)}
			L.head = func(st *State, body, exit func(*State)) {
				if m.pure > 0 || m.probe > 0 {
					panic(pureAbort{"map range"})
				}
				has := m.mapHas(st, x.T, x.X)
				vis := st.vars[L.vkey].X
				ln := m.mapLen(st, x.T, x.X)
				m.mapFacts(st, x.T, x.X, nil)
				key := m.freshVal("key", u.Key())
				if key.F != nil {
					m.unsup(s, "struct map key")
				}
				m.fork(st, c.Fresh("more", "Bool"), func(st *State) {
					m.wf(st, key)
					m.assume(st, c.And(c.Select(has, key.X), c.Not(c.Select(vis, key.X)), c.Le(c.Int(1), ln)))
					if !m.feasible(st, c.True) {
						return
					}
					st.vars[L.vkey] = Val{T: it, X: c.Store(vis, key.X, c.True)}
					st.vars[kx] = key
					body(st)
				}, func(st *State) {
					y := c.BoundVar("y", ks)
					hs := c.Select(has, y)
					var pats [][]*Term
					if hs.Op == "select" {
						pats = [][]*Term{{hs}}
					}
					m.assume(st, c.Forall([]*Term{y}, c.Implies(hs, c.Select(vis, y)), pats))
					exit(st)
				})
			}
			L.bnds = func(st *State) []*Term { return []*Term{c.Le(c.Int(0), kv(st))} }
			L.body = func(st *State, k KS) {
				key := st.vars[kx]
				setVar(st, s.Key, key, func(st *State) {
					var v Val
					if s.Value != nil && isEmptyStruct(u.Elem()) {
						v = m.zero(u.Elem())
					} else if s.Value != nil {
						v = m.refn(Val{T: u.Elem(), X: c.Select(m.mapVal(st, x.T, x.X), key.X)})
						m.wf(st, v)
					}
					setVar(st, s.Value, v, func(st *State) { m.exec(st, fr, s.Body.List, k) })
				})
			}
			m.runLoop(st, fr, L, k)
		case *types.Signature:
			m.rangeFunc(st, fr, s, label, x, u, setVar, k)
		default:
			m.unsup(s, "range over %s", x.T)
		}
	})
}

// rangeFunc: for x := range f  ==  f(func(x) bool { body })
func (m *Mach) rangeFunc(st *State, fr *Frame, s *ast.RangeStmt, label string, f Val, sig *types.Signature, setVar func(*State, ast.Expr, Val, func(*State)), k KS) {
	if m.pure > 0 || m.probe > 0 {
		panic(pureAbort{"range over func"})
	}
	bt := types.Typ[types.Bool]
	ysig := sig.Params().At(0).Type().Underlying().(*types.Signature)
	yield := &FnVal{Sig: ysig, Native: func(m *Mach, st *State, args []Val, kk func(*State, []Val, *ctl)) {
		run := func(st *State) {
			m.exec(st, fr, s.Body.List, func(st *State, c *ctl) {
				if c.kind == cNormal || c.kind == cContinue && (c.label == "" || c.label == label) {
					kk(st, []Val{{T: bt, X: m.c.True}}, nil)
					return
				}
				st.pend = c
				kk(st, []Val{{T: bt, X: m.c.False}}, nil)
			})
		}
		var vs [2]Val
		copy(vs[:], args)
		setVar(st, s.Key, vs[0], func(st *State) {
			if s.Value == nil {
				run(st)
				return
			}
			setVar(st, s.Value, vs[1], run)
		})
	}}
	fin := func(st *State, _ []Val) {
		if p := st.pend; p != nil {
			st.pend = nil
			if p.kind == cBreak && (p.label == "" || p.label == label) {
				p = normal
			}
			k(st, p)
			return
		}
		k(st, normal)
	}
	yv := Val{T: ysig, Fn: yield}
	if f.Fn == nil {
		f = m.refn(f)
	}
	if f.Fn != nil && f.Fn.Lit != nil {
		m.callLit(st, s, fr, f.Fn, []Val{yv}, &yieldCtx{node: s, fr: fr}, fin)
		return
	}
	if f.Fn == nil {
		m.unsup(s, "range over unknown iterator")
	}
	m.callValue(st, s, fr, f, []Val{yv}, fin)
}

func (m *Mach) iterate(st *State, L *loopDesc, onBack, onExit func(*State), onCtl func(*State, *ctl)) {
	L.head(st, func(st *State) {
		L.body(st, func(st *State, c *ctl) {
			switch {
			case c.kind == cNormal || c.kind == cContinue && (c.label == "" || c.label == L.label):
				L.post(st, func(st *State) {
					kv := st.vars[L.kkey]
					st.vars[L.kkey] = Val{T: kv.T, X: m.c.AddK(kv.X, 1)}
					onBack(st)
				})
			case c.kind == cBreak && (c.label == "" || c.label == L.label):
				onExit(st)
			default:
				onCtl(st, c)
			}
		})
	}, onExit)
}

func (m *Mach) runLoop(st *State, fr *Frame, L *loopDesc, k KS) {
	c := m.c
	st.vars[L.kkey] = Val{T: types.Typ[types.Int], X: c.Int(0)}
	constN := L.n != nil && L.n.Op == "int" && L.n.I <= 12
	if m.pure > 0 || m.probe > 0 || constN || m.unroll > 0 {
		if !constN && m.unroll == 0 {
			panic(pureAbort{"loop in contract expression"})
		}
		m.unrollLoop(st, L, 0, constN, k)
		return
	}
	m.invLoop(st, fr, L, k)
}

func (m *Mach) unrollLoop(st *State, L *loopDesc, n int, constN bool, k KS) {
	if !constN && n > m.unroll {
		m.unrolled = true
		return
	}
	m.iterate(st, L, func(st *State) { m.unrollLoop(st, L, n+1, constN, k) },
		func(st *State) { k(st, normal) },
		func(st *State, c *ctl) { k(st, c) })
}

// definite tells whether the path condition decides how often the loop runs (at most
// a few times): then it is executed iteration by iteration, completely.
func (m *Mach) definite(st *State, L *loopDesc) (ok bool) {
	if m.defDepth > 3 {
		return false
	}
	ok = true
	left := 24
	m.defDepth++
	defer func() { m.defDepth-- }()
	var step func(st *State, n int)
	step = func(st *State, n int) {
		if !ok {
			return
		}
		bodies, exits := 0, 0
		back := 0
		m.iterate(st, L, func(s *State) {
			back++
			bodies++
			ok = ok && back <= 3 && exits == 0 && (n < 4 || back == 1 && n < 16)
			left--
			ok = ok && left > 0
			step(s, n+1)
		},
			func(*State) { exits++; ok = ok && back == 0 },
			func(*State, *ctl) { bodies++ })
	}
	m.pushed(func() {
		m.dry++
		d := m.dry
		wl := m.writeLog
		m.writeLog = nil
		defer func() {
			m.dry = d - 1
			m.writeLog = wl
		}()
		s := st.clone()
		s.ph = &handler{f: func(*State, *ctl) {}}
		step(s, 0)
	})
	return ok
}

func isNewer(t *Term, mark int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	if t.Op == "const" || t.Op == "bound" {
		sep := "!"
		if t.Op == "bound" {
			sep = "?"
		}
		if i := strings.LastIndex(t.Name, sep); i >= 0 {
			if n, err := strconv.Atoi(t.Name[i+1:]); err == nil && n > mark {
				r = true
			}
		}
	}
	for _, a := range t.Args {
		if isNewer(a, mark, memo) {
			r = true
		}
	}
	memo[t] = r
	return r
}

func sameVal(a, b Val) bool {
	if a.Q != nil || b.Q != nil {
		return a.Q == b.Q
	}
	if len(a.F) != len(b.F) {
		return false
	}
	for i := range a.F {
		if !sameVal(a.F[i], b.F[i]) {
			return false
		}
	}
	return a.X == b.X && (a.Fn == b.Fn || a.X != nil)
}

// computeMods runs the body from a havocked head until the modified set is stable.
func (m *Mach) computeMods(entry *State, fr *Frame, L *loopDesc, noFrame map[string]bool, assumeInv func(*State)) *modset {
	ms := newModset()
	ms.vars[L.kkey] = true
	if L.vis != nil {
		ms.vars[L.vkey] = true
	}
	for round := 0; ; round++ {
		changed := false
		add := func(b *bool) { *b = true; changed = true }
		_ = add
		mark := m.c.fresh
		memo := map[*Term]bool{}
		ei, ek, _ := m.c.allocOf(entry.alloc)
		m.pushed(func() {
			m.dry++
			wl := &wlog{}
			m.writeLog = append(m.writeLog, wl)
			head := entry.clone()
			m.havocLoop(head, entry, ms)
			m.assumeBnds(head, L)
			for _, key := range sortedKeysB(ms.any) {
				if cd := m.frameCand(entry, key); cd != nil && !noFrame[key] {
					m.assume(head, cd.f(head))
					m.noteFrame(cd, head, entry)
				}
			}
			assumeInv(head)
			head.ph = &handler{f: func(*State, *ctl) {}}
			classify := func(st *State) {
				for kk, v := range st.vars {
					if kk == L.kkey || ms.vars[kk] {
						continue
					}
					ev, in := entry.vars[kk]
					if !in {
						continue
					}
					if !sameVal(ev, v) {
						ms.vars[kk] = true
						changed = true
					}
				}
				for _, e := range wl.trail {
					comp, a := e.comp, e.addr
					if h, ok := st.heap[comp]; ok {
						ms.sorts[comp] = h.Sort
					}
					if m.isFreshAddr(a, ei, ek, mark) {
						if !ms.fresh[comp] {
							ms.fresh[comp] = true
							changed = true
						}
					} else if isNewer(a, mark, memo) {
						if !ms.any[comp] {
							ms.any[comp] = true
							changed = true
						}
					} else {
						if ms.cells[comp] == nil {
							ms.cells[comp] = map[*Term]bool{}
						}
						if !ms.cells[comp][a] {
							ms.cells[comp][a] = true
							changed = true
						}
					}
				}
			}
			m.iterate(head, L, func(st *State) { classify(st) }, func(st *State) {}, func(st *State, c *ctl) {})
			m.writeLog = m.writeLog[:len(m.writeLog)-1]
			m.dry--
		})
		// writes made by a loop are also writes of the enclosing computations
		if !changed {
			return ms
		}
		if round > 12 {
			panic(unsupported{"modified set does not stabilise"})
		}
	}
}

func (m *Mach) isFreshAddr(a *Term, ei int, ek int64, mark int) bool {
	if i, k, ok := m.c.allocOf(a); ok {
		return i > ei || i == ei && k > ek
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "sub:") {
		return m.isFreshAddr(a.Args[0], ei, ek, mark)
	}
	if a.Op == "ite" {
		return m.isFreshAddr(a.Args[1], ei, ek, mark) && m.isFreshAddr(a.Args[2], ei, ek, mark)
	}
	return false
}

// havocLoop replaces everything in the modified set by arbitrary values.
func (m *Mach) havocLoop(st, entry *State, ms *modset) {
	c := m.c
	m.newAlloc(st)
	for kk := range ms.vars {
		v, in := entry.vars[kk]
		if !in {
			continue
		}
		if v.Q != nil {
			panic(unsupported{"snapshot modified in loop"})
		}
		if v.Fn != nil && v.X == nil {
			panic(unsupported{"function variable modified in loop"})
		}
		if kk.obj == nil && strings.HasPrefix(kk.aux, "vis:") {
			st.vars[kk] = Val{T: v.T, X: c.Fresh("vis", v.X.Sort)}
			continue
		}
		if v.X != nil && m.sortOf(v.T) != v.X.Sort {
			st.vars[kk] = Val{T: v.T, X: c.Fresh("lv", v.X.Sort)}
			continue
		}
		nm := "k"
		if kk.obj != nil {
			nm = kk.obj.Name()
		}
		nv := m.freshVal(nm, v.T)
		st.vars[kk] = nv
		m.wf(st, nv)
	}
	comps := map[string]bool{}
	for k := range ms.any {
		comps[k] = true
	}
	for k := range ms.fresh {
		comps[k] = true
	}
	for k := range ms.cells {
		comps[k] = true
	}
	var names []string
	for k := range comps {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, key := range names {
		srt := ms.sorts[key]
		if h, ok := entry.heap[key]; ok {
			srt = h.Sort
		}
		if srt == "" {
			continue
		}
		h := m.comp(st, key, srt)
		switch {
		case ms.any[key]:
			nh := c.Fresh("H:"+key, srt)
			m.born[nh] = st.alloc
			st.heap[key] = nh
			m.logWrite(key, c.Fresh("anyaddr", "Int"))
		case ms.fresh[key]:
			nh := c.Fresh("H:"+key, srt)
			m.born[nh] = st.alloc
			if ai, ak, ok := c.allocOf(entry.alloc); ok {
				c.mixOf[nh] = mixInfo{h, ai, ak}
			}
			a := c.BoundVar("a", "Int")
			sel := c.intern(&Term{Op: "select", Args: []*Term{nh, a}, Sort: elemSort(srt)})
			m.assume(st, c.Forall([]*Term{a}, c.Implies(c.LeRaw(a, entry.alloc), c.Eq(sel, c.Select(h, a))), [][]*Term{{sel}}))
			st.heap[key] = nh
			m.logWrite(key, c.AddK(st.alloc, 0))
			m.logFresh(key, entry)
		}
		if !ms.any[key] {
			for _, a := range sortedTerms(ms.cells[key]) {
				hv := c.Fresh("hv", elemSort(srt))
				m.born[hv] = st.alloc
				st.heap[key] = c.Store(st.heap[key], a, hv)
				m.logWrite(key, a)
			}
		}
	}
	if comps["T:arr"] {
		m.traceGrows(st, entry)
	}
}

// traceGrows: the event trace is append-only.
func (m *Mach) traceGrows(st, before *State) {
	c := m.c
	n, a0, a1 := m.traceLen(before), m.traceArr(before), m.traceArr(st)
	m.assume(st, c.Le(n, m.traceLen(st)))
	if n == c.Int(0) {
		return
	}
	j := c.BoundVar("j", "Int")
	sel := c.intern(&Term{Op: "select", Args: []*Term{a1, j}, Sort: "Ev"})
	m.assume(st, c.Forall([]*Term{j}, c.Implies(c.And(c.LeRaw(c.Int(0), j), c.Lt(j, n)), c.Eq(sel, c.Select(a0, j))), [][]*Term{{sel}}))
}

// logFresh records, for enclosing loops, that fresh cells of the component are written.
func (m *Mach) logFresh(key string, entry *State) {
	m.logWrite(key, m.c.AddK(entry.alloc, 1))
}

func sortedTerms(s map[*Term]bool) []*Term {
	var r []*Term
	for t := range s {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (m *Mach) assumeBnds(st *State, L *loopDesc) {
	if L.bnds != nil {
		for _, b := range L.bnds(st) {
			m.assume(st, b)
		}
	} else {
		m.assume(st, m.c.Le(m.c.Int(0), st.vars[L.kkey].X))
	}
}

type boundInv struct {
	decl *ast.FuncDecl
	name string
	args []func(cur, entry *State) Val
	L    *loopDesc
	fr   *Frame
}

// findInvs locates the user invariants of the loop and binds their parameters.
func (m *Mach) findInvs(fr *Frame, L *loopDesc) []*boundInv {
	if m.noInv {
		return nil
	}
	var out []*boundInv
	try := func(f *Frame, node ast.Stmt, pos token.Pos, second *Frame, pos2 token.Pos) {
		if f.Decl == nil {
			return
		}
		ord := m.loopOrd(f.Decl, node)
		base := "inv_" + strings.ReplaceAll(f.Name, ".", "_") + "_" + strconv.Itoa(ord)
		var names []string
		for nm := range m.p.SpecFuncs {
			if nm == base || strings.HasPrefix(nm, base+"__") {
				names = append(names, nm)
			}
		}
		sort.Strings(names)
		for _, nm := range names {
			if i := strings.Index(nm, "__"); i >= 0 && !m.unit.Inv[nm[i+2:]] {
				continue
			}
			d := m.p.SpecFuncs[nm]
			bi := &boundInv{decl: d, name: nm, L: L, fr: f}
			for _, p := range d.Type.Params.List {
				for _, id := range p.Names {
					bi.args = append(bi.args, m.bindInvArg(nm, f, pos, second, pos2, L, id.Name))
				}
			}
			m.invInfo[nm] = "bound"
			out = append(out, bi)
		}
	}
	if fr.Yield != nil {
		y := fr.Yield
		var yp token.Pos
		if rs, ok := y.node.(*ast.RangeStmt); ok {
			yp = rs.Body.Lbrace + 1
		}
		try(y.fr, y.node, yp, fr, L.pos)
		// the outer statement may itself be driven by an outer iterator
	}
	try(fr, L.node, L.pos, nil, token.NoPos)
	return out
}

func (m *Mach) bindInvArg(inv string, fr *Frame, pos token.Pos, second *Frame, pos2 token.Pos, L *loopDesc, name string) func(cur, entry *State) Val {
	if name == "k_" {
		return func(cur, entry *State) Val { return cur.vars[L.kkey] }
	}
	mode := ""
	nm := name
	if strings.HasPrefix(name, "old_") {
		mode, nm = "old", name[4:]
	} else if strings.HasPrefix(name, "start_") {
		mode, nm = "start", name[6:]
	}
	if strings.HasPrefix(name, "unit_") { // a parameter of the contract being proved
		root := fr
		for root.Caller != nil || root.Parent != nil {
			if root.Caller != nil {
				root = root.Caller
			} else {
				root = root.Parent
			}
		}
		if root.Decl != nil {
			if sc := m.p.Info.Scopes[root.Decl.Type]; sc != nil {
				if o := sc.Lookup(name[5:]); o != nil {
					return func(cur, entry *State) Val {
						_, v, ok := m.lookup(cur, root, o)
						if !ok {
							panic(bindError{fmt.Sprintf("%s: parameter %q not bound", inv, name)})
						}
						return m.readVar(cur, o, v)
					}
				}
			}
		}
		panic(bindError{fmt.Sprintf("%s: no parameter %q", inv, name)})
	}
	find := func(f *Frame, pos token.Pos) (types.Object, *Frame) {
		for _, file := range m.p.Files {
			if file.Pos() <= pos && pos <= file.End() {
				sc := m.p.Info.Scopes[file]
				if sc == nil {
					continue
				}
				in := sc.Innermost(pos)
				if in == nil {
					continue
				}
				_, o := in.LookupParent(nm, pos)
				if o != nil {
					if _, ok := o.(*types.Var); ok && o.Parent() != m.p.Pkg.Scope() {
						return o, f
					}
				}
			}
		}
		return nil, nil
	}
	o, f := find(fr, pos)
	if o == nil && second != nil {
		o, f = find(second, pos2)
	}
	if o == nil { // a loop that calls a closure: variables of the closure's scope
		for _, fn := range fr.FnArgs {
			if fn.Lit != nil {
				if o, f = find(fn.Fr, fn.Lit.Pos()); o != nil {
					break
				}
			}
		}
	}
	if o == nil {
		panic(bindError{fmt.Sprintf("%s: no variable %q at the loop", inv, nm)})
	}
	return func(cur, entry *State) Val {
		s := cur
		if mode == "old" {
			s = entry
		} else if mode == "start" {
			g := f
			for g.Lit != nil && g.Parent != nil {
				g = g.Parent
			}
			s = g.Entry
		}
		_, v, ok := m.lookup(s, f, o)
		if !ok {
			panic(bindError{fmt.Sprintf("%s: variable %q not bound at the loop", inv, nm)})
		}
		return m.readVar(s, o, v)
	}
}

type bindError struct{ msg string }

// evalInv evaluates the invariant in state st.
func (m *Mach) evalInv(st, entry *State, b *boundInv, goal bool) *Term {
	args := make([]Val, len(b.args))
	obj := m.p.Info.Defs[b.decl.Name].(*types.Func)
	sig := obj.Type().(*types.Signature)
	for i, f := range b.args {
		v := f(st, entry)
		pt := sig.Params().At(i).Type()
		if v.F == nil && v.Q == nil && v.Fn == nil && m.sortOf(pt) != v.X.Sort && !isIface(pt) && !isIface(v.T) {
			panic(bindError{fmt.Sprintf("%s: parameter %d has another type", b.name, i)})
		}
		args[i] = m.coerce(v, pt)
	}
	saved := m.invCtx
	root := b.fr
	for root.Lit != nil && root.Parent != nil {
		root = root.Parent
	}
	ic := &invCtx{entry: entry, start: root.Entry}
	if b.L.vis != nil {
		ic.vis = st.vars[b.L.vkey].X
		ic.visKey = b.L.vis
	}
	m.invCtx = ic
	if goal {
		m.goal++
	} else {
		g := m.goal
		m.goal = 0
		defer func() { m.goal = g }()
	}
	v := m.mergePure(st, func(s *State, k K) {
		m.inline(s, b.decl, nil, obj, b.decl, nil, args, func(s *State, vs []Val) { k(s, vs[0]) })
	}, types.Typ[types.Bool])
	if goal {
		m.goal--
	}
	m.invCtx = saved
	return v.X
}

type cand struct {
	newer func(st *State) *Term
	frame string
	name  string
	f     func(st *State) *Term
	dead  bool
}

func (m *Mach) candidatesFor(entry *State, fr *Frame, L *loopDesc, ms *modset) []*cand {
	c := m.c
	var out []*cand
	add := func(name string, f func(st *State) *Term, nw ...func(st *State) *Term) {
		cd := &cand{name: name, f: f}
		if len(nw) > 0 {
			cd.newer = nw[0]
		}
		out = append(out, cd)
	}
	intCands := func(name string, v0 *Term, get func(*State) *Term) {
		k := func(st *State) *Term { return st.vars[L.kkey].X }
		add(name+"=v0+k", func(st *State) *Term { return c.Eq(get(st), c.Add(v0, k(st))) })
		add(name+"=v0-k", func(st *State) *Term { return c.Eq(get(st), c.Sub(v0, k(st))) })
		add(name+">=v0", func(st *State) *Term { return c.Le(v0, get(st)) })
		add(name+"<=v0", func(st *State) *Term { return c.Le(get(st), v0) })
	}
	var keys []vkey
	for kk := range ms.vars {
		keys = append(keys, kk)
	}
	sort.Slice(keys, func(i, j int) bool {
		return m.vkName(keys[i]) < m.vkName(keys[j])
	})
	for _, kk := range keys {
		kk := kk
		if kk == L.kkey || kk.obj == nil {
			continue
		}
		v0, in := entry.vars[kk]
		if !in || v0.X == nil || v0.Fn != nil {
			continue
		}
		get := func(st *State) *Term { return st.vars[kk].X }
		switch {
		case v0.X.Sort == "Int" && isInt(v0.T) && !m.boxedVar(kk.obj):
			intCands(m.vkName(kk), v0.X, get)
		case v0.X.Sort == "Sl":
			m.sliceCands(entry, L, m.vkName(kk), v0.X, get, add)
		case v0.X.Sort == "V":
			add(m.vkName(kk)+" not nil", func(st *State) *Term { return c.Not(c.Is("VNil", get(st))) })
		case isPtrLike(v0.T):
			add(m.vkName(kk)+" not nil", func(st *State) *Term { return c.Not(c.Eq(get(st), c.Int(0))) })
		}
	}
	// heap cells at loop-invariant addresses
	for _, key := range sortedKeys(ms.cells) {
		if ms.any[key] {
			continue
		}
		for _, a := range sortedTerms(ms.cells[key]) {
			key, a := key, a
			h0, ok := entry.heap[key]
			if !ok {
				continue
			}
			v0 := c.Select(h0, a)
			get := func(st *State) *Term { return c.Select(st.heap[key], a) }
			switch v0.Sort {
			case "Int":
				if strings.HasPrefix(key, "F:") || strings.HasPrefix(key, "T:") || strings.HasPrefix(key, "C:") || strings.HasPrefix(key, "G:") {
					intCands(key, v0, get)
				}
			case "Sl":
				m.sliceCands(entry, L, key, v0, get, add)
			}
		}
	}
	// memory that existed when the unit started, for components written at other unknown addresses
	for _, key := range sortedKeysB(ms.any) {
		if cd := m.frameCand(entry, key); cd != nil {
			out = append(out, cd)
		}
	}
	// relaxed conjuncts of the loop condition
	if L.cond != nil {
		var conj func(e ast.Expr)
		conj = func(e ast.Expr) {
			e = ast.Unparen(e)
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return
			}
			if b.Op == token.LAND {
				conj(b.X)
				conj(b.Y)
				return
			}
			if !isInt(m.p.Info.TypeOf(b.X)) || !isInt(m.p.Info.TypeOf(b.Y)) {
				return
			}
			ev := func(f func(a, b *Term) *Term) func(st *State) *Term {
				return func(st *State) *Term {
					return f(m.evalPure(st, fr, b.X).X, m.evalPure(st, fr, b.Y).X)
				}
			}
			switch b.Op {
			case token.LSS:
				add("cond<", ev(func(a, b *Term) *Term { return c.Le(a, b) }))
			case token.LEQ:
				add("cond<=", ev(func(a, b *Term) *Term { return c.Le(a, c.AddK(b, 1)) }))
			case token.GTR:
				add("cond>", ev(func(a, b *Term) *Term { return c.Le(b, a) }))
			case token.GEQ:
				add("cond>=", ev(func(a, b *Term) *Term { return c.Le(b, c.AddK(a, 1)) }))
			case token.NEQ:
				add("cond!=<", ev(func(a, b *Term) *Term { return c.Le(a, b) }))
				add("cond!=>", ev(func(a, b *Term) *Term { return c.Le(b, a) }))
			}
		}
		conj(L.cond)
	}
	return out
}

func (m *Mach) vkName(k vkey) string {
	if k.obj != nil {
		return k.obj.Name() + "@" + strconv.Itoa(k.fr)
	}
	return k.aux
}

func (m *Mach) sliceCands(entry *State, L *loopDesc, name string, v0 *Term, get func(*State) *Term, add func(string, func(*State) *Term, ...func(*State) *Term)) {
	c := m.c
	ln := func(t *Term) *Term { return c.Proj("sl_len", t) }
	arr := func(t *Term) *Term { return c.Proj("sl_arr", t) }
	add(name+".len=len0+k", func(st *State) *Term { return c.Eq(ln(get(st)), c.Add(ln(v0), st.vars[L.kkey].X)) })
	add(name+".len=len0-k", func(st *State) *Term { return c.Eq(ln(get(st)), c.Sub(ln(v0), st.vars[L.kkey].X)) })
	add(name+".len>=len0", func(st *State) *Term { return c.Le(ln(v0), ln(get(st))) })
	add(name+".len<=len0", func(st *State) *Term { return c.Le(ln(get(st)), ln(v0)) })
	add(name+".len=len0", func(st *State) *Term { return c.Eq(ln(v0), ln(get(st))) })
	add(name+".arr", func(st *State) *Term {
		return c.Or(c.And(c.Eq(arr(get(st)), arr(v0)), c.Eq(c.Proj("sl_off", get(st)), c.Proj("sl_off", v0)), c.Eq(c.Proj("sl_cap", get(st)), c.Proj("sl_cap", v0))),
			c.And(c.LeRaw(c.AddK(entry.alloc, 1), arr(get(st))), c.Eq(c.Proj("sl_off", get(st)), c.Int(0))))
	})
	add(name+".arr fresh", func(st *State) *Term { return c.LeRaw(c.AddK(entry.alloc, 1), arr(get(st))) })
	add(name+".arr same", func(st *State) *Term { return c.Eq(arr(get(st)), arr(v0)) })
	add(name+".arr after start", func(st *State) *Term { return c.LeRaw(c.AddK(m.alloc0, 1), arr(get(st))) }, func(st *State) *Term { return arr(get(st)) })
	add(name+".arr since start", func(st *State) *Term {
		return c.Or(c.Eq(ln(get(st)), c.Int(0)), c.LeRaw(c.AddK(m.alloc0, 1), arr(get(st))))
	})
}

func (m *Mach) invLoop(st *State, fr *Frame, L *loopDesc, k KS) {
	c := m.c
	entry := st.clone()
	invs := m.findInvs(fr, L)
	if len(invs) == 0 && m.definite(st, L) {
		m.unrollLoop(st, L, 0, true, k)
		return
	}
	lname := fr.Name
	if fr.Decl != nil {
		lname = fmt.Sprintf("%s#%d", fr.Name, m.loopOrd(fr.Decl, L.node))
	}
	m.loopSeen[lname] = true
	// user invariants on entry
	for _, b := range invs {
		t := m.evalInv(st, entry, b, true)
		m.oblige(st, "loop "+lname+" inv entry", t, b.name)
		m.assume(st, t)
	}
	assumeUser := func(s *State) {
		for _, b := range invs {
			m.assume(s, m.evalInv(s, entry, b, false))
		}
	}
	noFrame := map[string]bool{}
	var ms *modset
	var live []*cand
again:
	ms = m.computeMods(entry, fr, L, noFrame, assumeUser)
	// Houdini over the automatic candidates
	live = nil
	for _, cd := range m.candidatesFor(entry, fr, L, ms) {
		if noFrame[cd.frame] {
			continue
		}
		t, ok := m.tryTerm(func() *Term { return cd.f(entry) })
		if ok && (t == c.True || m.valid(entry, t, 300)) {
			live = append(live, cd)
		}
	}
	for round := 0; len(live) > 0; round++ {
		dropped := false
		m.pushed(func() {
			m.dry++
			head := entry.clone()
			m.havocLoop(head, entry, ms)
			m.assumeBnds(head, L)
			for _, cd := range live {
				m.noteNew(cd, head, entry)
				if cd.frame != "" {
					m.assume(head, cd.f(head))
					m.noteFrame(cd, head, entry)
				}
			}
			assumeUser(head)
			for _, cd := range live {
				if cd.frame != "" {
					continue
				}
				if t, ok := m.tryTerm(func() *Term { return cd.f(head) }); ok {
					m.assume(head, t)
				} else {
					cd.dead = true
					dropped = true
				}
			}
			head.ph = &handler{f: func(*State, *ctl) {}}
			m.iterate(head, L, func(s *State) {
				for _, cd := range live {
					if cd.dead {
						continue
					}
					t, ok := m.tryTerm(func() *Term { return cd.f(s) })
					if !ok || t != c.True && !m.valid(s, t, 300) {
						cd.dead = true
						dropped = true
					}
				}
			}, func(*State) {}, func(*State, *ctl) {})
			m.dry--
		})
		var l2 []*cand
		for _, cd := range live {
			if !cd.dead {
				l2 = append(l2, cd)
			}
		}
		live = l2
		if !dropped {
			break
		}
	}
	// the modified set was computed under the frames: they must all have survived
	for _, key := range sortedKeysB(ms.any) {
		kept := noFrame[key] || m.frameCand(entry, key) == nil
		for _, cd := range live {
			kept = kept || cd.frame == key
		}
		if !kept {
			noFrame[key] = true
			goto again
		}
	}
	if debugLoops {
		fmt.Printf("loop %s unit %s dry=%d mods:", lname, m.unit.Name, m.dry)
		for kk := range ms.vars {
			fmt.Printf(" %s", m.vkName(kk))
		}
		for kk, v := range ms.cells {
			fmt.Printf(" %s(%d)", kk, len(v))
		}
		for kk := range ms.fresh {
			fmt.Printf(" %s(fresh)", kk)
		}
		for kk := range ms.any {
			fmt.Printf(" %s(ANY)", kk)
		}
		fmt.Printf(" live:")
		for _, cd := range live {
			fmt.Printf(" [%s]", cd.name)
		}
		fmt.Println()
	}
	m.pushed(func() {
		head := entry.clone()
		m.havocLoop(head, entry, ms)
		m.assumeBnds(head, L)
		for _, cd := range live {
			m.noteNew(cd, head, entry)
			if cd.frame != "" {
				m.assume(head, cd.f(head))
				m.noteFrame(cd, head, entry)
			}
		}
		assumeUser(head)
		for _, cd := range live {
			if cd.frame != "" {
				continue
			}
			if t, ok := m.tryTerm(func() *Term { return cd.f(head) }); ok {
				m.assume(head, t)
			}
		}
		m.iterate(head, L, func(s *State) {
			for _, b := range invs {
				m.oblige(s, "loop "+lname+" inv preserved", m.evalInv(s, entry, b, true), b.name)
			}
			if len(s.defers[fr.id]) != len(entry.defers[fr.id]) {
				m.unsup(L.node, "defer in loop")
			}
		}, func(s *State) { k(s, normal) }, func(s *State, cc *ctl) { k(s, cc) })
	})
}

// noteNew lets the simplifier use that an array was allocated since the unit started.
func (m *Mach) noteNew(cd *cand, head, entry *State) {
	if cd.newer == nil {
		return
	}
	a := cd.newer(head)
	if i, k, ok := m.c.allocOf(m.alloc0); ok && a.Op != "int" && a != cd.newer(entry) {
		if _, has := m.c.newPtr[a]; !has {
			m.c.newPtr[a] = bnd{i, k + 1}
		}
	}
}

// frameCand: memory that existed when the unit started is not written by the loop.
func (m *Mach) frameCand(entry *State, key string) *cand {
	c := m.c
	h0, ok := entry.heap[key]
	if !ok || !strings.HasPrefix(h0.Sort, "(Array Int") {
		return nil
	}
	a := c.BoundVar("a", "Int")
	return &cand{name: key + " frame", frame: key, f: func(st *State) *Term {
		h := st.heap[key]
		if h == h0 {
			return c.True
		}
		sel := c.intern(&Term{Op: "select", Args: []*Term{h, a}, Sort: elemSort(h0.Sort)})
		return c.Forall([]*Term{a}, c.Implies(c.LeRaw(a, m.alloc0), c.Eq(sel, c.Select(h0, a))), [][]*Term{{sel}})
	}}
}

// noteFrame lets the simplifier use a frame candidate that is assumed.
func (m *Mach) noteFrame(cd *cand, head, entry *State) {
	if cd.frame == "" {
		return
	}
	if i, k, ok := m.c.allocOf(m.alloc0); ok {
		m.c.mixOf[head.heap[cd.frame]] = mixInfo{entry.heap[cd.frame], i, k}
	}
}

func (m *Mach) tryTerm(f func() *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case pureAbort, unsupported:
				t, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	m.pureDepthGuard()
	p, q := m.pure, m.probe
	defer func() { m.pure, m.probe = p, q }()
	return f(), true
}

func (m *Mach) pureDepthGuard() {}

func sortedKeysB(s map[string]bool) []string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
