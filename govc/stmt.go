package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

type KS func(*State, *ctl)

func (m *Mach) exec(st *State, fr *Frame, ss []ast.Stmt, k KS) {
	if len(ss) == 0 {
		k(st, normal)
		return
	}
	m.stmt(st, fr, ss[0], "", func(st *State, c *ctl) {
		if c.kind != cNormal {
			k(st, c)
			return
		}
		m.exec(st, fr, ss[1:], k)
	})
}

func (m *Mach) stmt(st *State, fr *Frame, s ast.Stmt, label string, k KS) {
	ok := func(st *State) { k(st, normal) }
	switch s := s.(type) {
	case nil:
		ok(st)
	case *ast.EmptyStmt:
		ok(st)
	case *ast.BlockStmt:
		m.exec(st, fr, s.List, k)
	case *ast.ExprStmt:
		if c, is := ast.Unparen(s.X).(*ast.CallExpr); is {
			m.evalCall(st, fr, c, func(st *State, _ []Val) { ok(st) })
			return
		}
		m.eval(st, fr, s.X, func(st *State, _ Val) { ok(st) })
	case *ast.DeclStmt:
		m.declStmt(st, fr, s, ok)
	case *ast.AssignStmt:
		m.assign(st, fr, s, ok)
	case *ast.IncDecStmt:
		m.eval(st, fr, s.X, func(st *State, v Val) {
			d := int64(1)
			if s.Tok == token.DEC {
				d = -1
			}
			m.assignTo(st, fr, s.X, Val{T: v.T, X: m.wrapInt(m.c.AddK(v.X, d), v.T)}, ok)
		})
	case *ast.IfStmt:
		m.stmt(st, fr, s.Init, "", func(st *State, c *ctl) {
			m.cond(st, fr, s.Cond, func(st *State) {
				m.exec(st, fr, s.Body.List, k)
			}, func(st *State) {
				m.stmt(st, fr, s.Else, "", k)
			})
		})
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			k(st, &ctl{kind: cReturn})
			return
		}
		fin := func(st *State, vs []Val) {
			var out []Val
			for i, v := range vs {
				out = append(out, m.coerce(v, fr.Sig.Results().At(i).Type()))
			}
			k(st, &ctl{kind: cReturn, vals: out})
		}
		if len(s.Results) == 1 {
			if c, is := ast.Unparen(s.Results[0]).(*ast.CallExpr); is {
				if _, tup := m.p.Info.TypeOf(c).(*types.Tuple); tup {
					m.evalCall(st, fr, c, fin)
					return
				}
			}
		}
		m.evalList(st, fr, s.Results, fin)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			k(st, &ctl{kind: cBreak, label: l})
		case token.CONTINUE:
			k(st, &ctl{kind: cContinue, label: l})
		case token.FALLTHROUGH:
			k(st, &ctl{kind: cFallthrough})
		default:
			m.unsup(s, "goto")
		}
	case *ast.LabeledStmt:
		m.stmt(st, fr, s.Stmt, s.Label.Name, func(st *State, c *ctl) {
			if c.kind == cBreak && c.label == s.Label.Name {
				c = normal
			}
			k(st, c)
		})
	case *ast.SwitchStmt:
		m.switchStmt(st, fr, s, label, k)
	case *ast.TypeSwitchStmt:
		m.typeSwitch(st, fr, s, label, k)
	case *ast.ForStmt:
		m.forStmt(st, fr, s, label, k)
	case *ast.RangeStmt:
		m.rangeStmt(st, fr, s, label, k)
	case *ast.DeferStmt:
		m.deferStmt(st, fr, s, ok)
	default:
		m.unsup(s, "statement %T", s)
	}
}

func (m *Mach) declStmt(st *State, fr *Frame, s *ast.DeclStmt, ok func(*State)) {
	gd, is := s.Decl.(*ast.GenDecl)
	if !is || gd.Tok != token.VAR {
		ok(st)
		return
	}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(gd.Specs) {
			ok(st)
			return
		}
		vs := gd.Specs[i].(*ast.ValueSpec)
		if len(vs.Values) == 0 {
			for _, nm := range vs.Names {
				if nm.Name == "_" {
					continue
				}
				o := m.p.Info.Defs[nm]
				m.declare(st, fr, o, m.zero(o.Type()))
			}
			rec(st, i+1)
			return
		}
		bind := func(st *State, vals []Val) {
			for j, nm := range vs.Names {
				if nm.Name != "_" {
					m.declare(st, fr, m.p.Info.Defs[nm], vals[j])
				}
			}
			rec(st, i+1)
		}
		m.rhs(st, fr, vs.Values, len(vs.Names), bind)
	}
	rec(st, 0)
}

// rhs evaluates the right-hand sides of an assignment to n values.
func (m *Mach) rhs(st *State, fr *Frame, es []ast.Expr, n int, k KV) {
	if len(es) == n {
		m.evalList(st, fr, es, k)
		return
	}
	e := ast.Unparen(es[0])
	switch e := e.(type) {
	case *ast.CallExpr:
		m.evalCall(st, fr, e, k)
	case *ast.IndexExpr:
		m.evalIndex(st, fr, e, true, func(st *State, v, okv Val) { k(st, []Val{v, okv}) })
	case *ast.TypeAssertExpr:
		m.evalAssert(st, fr, e, true, func(st *State, v, okv Val) { k(st, []Val{v, okv}) })
	default:
		m.unsup(e, "multi-value right-hand side")
	}
}

func (m *Mach) assign(st *State, fr *Frame, s *ast.AssignStmt, ok func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		m.eval(st, fr, s.Lhs[0], func(st *State, a Val) {
			m.eval(st, fr, s.Rhs[0], func(st *State, b Val) {
				m.binop(st, s, op, a, b, a.T, func(st *State, v Val) {
					m.assignTo(st, fr, s.Lhs[0], v, ok)
				})
			})
		})
		return
	}
	m.rhs(st, fr, s.Rhs, len(s.Lhs), func(st *State, vs []Val) {
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(s.Lhs) {
				ok(st)
				return
			}
			next := func(st *State) { rec(st, i+1) }
			if id, is := s.Lhs[i].(*ast.Ident); is {
				if id.Name == "_" {
					next(st)
					return
				}
				if s.Tok == token.DEFINE {
					if o := m.p.Info.Defs[id]; o != nil {
						m.declare(st, fr, o, vs[i])
						next(st)
						return
					}
				}
			}
			m.assignTo(st, fr, s.Lhs[i], vs[i], next)
		}
		rec(st, 0)
	})
}

func (m *Mach) assignTo(st *State, fr *Frame, lhs ast.Expr, v Val, ok func(*State)) {
	lhs = ast.Unparen(lhs)
	c := m.c
	switch l := lhs.(type) {
	case *ast.Ident:
		if l.Name == "_" {
			ok(st)
			return
		}
		o := m.p.Info.ObjectOf(l)
		key, cur, found := m.lookup(st, fr, o)
		if !found {
			if o.Parent() == m.p.Pkg.Scope() {
				v = m.scalarFn(m.coerce(v, o.Type()))
				if v.F != nil {
					m.storeStruct(st, o.Type(), c.Const("GA:"+o.Name(), "Int"), v)
				} else {
					m.setComp(st, "G:"+o.Name(), c.Int(0), v.X, "")
				}
				ok(st)
				return
			}
			m.unsup(l, "assignment to unbound %s", l.Name)
		}
		if m.probe > 0 && m.frameOutside(key.fr) {
			panic(pureAbort{"assignment to outer variable"})
		}
		if m.boxedVar(o) && cur.F == nil {
			if s, _ := m.localStruct(o.Type()); s != nil {
				m.storeStruct(st, o.Type(), cur.X, m.coerce(v, o.Type()))
			} else {
				v = m.scalarFn(m.coerce(v, o.Type()))
				m.setComp(st, "C:"+m.sortOf(o.Type()), cur.X, v.X, "")
			}
			ok(st)
			return
		}
		st.vars[key] = m.coerce(v, o.Type())
		ok(st)
	case *ast.SelectorExpr:
		sel := m.p.Info.Selections[l]
		if sel == nil {
			if o, is := m.p.Info.ObjectOf(l.Sel).(*types.Var); is && o.Pkg() == m.p.Pkg {
				m.setComp(st, "G:"+o.Name(), c.Int(0), m.scalarFn(m.coerce(v, o.Type())).X, "")
				ok(st)
				return
			}
			m.unsup(l, "assignment to external variable")
		}
		path := sel.Index()
		m.evalBase(st, fr, l.X, func(st *State, cu cursor) {
			m.walk(st, l, cu, path[:len(path)-1], func(st *State, cu cursor) {
				store := func(st *State, addr *Term, t types.Type) {
					m.storeField(st, t, path[len(path)-1], addr, v)
					ok(st)
				}
				if cu.addr != nil {
					store(st, cu.addr, cu.t)
					return
				}
				el, isPtr := derefType(cu.t)
				if !isPtr {
					m.unsup(l, "assignment to field of value")
				}
				m.chk(st, l, c.Not(c.Eq(cu.v.X, c.Int(0))), "nil pointer dereference", func(st *State) {
					store(st, cu.v.X, el)
				})
			})
		})
	case *ast.IndexExpr:
		m.eval(st, fr, l.X, func(st *State, x Val) {
			m.eval(st, fr, l.Index, func(st *State, i Val) {
				switch u := types.Unalias(x.T).Underlying().(type) {
				case *types.Map:
					m.chk(st, l, c.Not(c.Eq(x.X, c.Int(0))), "assignment to entry in nil map", func(st *State) {
						key := m.mapKey(i, u.Key())
						m.mapFacts(st, x.T, x.X, key)
						m.mapStore(st, x.T, x.X, key, m.scalarFn(m.coerce(v, u.Elem())).X)
						ok(st)
					})
				case *types.Slice:
					m.chk(st, l, c.And(c.Le(c.Int(0), i.X), c.Lt(i.X, c.Proj("sl_len", x.X))), "index out of range", func(st *State) {
						m.storeElem(st, u.Elem(), c.Proj("sl_arr", x.X), c.Add(c.Proj("sl_off", x.X), i.X), v)
						ok(st)
					})
				case *types.Array:
					if len(x.F) == 0 {
						m.unsup(l, "indexed assignment to %s", x.T)
					}
					m.chk(st, l, c.And(c.Le(c.Int(0), i.X), c.Lt(i.X, c.Int(u.Len()))), "index out of range", func(st *State) {
						r := Val{T: x.T, F: append([]Val(nil), x.F...)}
						nv := m.coerce(v, u.Elem())
						for j := range r.F {
							r.F[j] = m.iteVal(c.Eq(i.X, c.Int(int64(j))), nv, r.F[j])
						}
						m.assignTo(st, fr, l.X, r, ok)
					})
				default:
					m.unsup(l, "indexed assignment to %s", x.T)
				}
			})
		})
	case *ast.StarExpr:
		m.eval(st, fr, l.X, func(st *State, p Val) {
			m.chk(st, l, c.Not(c.Eq(p.X, c.Int(0))), "nil pointer dereference", func(st *State) {
				el, _ := derefType(p.T)
				if s, _ := m.localStruct(el); s != nil {
					m.storeStruct(st, el, p.X, m.coerce(v, el))
				} else {
					m.setComp(st, "C:"+m.sortOf(el), p.X, m.scalarFn(m.coerce(v, el)).X, "")
				}
				ok(st)
			})
		})
	default:
		m.unsup(lhs, "assignment target %T", lhs)
	}
}

// frameOutside: in probe mode only frames created inside the probe may be assigned.
func (m *Mach) frameOutside(id int) bool { return id <= m.probeFrame }

func (m *Mach) switchStmt(st *State, fr *Frame, s *ast.SwitchStmt, label string, k KS) {
	fin := func(st *State, c *ctl) {
		if c.kind == cBreak && (c.label == "" || c.label == label) {
			c = normal
		}
		k(st, c)
	}
	clauses := s.Body.List
	var runFrom func(st *State, i int)
	runFrom = func(st *State, i int) {
		m.exec(st, fr, clauses[i].(*ast.CaseClause).Body, func(st *State, c *ctl) {
			if c.kind == cFallthrough {
				runFrom(st, i+1)
				return
			}
			fin(st, c)
		})
	}
	m.stmt(st, fr, s.Init, "", func(st *State, _ *ctl) {
		start := func(st *State, tag *Val) {
			def := -1
			for i, cl := range clauses {
				if cl.(*ast.CaseClause).List == nil {
					def = i
				}
			}
			var try func(st *State, i, j int)
			try = func(st *State, i, j int) {
				if i == len(clauses) {
					if def >= 0 {
						runFrom(st, def)
					} else {
						k(st, normal)
					}
					return
				}
				cc := clauses[i].(*ast.CaseClause)
				if j >= len(cc.List) {
					try(st, i+1, 0)
					return
				}
				if tag == nil {
					m.cond(st, fr, cc.List[j], func(st *State) { runFrom(st, i) }, func(st *State) { try(st, i, j+1) })
					return
				}
				m.eval(st, fr, cc.List[j], func(st *State, v Val) {
					m.fork(st, m.eqVal(*tag, v, cc), func(st *State) { runFrom(st, i) }, func(st *State) { try(st, i, j+1) })
				})
			}
			try(st, 0, 0)
		}
		if s.Tag == nil {
			start(st, nil)
			return
		}
		m.eval(st, fr, s.Tag, func(st *State, v Val) { start(st, &v) })
	})
}

func (m *Mach) typeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt, label string, k KS) {
	fin := func(st *State, c *ctl) {
		if c.kind == cBreak && (c.label == "" || c.label == label) {
			c = normal
		}
		k(st, c)
	}
	m.stmt(st, fr, s.Init, "", func(st *State, _ *ctl) {
		var x ast.Expr
		bind := false
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			x = ast.Unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X
			bind = true
		}
		m.eval(st, fr, x, func(st *State, v Val) {
			clauses := s.Body.List
			run := func(st *State, i int, b Val) {
				cc := clauses[i].(*ast.CaseClause)
				if bind {
					if o := m.p.Info.Implicits[cc]; o != nil {
						m.declare(st, fr, o, b)
					}
				}
				m.exec(st, fr, cc.Body, fin)
			}
			def := -1
			for i, cl := range clauses {
				if cl.(*ast.CaseClause).List == nil {
					def = i
				}
			}
			var try func(st *State, i, j int)
			try = func(st *State, i, j int) {
				if i == len(clauses) {
					if def >= 0 {
						run(st, def, v)
					} else {
						k(st, normal)
					}
					return
				}
				cc := clauses[i].(*ast.CaseClause)
				if j >= len(cc.List) {
					try(st, i+1, 0)
					return
				}
				te := cc.List[j]
				var cond *Term
				var b Val
				if tv := m.p.Info.Types[te]; tv.IsNil() {
					cond = m.c.Is("VNil", v.X)
					b = v
				} else {
					t := tv.Type
					cond = m.typeCond(st, v.X, t)
					b = v
					if len(cc.List) == 1 {
						b = m.unbox(v.X, t)
					}
				}
				m.fork(st, cond, func(st *State) {
					m.wf(st, b)
					run(st, i, b)
				}, func(st *State) { try(st, i, j+1) })
			}
			try(st, 0, 0)
		})
	})
}

func (m *Mach) deferStmt(st *State, fr *Frame, s *ast.DeferStmt, ok func(*State)) {
	if m.pure > 0 || m.probe > 0 {
		panic(pureAbort{"defer"})
	}
	e := s.Call
	push := func(st *State, fn *FnVal, args []Val) {
		if st.defers == nil {
			st.defers = map[int][]deferred{}
		}
		fn.Sig, _ = m.p.Info.TypeOf(e.Fun).(*types.Signature)
		st.defers[fr.id] = append(append([]deferred(nil), st.defers[fr.id]...), deferred{call: e, fr: fr, fn: fn, args: args})
		ok(st)
	}
	fun := ast.Unparen(e.Fun)
	if sel, is := fun.(*ast.SelectorExpr); is {
		if x := m.p.Info.Selections[sel]; x != nil && x.Kind() == types.MethodVal {
			m.evalRecv(st, fr, sel, x, func(st *State, recv Val, f *types.Func) {
				m.evalArgs(st, fr, e, m.p.Info.TypeOf(fun).(*types.Signature), func(st *State, args []Val) {
					push(st, &FnVal{Fun: f, Recv: &recv}, args)
				})
			})
			return
		}
	}
	m.eval(st, fr, fun, func(st *State, fv Val) {
		if fv.Fn == nil {
			m.unsup(e, "defer of unknown function")
		}
		sig, _ := fv.T.Underlying().(*types.Signature)
		m.evalArgs(st, fr, e, sig, func(st *State, args []Val) {
			fn := *fv.Fn
			push(st, &fn, args)
		})
	})
}
