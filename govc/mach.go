package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

type ctlKind int

const (
	cNormal ctlKind = iota
	cBreak
	cContinue
	cReturn
	cPanic
	cFallthrough
)

type ctl struct {
	kind  ctlKind
	label string
	vals  []Val
	why   string
}

var normal = &ctl{}

// Obligation is one proof obligation of a unit.
type Obligation struct {
	Name    string  `json:"name"`
	Status  string  `json:"status"` // proved | failed
	Backend string  `json:"backend"`
	Secs    float64 `json:"secs"`
	Detail  string  `json:"detail,omitempty"`
	Count   int     `json:"count"` // path instances
	Sat     bool    `json:"countermodel,omitempty"`
	script  string
	model   string
}

// Mach symbolically executes one unit (one contract function).
type Mach struct {
	unfold map[string]bool
	p      *Program
	c      *Ctx
	sess   *Session
	unit   *Unit

	tagIDs   map[string]int
	tagTypes []types.Type
	ifaces   []types.Type
	fns      []*FnVal

	wfDone  map[wfKey]bool
	born    map[*Term]*Term
	trigs   [][]*Term
	wfStack []wfKey

	defDepth   int
	pure       int // >0: merging evaluation, no checks, no solver
	probe      int // >0: merging evaluation with checks; aborts on effects
	spec       int // >0: contract expression: total semantics
	dry        int // >0: obligations are not recorded
	frameN     int
	paths      int
	ends       int // paths that reached the end of the unit
	nforks     int
	oblig      map[string]*Obligation
	order      []string
	writeLog   []*wlog
	deadline   time.Time
	unroll     int
	unrolled   bool
	invInfo    map[string]string
	loopSeen   map[string]bool
	inlined    map[string]bool
	models     map[string]bool
	applied    map[string]bool
	uses       map[string]*ast.FuncDecl // FuncKey -> contract applied at call sites
	failFast   bool
	frameMods  []modLoc
	oldHeap    map[string]*Term
	traceRun   bool
	scope      map[string]bool // contract files the unit depends on
	loopMods   map[string]*modset
	strlitN    int
	vacuity    int
	noInv      bool // ignore user invariants (bounded mode)
	applying   *applyCtx
	probeFrame int
	goal       int
	alloc0     *Term
	wits       []*Term // witnesses of the existential facts in scope
	heap0      map[string]*Term
	invCtx     *invCtx
	errN       int
	known      map[*Term]*Term
	sumDepth   int
	knTrail    []*Term
	rootKey    string
	rootFrame  *Frame
}

type modLoc struct {
	comp string // component or "" for every component
	addr *Term
	sort string
}

type wlog struct {
	trail []wentry // writes on the current path
}

type wentry struct {
	comp string
	addr *Term
}

type pureAbort struct{ why string }

func NewMach(p *Program, u *Unit) *Mach {
	m := &Mach{p: p, c: NewCtx(), unit: u, tagIDs: map[string]int{}, wfDone: map[wfKey]bool{}, oblig: map[string]*Obligation{}, invInfo: map[string]string{}, loopSeen: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{}, applied: map[string]bool{}, uses: map[string]*ast.FuncDecl{}, loopMods: map[string]*modset{}, known: map[*Term]*Term{}, born: map[*Term]*Term{}}
	m.c.UseStr = u.Strings
	m.sess = NewSession(m.c)
	m.deadline = time.Now().Add(time.Duration(u.Budget) * time.Second)
	return m
}

func (m *Mach) newAlloc(st *State) {
	old := st.alloc
	a := m.c.Fresh("alloc", "Int")
	m.c.allocIdx[a] = len(m.c.allocIdx)
	low := bnd{-1, 0}
	if old != nil {
		if i, k, ok := m.c.allocOf(old); ok {
			low = bnd{i, k}
		}
	}
	m.c.allocLow = append(m.c.allocLow, low)
	if old != nil {
		m.assume(st, m.c.LeRaw(old, a))
	} else {
		m.assume(st, m.c.LeRaw(m.c.Int(0), a))
	}
	st.alloc = a
}

func (m *Mach) assume(st *State, t *Term) {
	if t == m.c.True {
		return
	}
	if m.pure > 0 {
		return
	}
	if m.probe > 0 {
		// facts assumed while probing are only valid under delta
		t = m.c.Implies(m.c.And(st.delta...), t)
		m.sess.Assert(t)
		return
	}
	m.pc(t)
}

// pc adds t to the path condition.
func (m *Mach) pc(t *Term) {
	t = m.skolem(t)
	m.sess.Assert(t)
	m.learn(t)
}

// skolem names the witnesses of existential facts.
func (m *Mach) skolem(t *Term) *Term {
	c := m.c
	if t.hasBV {
		return t
	}
	switch t.Op {
	case "and":
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = m.skolem(a)
			ch = ch || as[i] != a
		}
		if ch {
			return c.And(as...)
		}
	case "=>":
		if b := m.skolem(t.Args[1]); b != t.Args[1] {
			return c.Implies(t.Args[0], b)
		}
	case "ite":
		a, b := m.skolem(t.Args[1]), m.skolem(t.Args[2])
		if a != t.Args[1] || b != t.Args[2] {
			return c.And(c.Implies(t.Args[0], a), c.Implies(c.Not(t.Args[0]), b))
		}
	case "not":
		f := t.Args[0]
		if f.Op != "forall" || len(f.Bound) != 1 || f.Bound[0].Sort != "Int" {
			return t
		}
		k := c.Fresh("wit", "Int")
		m.wits = append(m.wits, k)
		return c.Not(c.Subst(f.Args[0], map[*Term]*Term{f.Bound[0]: k}))
	}
	return t
}

// witnesses adds instances of a negated existential goal at the known witnesses and at the last written index.
func (m *Mach) witnesses(g *Term) {
	c := m.c
	f := g.Args[0]
	x := f.Bound[0]
	ws := append([]*Term{}, m.wits...)
	if len(ws) > 4 {
		ws = ws[len(ws)-4:]
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.Op == "select" && !t.Args[0].hasBV && c.toLin(t.Args[1]).co[x] == 1 {
			off := c.Sub(t.Args[1], x)
			if a := t.Args[0]; a.Op == "store" && !off.hasBV {
				ws = append(ws, c.Sub(a.Args[1], off))
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(f.Args[0])
	done := map[*Term]bool{}
	for _, w := range ws {
		if !done[w] {
			done[w] = true
			m.sess.Assert(c.Subst(f.Args[0], map[*Term]*Term{x: w}))
		}
	}
}

// learn records facts of the path condition usable as rewrites.
func (m *Mach) learn(t *Term) {
	set := func(x, v *Term) {
		if x.hasBV || v.hasBV {
			return
		}
		if _, has := m.known[x]; has {
			return
		}
		m.known[x] = v
		m.knTrail = append(m.knTrail, x)
	}
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			m.learn(a)
		}
		return
	case "=":
		a, b := t.Args[0], t.Args[1]
		isC := func(x *Term) bool { return x.Op == "ctor" || x.Op == "int" || x.Op == "str" }
		if isC(a) && !isC(b) {
			set(b, a)
		} else if isC(b) && !isC(a) {
			set(a, b)
		}
	case "is":
		if t.Name == "VNil" {
			set(t.Args[0], m.c.Ctor("VNil", "V"))
		}
	case "not":
		set(t.Args[0], m.c.False)
	}
	if t.Op != "bool" {
		set(t, m.c.True)
	}
}

// kn rewrites a term by what the path condition says about it.
func (m *Mach) kn(x *Term) *Term {
	if r, ok := m.known[x]; ok {
		return r
	}
	return x
}

func (m *Mach) pushed(f func()) {
	m.sess.Push()
	n := len(m.wfStack)
	kn := len(m.knTrail)
	wn := len(m.wits)
	var marks []int
	logs := m.writeLog
	for _, w := range logs {
		marks = append(marks, len(w.trail))
	}
	f()
	for i, w := range logs {
		w.trail = w.trail[:marks[i]]
	}
	m.sess.Pop()
	m.wits = m.wits[:wn]
	for _, t := range m.knTrail[kn:] {
		delete(m.known, t)
	}
	m.knTrail = m.knTrail[:kn]
	for _, k := range m.wfStack[n:] {
		delete(m.wfDone, k)
	}
	m.wfStack = m.wfStack[:n]
}

// valid asks whether t follows from the path condition (quick, incremental).
func (m *Mach) valid(st *State, t *Term, ms int) bool {
	if t == m.c.True {
		return true
	}
	if t == m.c.False && len(st.delta) == 0 && ms <= 300 {
		// only provable if the path is infeasible
	}
	r := ""
	m.sess.Push()
	for _, d := range st.delta {
		m.sess.Assert(d)
	}
	m.sess.Assert(m.c.Not(t))
	r = m.sess.Check(ms)
	m.sess.Pop()
	return r == "unsat"
}

func (m *Mach) feasible(st *State, t *Term) bool {
	if t == m.c.True {
		return true
	}
	if t == m.c.False {
		return false
	}
	return !m.valid(st, m.c.Not(t), 300)
}

// fork explores both outcomes of cond.
func (m *Mach) fork(st *State, cond *Term, kt, kf func(*State)) {
	cond = m.kn(cond)
	if cond == m.c.True {
		kt(st)
		return
	}
	if cond == m.c.False {
		kf(st)
		return
	}
	if m.pure > 0 || m.probe > 0 {
		m.nforks++
		if m.nforks > 4000 {
			panic(pureAbort{"too many forks"})
		}
		if m.probe > 0 {
			s1 := st.clone()
			s1.delta = append(s1.delta, cond)
			kt(s1)
			s2 := st.clone()
			s2.delta = append(s2.delta, m.c.Not(cond))
			kf(s2)
			return
		}
		s1 := st.clone()
		s1.delta = append(s1.delta, cond)
		kt(s1)
		s2 := st.clone()
		s2.delta = append(s2.delta, m.c.Not(cond))
		kf(s2)
		return
	}
	if time.Now().After(m.deadline) {
		panic(unsupported{"unit time budget exhausted"})
	}
	m.pushed(func() {
		m.pc(cond)
		if m.sess.Check(250) != "unsat" {
			kt(st.clone())
		}
	})
	m.pushed(func() {
		m.pc(m.c.Not(cond))
		if m.sess.Check(250) != "unsat" {
			kf(st.clone())
		}
	})
}

// oblige records and discharges a proof obligation under the current path condition.
func (m *Mach) oblige(st *State, name string, goal *Term, detail string) bool {
	if m.pure > 0 {
		return true
	}
	if m.dry > 0 {
		return true
	}
	if m.probe > 0 {
		panic(pureAbort{"obligation in probe"})
	}
	if goal.Op == "and" && len(goal.Args) > 1 {
		ok := true
		for i, g := range goal.Args {
			n := name
			if !m.unit.NoSplit {
				n = fmt.Sprintf("%s.%d", name, i)
			}
			if !m.oblige(st, n, g, detail) {
				ok = false
			}
		}
		return ok
	}
	o := m.oblig[name]
	if o == nil {
		o = &Obligation{Name: name, Status: "proved", Backend: "simplifier"}
		m.oblig[name] = o
		m.order = append(m.order, name)
	}
	o.Count++
	if goal == m.c.True {
		return true
	}
	if o.Status == "failed" {
		return false
	}
	if time.Now().After(m.deadline) {
		panic(unsupported{"unit time budget exhausted"})
	}
	t0 := time.Now()
	verdict, backend := m.prove(goal)
	o.Secs += time.Since(t0).Seconds()
	if verdict == "unsat" {
		if o.Backend == "simplifier" || backend != "z3" {
			o.Backend = backend
		}
		return true
	}
	o.Status = "failed"
	o.Sat = verdict == "sat"
	o.Detail = detail + " (" + verdict + ")"
	o.script = m.sess.Script(goal)
	if os.Getenv("GOVC_DUMP") != "" {
		fn := os.Getenv("GOVC_DUMP") + "/" + strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
				return r
			}
			return '_'
		}, m.unit.Name+"_"+name) + ".smt2"
		os.WriteFile(fn, []byte(o.script), 0o644)
	}
	return false
}

func (m *Mach) prove(goal *Term) (string, string) {
	parts := splittable(goal)
	to := m.unit.Timeout
	if parts && to > 4000 {
		to = 4000
	}
	m.sess.Push()
	m.sess.Assert(m.c.Not(goal))
	r := m.sess.Check(to)
	m.sess.Pop()
	if parts && r == "unknown" {
		if m.proveParts(goal) {
			return "unsat", "z3"
		}
	}
	if r == "unsat" {
		return r, "z3"
	}
	if r == "sat" {
		return r, "z3"
	}
	if m.unit.Quick {
		return "unknown", ""
	}
	v, n := portfolio(m.sess.Script(goal), m.unit.Portfolio)
	return v, n
}

// splittable: a universally quantified or conditional conjunction.
func splittable(g *Term) bool {
	for {
		switch g.Op {
		case "forall":
			g = g.Args[0]
		case "=>":
			g = g.Args[1]
		case "and", "ite":
			return true
		case "not":
			return g.Args[0].Op == "forall"
		default:
			return false
		}
	}
}

// proveParts proves a goal conjunct by conjunct, with its bound variables as new constants.
func (m *Mach) proveParts(g *Term) bool {
	switch g.Op {
	case "forall":
		sb := map[*Term]*Term{}
		for _, b := range g.Bound {
			sb[b] = m.c.Fresh("sk", b.Sort)
		}
		g2 := m.c.Subst(g.Args[0], sb)
		m.sess.Push()
		defer m.sess.Pop()
		m.startFacts(g2)
		return m.proveParts(g2)
	case "=>":
		m.sess.Push()
		defer m.sess.Pop()
		m.sess.Assert(g.Args[0])
		return m.proveParts(g.Args[1])
	case "ite":
		return m.proveParts(m.c.Implies(g.Args[0], g.Args[1])) && m.proveParts(m.c.Implies(m.c.Not(g.Args[0]), g.Args[2]))
	case "and":
		for _, a := range g.Args {
			if !m.proveParts(a) {
				return false
			}
		}
		return true
	}
	if time.Now().After(m.deadline) {
		panic(unsupported{"unit time budget exhausted"})
	}
	m.sess.Push()
	m.sess.Assert(m.c.Not(g))
	if g.Op == "not" && g.Args[0].Op == "forall" && len(g.Args[0].Bound) == 1 && g.Args[0].Bound[0].Sort == "Int" {
		m.witnesses(g)
	}
	r := m.sess.Check(m.unit.Timeout)
	if r == "unknown" && !m.unit.Quick {
		r, _ = portfolio(m.sess.Script(g), m.unit.Portfolio)
	}
	m.sess.Pop()
	if r != "unsat" && os.Getenv("GOVC_PARTS") != "" {
		fmt.Fprintf(os.Stderr, "part %s: %v\n", r, g)
	}
	return r == "unsat"
}

// startFacts: what the start heap holds was allocated before the unit started.
func (m *Mach) startFacts(t *Term) {
	c := m.c
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.Op == "forall" {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op != "select" || t.hasBV {
			return
		}
		h := t.Args[0]
		if h.Op == "select" {
			h = h.Args[0]
		}
		if h.Op != "const" || !strings.HasPrefix(h.Name, "H0:") {
			return
		}
		switch t.Sort {
		case "Sl":
			m.sess.Assert(c.And(c.Le(c.Proj("sl_arr", t), m.alloc0), c.Le(c.Int(0), c.Proj("sl_arr", t)), c.Le(c.Int(0), c.Proj("sl_off", t)), c.Le(c.Int(0), c.Proj("sl_len", t))))
		case "V":
			m.sess.Assert(c.And(c.Le(c.Proj("vp_v", t), m.alloc0), c.Le(c.Int(0), c.Proj("vp_v", t))))
		}
	}
	visit(t)
}

// check is a runtime check of the code under verification: failing panics.
func (m *Mach) check(st *State, n ast.Node, cond *Term, why string, k func(*State), onPanic func(*State, *ctl)) {
	cond = m.kn(cond)
	if cond == m.c.True || m.pure > 0 || m.spec > 0 {
		k(st)
		return
	}
	if m.probe > 0 {
		if !m.valid(st, cond, 300) {
			panic(pureAbort{"check " + why})
		}
		k(st)
		return
	}
	m.pushed(func() {
		m.pc(m.c.Not(cond))
		if m.sess.Check(400) != "unsat" {
			onPanic(st.clone(), &ctl{kind: cPanic, why: m.where(n) + ": " + why})
		}
	})
	if cond == m.c.False {
		return
	}
	m.pushed(func() {
		m.pc(cond)
		k(st)
	})
}

func (m *Mach) where(n ast.Node) string {
	if n == nil {
		return "?"
	}
	pos := m.p.Fset.Position(n.Pos())
	f := pos.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pos.Line)
}

// ---- heap ----

func (m *Mach) comp(st *State, key, sort string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := m.c.Const("H0:"+key, sort)
	st.heap[key] = t
	return t
}

func (m *Mach) logWrite(comp string, addr *Term) {
	for _, w := range m.writeLog {
		w.trail = append(w.trail, wentry{comp, addr})
	}
}

func (m *Mach) setComp(st *State, key string, addr, val *Term, sort string) {
	if m.probe > 0 {
		panic(pureAbort{"heap write"})
	}
	h := m.comp(st, key, arrSort("Int", val.Sort))
	m.logWrite(key, addr)
	st.heap[key] = m.c.Store(h, addr, val)
}

// fieldInfo resolves field f (index i) of struct st/named.
func (m *Mach) fieldComp(named *types.Named, st *types.Struct, i int) string {
	n := "struct"
	if named != nil {
		n = named.Obj().Name()
	} else {
		n = st.String()
	}
	return "F:" + n + "." + st.Field(i).Name()
}

// subAddr is the address of struct-valued field i of the struct at addr.
func (m *Mach) subAddr(named *types.Named, st *types.Struct, i int, addr *Term) *Term {
	if st.Field(i).Embedded() {
		return addr
	}
	n := st.String()
	if named != nil {
		n = named.Obj().Name()
	}
	return m.c.App("sub:"+n+"."+st.Field(i).Name(), "Int", addr)
}

func (m *Mach) loadField(st *State, t types.Type, i int, addr *Term) Val {
	s, named := m.localStruct(t)
	ft := s.Field(i).Type()
	if identT(ft) {
		return Val{T: ft, X: m.c.App("addr:"+m.fieldComp(named, s, i), "Int", addr)}
	}
	if fs, _ := m.localStruct(ft); fs != nil {
		return m.loadStruct(st, ft, m.subAddr(named, s, i, addr))
	}
	key := m.fieldComp(named, s, i)
	h := m.comp(st, key, arrSort("Int", m.sortOf(ft)))
	x := m.c.Select(h, addr)
	v := m.refn(Val{T: ft, X: m.kn(x)})
	m.wf(st, v)
	return v
}

func (m *Mach) storeField(st *State, t types.Type, i int, addr *Term, v Val) {
	s, named := m.localStruct(t)
	ft := s.Field(i).Type()
	if identT(ft) {
		// zero value of a lock, atomic or builder
		a := m.c.App("addr:"+m.fieldComp(named, s, i), "Int", addr)
		m.zeroIdent(st, ft, a)
		return
	}
	if fs, _ := m.localStruct(ft); fs != nil {
		m.storeStruct(st, ft, m.subAddr(named, s, i, addr), v)
		return
	}
	v = m.scalarFn(m.coerce(v, ft))
	m.setComp(st, m.fieldComp(named, s, i), addr, v.X, m.sortOf(ft))
}

func (m *Mach) loadStruct(st *State, t types.Type, addr *Term) Val {
	s, _ := m.localStruct(t)
	v := Val{T: t}
	for i := 0; i < s.NumFields(); i++ {
		v.F = append(v.F, m.loadField(st, t, i, addr))
	}
	return v
}

func (m *Mach) storeStruct(st *State, t types.Type, addr *Term, v Val) {
	s, _ := m.localStruct(t)
	for i := 0; i < s.NumFields(); i++ {
		m.storeField(st, t, i, addr, v.F[i])
	}
}

// newObject allocates a zeroed object of type t.
func (m *Mach) newAddr(st *State) *Term {
	if m.probe > 0 && m.pure == 0 {
		panic(pureAbort{"allocation"})
	}
	a := m.c.AddK(st.alloc, 1)
	st.alloc = a
	return a
}

func (m *Mach) newObject(st *State, t types.Type) *Term {
	a := m.newAddr(st)
	if s, _ := m.localStruct(t); s != nil {
		m.storeStruct(st, t, a, m.zero(t))
	} else {
		m.setComp(st, "C:"+m.sortOf(t), a, m.zero(t).X, m.sortOf(t))
	}
	return a
}

// ---- slices ----

func (m *Mach) memKey(elem types.Type) string { return "M:" + m.sortOf(elem) }

func (m *Mach) mem(st *State, elem types.Type) *Term {
	s := m.sortOf(elem)
	return m.comp(st, m.memKey(elem), arrSort("Int", arrSort("Int", s)))
}

func (m *Mach) sliceElem(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	panic(unsupported{"slice element of " + t.String()})
}

// structSlices: element type is a modelled struct -> one memory per field
func (m *Mach) loadElem(st *State, elem types.Type, arr, idx *Term) Val {
	if s, named := m.localStruct(elem); s != nil {
		v := Val{T: elem}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if fs, _ := m.localStruct(ft); fs != nil {
				panic(unsupported{"nested struct in slice"})
			}
			key := "M" + m.fieldComp(named, s, i)
			h := m.comp(st, key, arrSort("Int", arrSort("Int", m.sortOf(ft))))
			fv := m.refn(Val{T: ft, X: m.c.Select(m.c.Select(h, arr), idx)})
			m.wf(st, fv)
			v.F = append(v.F, fv)
		}
		return v
	}
	x := m.c.Select(m.c.Select(m.mem(st, elem), arr), idx)
	v := m.refn(Val{T: elem, X: x})
	m.wf(st, v)
	return v
}

func (m *Mach) storeElem(st *State, elem types.Type, arr, idx *Term, v Val) {
	if s, named := m.localStruct(elem); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			key := "M" + m.fieldComp(named, s, i)
			h := m.comp(st, key, arrSort("Int", arrSort("Int", m.sortOf(ft))))
			fv := m.scalarFn(m.coerce(v.F[i], ft))
			m.setComp(st, key, arr, m.c.Store(m.c.Select(h, arr), idx, fv.X), "")
		}
		return
	}
	v = m.scalarFn(m.coerce(v, elem))
	mem := m.mem(st, elem)
	m.setComp(st, m.memKey(elem), arr, m.c.Store(m.c.Select(mem, arr), idx, v.X), "")
}

func (m *Mach) elemComps(elem types.Type) (keys, sorts []string) {
	if s, named := m.localStruct(elem); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			keys = append(keys, "M"+m.fieldComp(named, s, i))
			sorts = append(sorts, m.sortOf(s.Field(i).Type()))
		}
		return
	}
	return []string{m.memKey(elem)}, []string{m.sortOf(elem)}
}

// bulkCopy sets dst[doff..doff+n) := content of src array (as it is now) from soff.
func (m *Mach) bulkCopy(st *State, elem types.Type, dArr, dOff, n, sArr, sOff *Term) {
	keys, sorts := m.elemComps(elem)
	for i, key := range keys {
		h := m.comp(st, key, arrSort("Int", arrSort("Int", sorts[i])))
		old := m.c.Select(h, dArr)
		src := m.c.Select(h, sArr)
		nw := m.copyArray(st, old, dOff, n, src, sOff)
		m.setComp(st, key, dArr, nw, "")
	}
}

// copyArray returns old with [dOff,dOff+n) replaced by src[sOff..).
func (m *Mach) copyArray(st *State, old, dOff, n, src, sOff *Term) *Term {
	c := m.c
	if n.Op == "int" && n.I <= 8 {
		r := old
		for j := int64(0); j < n.I; j++ {
			r = c.Store(r, c.AddK(dOff, j), c.Select(src, c.AddK(sOff, j)))
		}
		return r
	}
	if m.pure > 0 {
		panic(pureAbort{"bulk copy in pure mode"})
	}
	nw := c.Fresh("arr", old.Sort)
	j := c.BoundVar("j", "Int")
	in := c.And(c.Le(dOff, j), c.Lt(j, c.Add(dOff, n)))
	sel := c.Select(nw, j)
	srcIdx := c.Add(c.Sub(j, dOff), sOff)
	body := c.Eq(sel, c.Ite(in, c.Select(src, srcIdx), c.Select(old, j)))
	m.assume(st, c.Forall([]*Term{j}, body, [][]*Term{{sel}}))
	// reverse triggers: reading the source or the old array makes the copy known
	if src.Op != "constarr" && src != old {
		j2 := c.BoundVar("j", "Int")
		s2 := c.Select(src, j2)
		if s2.Op == "select" && s2.Args[0] == src {
			in2 := c.And(c.Le(sOff, j2), c.Lt(j2, c.Add(sOff, n)))
			m.assume(st, c.Forall([]*Term{j2}, c.Implies(in2, c.Eq(c.Select(nw, c.Add(c.Sub(j2, sOff), dOff)), s2)), [][]*Term{{s2}}))
		}
	}
	if old.Op != "constarr" {
		j3 := c.BoundVar("j", "Int")
		s3 := c.Select(old, j3)
		if s3.Op == "select" && s3.Args[0] == old {
			in3 := c.And(c.Le(dOff, j3), c.Lt(j3, c.Add(dOff, n)))
			m.assume(st, c.Forall([]*Term{j3}, c.Or(in3, c.Eq(c.Select(nw, j3), s3)), [][]*Term{{s3}}))
		}
	}
	return nw
}

// ---- maps ----

func (m *Mach) mapKeys(t types.Type) (ks, vs string) {
	mt := types.Unalias(t).Underlying().(*types.Map)
	if isEmptyStruct(mt.Elem()) {
		return m.sortOf(mt.Key()), "Int"
	}
	return m.sortOf(mt.Key()), m.sortOf(mt.Elem())
}

// the elements of a set
func isEmptyStruct(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (m *Mach) mapHas(st *State, t types.Type, addr *Term) *Term {
	ks, vs := m.mapKeys(t)
	return m.c.Select(m.comp(st, "MH:"+ks+":"+vs, arrSort("Int", arrSort(ks, "Bool"))), addr)
}
func (m *Mach) mapVal(st *State, t types.Type, addr *Term) *Term {
	ks, vs := m.mapKeys(t)
	return m.c.Select(m.comp(st, "MV:"+ks+":"+vs, arrSort("Int", arrSort(ks, vs))), addr)
}
func (m *Mach) mapLen(st *State, t types.Type, addr *Term) *Term {
	ks, vs := m.mapKeys(t)
	return m.c.Select(m.comp(st, "ML:"+ks+":"+vs, arrSort("Int", "Int")), addr)
}
func (m *Mach) mapSet(st *State, t types.Type, addr, has, val, ln *Term) {
	ks, vs := m.mapKeys(t)
	if has != nil {
		m.setComp(st, "MH:"+ks+":"+vs, addr, has, "")
	}
	if val != nil {
		m.setComp(st, "MV:"+ks+":"+vs, addr, val, "")
	}
	if ln != nil {
		m.setComp(st, "ML:"+ks+":"+vs, addr, ln, "")
	}
}

// mapFacts assumes len>=0 and the len/has relation for a key.
func (m *Mach) mapFacts(st *State, t types.Type, addr *Term, key *Term) {
	if m.pure > 0 || addr.hasBV {
		return
	}
	c := m.c
	ln := m.mapLen(st, t, addr)
	m.assume(st, c.Le(c.Int(0), ln))
	// nil map is empty
	has := m.mapHas(st, t, addr)
	ks, _ := m.mapKeys(t)
	m.assume(st, c.Implies(c.Eq(addr, c.Int(0)), c.And(c.Eq(ln, c.Int(0)), c.Eq(has, c.ConstArr(arrSort(ks, "Bool"), c.False)))))
	if key != nil && !key.hasBV {
		m.assume(st, c.Implies(c.Select(has, key), c.Le(c.Int(1), ln)))
	}
	// empty <-> length 0
	x := c.BoundVar("k", ks)
	sel := c.Select(has, x)
	if sel.Op == "select" {
		m.assume(st, c.Implies(c.Eq(ln, c.Int(0)), c.Forall([]*Term{x}, c.Not(sel), [][]*Term{{sel}})))
	}
}

func (m *Mach) newMap(st *State, t types.Type) *Term {
	a := m.newAddr(st)
	ks, vs := m.mapKeys(t)
	var z *Term
	mt := types.Unalias(t).Underlying().(*types.Map)
	if vs == "struct" {
		panic(unsupported{"map of structs"})
	}
	if isEmptyStruct(mt.Elem()) {
		z = m.c.Int(0)
	} else {
		z = m.zero(mt.Elem()).X
	}
	m.mapSet(st, t, a, m.c.ConstArr(arrSort(ks, "Bool"), m.c.False), m.c.ConstArr(arrSort(ks, vs), z), m.c.Int(0))
	return a
}

// ---- event trace ----

func (m *Mach) traceLen(st *State) *Term {
	return m.c.Select(m.comp(st, "T:len", arrSort("Int", "Int")), m.c.Int(0))
}
func (m *Mach) traceArr(st *State) *Term {
	return m.c.Select(m.comp(st, "T:arr", arrSort("Int", arrSort("Int", "Ev"))), m.c.Int(0))
}
func (m *Mach) emit(st *State, ev *Term) {
	l, a := m.traceLen(st), m.traceArr(st)
	m.setComp(st, "T:arr", m.c.Int(0), m.c.Store(a, l, ev), "")
	m.setComp(st, "T:len", m.c.Int(0), m.c.AddK(l, 1), "")
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m *Mach) zeroIdent(st *State, t types.Type, a *Term) {
	n := types.Unalias(t).(*types.Named)
	switch {
	case n.Obj().Name() == "Builder":
		m.setComp(st, "K:sb", a, m.c.Str(""), "Str")
	case n.Obj().Pkg().Path() == "sync/atomic":
		m.setComp(st, "K:atomic", a, m.c.Int(0), "Int")
	default:
		m.setComp(st, "K:lock", a, m.c.Int(0), "Int")
	}
}
