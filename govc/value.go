package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Val is a symbolic Go value.
type Val struct {
	T  types.Type
	X  *Term  // scalar representation
	F  []Val  // struct value: one per field; tuple: one per component
	Fn *FnVal // statically known function value
	Q  *SeqV  // contract-level snapshot values
}

// SeqV is the value of a contract-level snapshot: a mathematical sequence or map.
type SeqV struct {
	Arr  *Term // Array Int E, or (for maps) Array K V
	Off  *Term
	Len  *Term
	Has  *Term // maps: Array K Bool
	Elem types.Type
}

type FnVal struct {
	Lit    *ast.FuncLit
	Fr     *Frame // lexical frame of the literal
	Fun    *types.Func
	Recv   *Val // bound method
	RecvIf bool // bound interface method
	Native func(m *Mach, st *State, args []Val, k func(*State, []Val, *ctl))
	Sig    *types.Signature
	id     int
}

type Frame struct {
	id     int
	FnArgs []*FnVal
	Name   string // function key, e.g. "AbstractEList.IndexOf"
	Decl   *ast.FuncDecl
	Lit    *ast.FuncLit
	Parent *Frame // lexical parent (closures)
	Caller *Frame
	Sig    *types.Signature
	Spec   bool
	Entry  *State
	Yield  *yieldCtx
	depth  int
}

type vkey struct {
	fr  int
	obj types.Object
	aux string // hidden variables (loop counters...)
}

type State struct {
	vars   map[vkey]Val
	heap   map[string]*Term
	alloc  *Term
	delta  []*Term // conditions collected in pure (merging) mode
	tags   map[*Term]types.Type
	defers map[int][]deferred
	locks  int
	ph     *handler
	pend   *ctl
}

type deferred struct {
	call *ast.CallExpr
	fr   *Frame
	fn   *FnVal
	args []Val
}

func (s *State) clone() *State {
	n := &State{vars: make(map[vkey]Val, len(s.vars)+4), heap: make(map[string]*Term, len(s.heap)+4), alloc: s.alloc, tags: s.tags, locks: s.locks, ph: s.ph, pend: s.pend}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.delta = append([]*Term(nil), s.delta...)
	if len(s.tags) > 0 {
		n.tags = make(map[*Term]types.Type, len(s.tags))
		for k, v := range s.tags {
			n.tags[k] = v
		}
	}
	if len(s.defers) > 0 {
		n.defers = map[int][]deferred{}
		for k, v := range s.defers {
			n.defers[k] = append([]deferred(nil), v...)
		}
	}
	return n
}

type unsupported struct{ msg string }

func (m *Mach) unsup(n ast.Node, f string, args ...any) {
	pos := ""
	if n != nil {
		p := m.p.Fset.Position(n.Pos())
		pos = p.String()
		if i := strings.LastIndex(pos, "/"); i >= 0 {
			pos = pos[i+1:]
		}
	}
	panic(unsupported{fmt.Sprintf("%s: %s", pos, fmt.Sprintf(f, args...))})
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
		return typeKey(n.Origin())
	}
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeKey(p.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "github.com/masagroup/soft.go/ecore" {
			return ""
		}
		return p.Path()
	})
}

// localStruct reports whether t is a struct type that is modelled field by field.
func (m *Mach) localStruct(t types.Type) (*types.Struct, *types.Named) {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 16 {
		// a small array is a struct of its elements
		return arrStruct(a), nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	if n != nil {
		if n.Obj().Pkg() == nil {
			return nil, nil
		}
		if n.Obj().Pkg().Path() == "net/url" && n.Obj().Name() == "URL" {
			return st, n
		}
		if n.Obj().Pkg() != m.p.Pkg || n.Obj().Name() == "vSeq" || n.Obj().Name() == "vMap" {
			return nil, nil
		}
		// use the generic origin so that fields have one representation
		if o := n.Origin(); o != n {
			return o.Underlying().(*types.Struct), o
		}
	}
	return st, n
}

var arrStructs = map[string]*types.Struct{}

func arrStruct(a *types.Array) *types.Struct {
	k := a.String()
	if s := arrStructs[k]; s != nil {
		return s
	}
	var fs []*types.Var
	for i := int64(0); i < a.Len(); i++ {
		fs = append(fs, types.NewField(0, nil, fmt.Sprintf("e%d", i), a.Elem(), false))
	}
	s := types.NewStruct(fs, nil)
	arrStructs[k] = s
	return s
}

func (m *Mach) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return "V"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "V"
		default:
			return "Int" // integers are mathematical; floats are opaque
		}
	case *types.Interface:
		return "V"
	case *types.Slice:
		return "Sl"
	case *types.Struct, *types.Array:
		if s, _ := m.localStruct(t); s != nil {
			return "struct"
		}
		return "Int"
	case *types.Tuple:
		return "tuple"
	default:
		return "Int"
	}
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isIface(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isPtrLike(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// tagOf returns the integer tag of a concrete dynamic type.
func (m *Mach) tagOf(t types.Type) *Term {
	k := typeKey(t)
	i, ok := m.tagIDs[k]
	if !ok {
		i = len(m.tagIDs) + 1
		m.tagIDs[k] = i
		m.tagTypes = append(m.tagTypes, t)
		for _, ifc := range m.ifaces {
			m.implAxiom(ifc, i)
		}
	}
	return m.c.Int(int64(i))
}

func (m *Mach) typeOfTag(i int64) types.Type {
	if i >= 1 && int(i) <= len(m.tagTypes) {
		return m.tagTypes[i-1]
	}
	return nil
}

func (m *Mach) implAxiom(ifc types.Type, tag int) {
	t := m.tagTypes[tag-1]
	it := ifc.Underlying().(*types.Interface)
	name := "impl:" + typeKey(ifc)
	v := m.implements(t, it)
	a := m.c.App(name, "Bool", m.c.Int(int64(tag)))
	if !v {
		a = m.c.Not(a)
	}
	m.c.Axiom(fmt.Sprintf("%s/%d", name, tag), a)
}

func (m *Mach) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

// Impl is the condition "dynamic type tag implements interface ifc".
func (m *Mach) Impl(ifc types.Type, tag *Term) *Term {
	it, ok := ifc.Underlying().(*types.Interface)
	if !ok {
		panic("Impl on non-interface")
	}
	if it.NumMethods() == 0 && it.NumEmbeddeds() == 0 {
		return m.c.Not(m.c.Eq(tag, m.c.Int(0)))
	}
	if tag.Op == "int" {
		if tag.I == 0 {
			return m.c.False
		}
		return m.c.Bool(m.implements(m.typeOfTag(tag.I), it))
	}
	if tag.Op == "ite" {
		return m.c.Ite(tag.Args[0], m.Impl(ifc, tag.Args[1]), m.Impl(ifc, tag.Args[2]))
	}
	name := "impl:" + typeKey(ifc)
	found := false
	for _, x := range m.ifaces {
		if typeKey(x) == typeKey(ifc) {
			found = true
		}
	}
	if !found {
		m.ifaces = append(m.ifaces, ifc)
		m.c.Axiom(name+"/0", m.c.Not(m.c.App(name, "Bool", m.c.Int(0))))
		for i := range m.tagTypes {
			m.implAxiom(ifc, i+1)
		}
		// sub-interface implications
		for _, o := range m.ifaces {
			oi := o.Underlying().(*types.Interface)
			if typeKey(o) == typeKey(ifc) {
				continue
			}
			x := m.c.BoundVar("t", "Int")
			a, b := m.c.App(name, "Bool", x), m.c.App("impl:"+typeKey(o), "Bool", x)
			if types.Implements(ifc, oi) {
				m.c.Axiom(name+"=>"+typeKey(o), m.c.Forall([]*Term{x}, m.c.Implies(a, b), [][]*Term{{a}}))
			}
			if types.Implements(o, it) {
				m.c.Axiom(typeKey(o)+"=>"+name, m.c.Forall([]*Term{x}, m.c.Implies(b, a), [][]*Term{{b}}))
			}
		}
	}
	return m.c.App(name, "Bool", tag)
}

// box converts a value to the universal sort V.
func (m *Mach) box(v Val) *Term {
	if v.T == nil {
		panic("box nil type")
	}
	t := types.Unalias(v.T)
	if isIface(t) {
		return v.X
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return m.c.Ctor("VNil", "V")
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	tag := m.tagOf(t)
	switch m.sortOf(t) {
	case "Bool":
		return m.c.Ctor("VB", "V", tag, v.X)
	case "Str":
		return m.c.Ctor("VS", "V", tag, v.X)
	case "Sl":
		return m.c.Ctor("VL", "V", tag, v.X)
	case "struct":
		// value struct boxed: an injective constructor function of its fields
		var as []*Term
		for _, f := range v.F {
			as = append(as, m.box(f))
		}
		if len(as) == 0 {
			return m.c.Ctor("VX", "V", tag, m.c.Int(0))
		}
		id := m.c.App("boxstruct:"+typeKey(t), "Int", as...)
		for i, a := range as {
			m.c.Axiom(fmt.Sprintf("unbox:%d:%d", id.id, i), m.c.Eq(m.c.App(fmt.Sprintf("unbox%d:%s", i, typeKey(t)), "V", id), a))
		}
		return m.c.Ctor("VX", "V", tag, id)
	}
	if v.Fn != nil {
		v = m.scalarFn(v)
	}
	if isPtrLike(t) {
		return m.c.Ctor("VP", "V", tag, v.X)
	}
	if isInt(t) {
		return m.c.Ctor("VI", "V", tag, v.X)
	}
	return m.c.Ctor("VX", "V", tag, v.X)
}

// isType is the condition "the dynamic type of x is exactly t".
func (m *Mach) isType(x *Term, t types.Type) *Term {
	tag := m.tagOf(t)
	ctor := m.ctorOf(t)
	return m.c.And(m.c.Is(ctor, x), m.c.Eq(m.c.Tag(x), tag))
}

func (m *Mach) ctorOf(t types.Type) string {
	switch m.sortOf(t) {
	case "Bool":
		return "VB"
	case "Str":
		return "VS"
	case "Sl":
		return "VL"
	case "struct":
		return "VX"
	}
	if isPtrLike(t) {
		return "VP"
	}
	if isInt(t) {
		return "VI"
	}
	return "VX"
}

// unbox projects a V term to concrete type t (caller has established the tag).
func (m *Mach) unbox(x *Term, t types.Type) Val {
	if isIface(t) {
		return Val{T: t, X: x}
	}
	switch m.sortOf(t) {
	case "Bool":
		return Val{T: t, X: m.c.Proj("vb_v", x)}
	case "Str":
		return Val{T: t, X: m.c.Proj("vs_v", x)}
	case "Sl":
		return Val{T: t, X: m.c.Proj("vl_v", x)}
	case "struct":
		st, _ := m.localStruct(t)
		v := Val{T: t}
		id := m.c.Proj("vx_v", x)
		for i := 0; i < st.NumFields(); i++ {
			b := m.c.App(fmt.Sprintf("unbox%d:%s", i, typeKey(t)), "V", id)
			v.F = append(v.F, m.unbox(b, st.Field(i).Type()))
		}
		return v
	}
	if isPtrLike(t) {
		return m.refn(Val{T: t, X: m.c.Proj("vp_v", x)})
	}
	if isInt(t) {
		return Val{T: t, X: m.c.Proj("vi_v", x)}
	}
	return Val{T: t, X: m.c.Proj("vx_v", x)}
}

func (m *Mach) scalarFn(v Val) Val {
	if v.Fn != nil && v.X == nil {
		if v.Fn.id == 0 {
			m.fns = append(m.fns, v.Fn)
			v.Fn.id = len(m.fns)
		}
		v.X = m.c.Int(int64(-v.Fn.id)) // negative ids: known closures
	}
	return v
}

func (m *Mach) refn(v Val) Val {
	if _, ok := types.Unalias(v.T).Underlying().(*types.Signature); ok && v.X != nil && v.X.Op == "int" && v.X.I < 0 {
		v.Fn = m.fns[-v.X.I-1]
	}
	return v
}

// coerce adapts a value to static type t (boxing into interfaces / type parameters).
func (m *Mach) coerce(v Val, t types.Type) Val {
	if v.T == nil || t == nil {
		return v
	}
	if v.Q != nil {
		return v
	}
	tu := types.Unalias(t)
	if isIface(tu) {
		if isIface(v.T) {
			return Val{T: t, X: v.X}
		}
		return Val{T: t, X: m.box(v)}
	}
	if isIface(v.T) {
		if b, ok := types.Unalias(v.T).(*types.Basic); !ok || b.Kind() != types.UntypedNil {
			// from a type parameter representation to the concrete type
			return m.unbox(v.X, t)
		}
	}
	if b, ok := types.Unalias(v.T).(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return m.zero(t)
	}
	v.T = t
	return v
}

func (m *Mach) nilSlice() *Term {
	z := m.c.Int(0)
	return m.c.Ctor("sl", "Sl", z, z, z, z)
}

func (m *Mach) zero(t types.Type) Val {
	switch m.sortOf(t) {
	case "Bool":
		return Val{T: t, X: m.c.False}
	case "Str":
		return Val{T: t, X: m.c.Str("")}
	case "V":
		return Val{T: t, X: m.c.Ctor("VNil", "V")}
	case "Sl":
		return Val{T: t, X: m.nilSlice()}
	case "struct":
		st, _ := m.localStruct(t)
		v := Val{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, m.zero(st.Field(i).Type()))
		}
		return v
	}
	if isInt(t) || isPtrLike(t) {
		return Val{T: t, X: m.c.Int(0)}
	}
	return Val{T: t, X: m.c.Const("zero:"+typeKey(t), "Int")}
}

// freshVal returns an arbitrary value of type t.
func (m *Mach) freshVal(name string, t types.Type) Val {
	s := m.sortOf(t)
	if s == "struct" {
		st, _ := m.localStruct(t)
		v := Val{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, m.freshVal(name+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return v
	}
	if s == "tuple" {
		tp := t.(*types.Tuple)
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.F = append(v.F, m.freshVal(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return v
	}
	return Val{T: t, X: m.c.Fresh(name, s)}
}

// wf assumes the well-formedness facts of a value read from the environment or heap.
// noteBorn: what is read from a version of the heap is not newer than that version.
func (m *Mach) noteBorn(v Val) {
	x := v.X
	bound := m.bornBound(x)
	if bound == nil {
		return
	}
	c := m.c
	switch m.sortOf(v.T) {
	case "Sl":
		if x.Op != "ctor" {
			c.noteOld(c.Proj("sl_arr", x), bound)
		}
	case "V":
		if x.Op != "ctor" && x.Op != "ite" {
			c.noteOld(c.Proj("vp_v", x), bound)
		}
	case "Int":
		if x.Op == "int" || !isPtrLike(v.T) {
			return
		}
		if _, ok := types.Unalias(v.T).Underlying().(*types.Signature); ok {
			return
		}
		if _, _, ok := c.allocOf(x); !ok {
			c.noteOld(x, bound)
		}
	}
}

func (m *Mach) wf(st *State, v Val) {
	if v.F != nil {
		for _, f := range v.F {
			m.wf(st, f)
		}
		return
	}
	if v.X == nil || v.T == nil || v.X.hasBV {
		return
	}
	if m.pure > 0 {
		m.noteBorn(v)
		return
	}
	x := v.X
	bound := m.bornBound(x)
	if bound == nil {
		bound = st.alloc
	}
	if m.wfDone[wfKey{x, bound}] {
		return
	}
	c := m.c
	mark := func() { m.wfNote(x, bound) }
	switch m.sortOf(v.T) {
	case "Sl":
		if x.Op == "ctor" {
			return
		}
		arr, off, ln, cp := c.Proj("sl_arr", x), c.Proj("sl_off", x), c.Proj("sl_len", x), c.Proj("sl_cap", x)
		m.assume(st, c.And(c.Le(c.Int(0), arr), c.LeRaw(arr, bound), c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp),
			c.Implies(c.Eq(arr, c.Int(0)), c.Eq(cp, c.Int(0)))))
		c.noteOld(arr, bound)
		mark()
	case "V":
		if x.Op == "ctor" || x.Op == "ite" {
			return
		}
		m.assume(st, c.And(c.Implies(c.Is("VP", x), c.And(c.LeRaw(c.Proj("vp_v", x), bound), c.Le(c.Int(0), c.Proj("vp_v", x)))),
			c.Implies(c.Is("VL", x), c.LeRaw(c.Proj("sl_arr", c.Proj("vl_v", x)), bound)),
			c.Implies(c.Not(c.Is("VNil", x)), c.Le(c.Int(1), c.Tag(x)))))
		c.noteOld(c.Proj("vp_v", x), bound)
		mark()
	case "Str":
		if x.Op == "str" || m.c.UseStr {
			return
		}
		m.assume(st, m.strWf(x))
		mark()
	case "Int":
		if x.Op == "int" {
			return
		}
		if _, ok := types.Unalias(v.T).Underlying().(*types.Signature); ok {
			return
		}
		if isPtrLike(v.T) {
			if _, _, ok := c.allocOf(x); ok {
				return
			}
			m.assume(st, c.And(c.Le(c.Int(0), x), c.LeRaw(x, bound)))
			c.noteOld(x, bound)
			mark()
			return
		}
		if b, ok := types.Unalias(v.T).Underlying().(*types.Basic); ok {
			lo, hi, has := intRange(b.Kind())
			if has {
				m.assume(st, c.And(c.Le(c.Int(lo), x), c.Le(x, c.Int(hi))))
				mark()
			}
		}
	}
}

// bornBound: an allocation mark every address stored in x is known to respect:
// the mark at which the heap version (or value) x is read from came into being.
func (m *Mach) bornBound(x *Term) *Term {
	for {
		switch x.Op {
		case "proj", "select":
			x = x.Args[0]
			continue
		case "const":
			if b, ok := m.born[x]; ok {
				return b
			}
			if strings.HasPrefix(x.Name, "H0:") {
				return m.alloc0
			}
		}
		return nil
	}
}

func (m *Mach) strWf(x *Term) *Term {
	l := m.strlen(x)
	return m.c.And(m.c.Le(m.c.Int(0), l), m.c.Eq(m.c.Eq(l, m.c.Int(0)), m.c.Eq(x, m.c.Str(""))))
}

func (m *Mach) strlen(x *Term) *Term {
	if x.Op == "str" {
		return m.c.Int(int64(len(x.Name)))
	}
	if x.Op == "app" && x.Name == "concat" {
		return m.c.Add(m.strlen(x.Args[0]), m.strlen(x.Args[1]))
	}
	return m.c.intern(&Term{Op: "strlen", Name: "strlen", Args: []*Term{x}, Sort: "Int"})
}

func intRange(k types.BasicKind) (int64, int64, bool) {
	switch k {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 4294967295, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -2147483648, 2147483647, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 9223372036854775807, true
	}
	return 0, 0, false
}

type wfKey struct{ x, alloc *Term }

// wfNote remembers (for the extent of the current path) that wf facts were assumed.
func (m *Mach) wfNote(x, alloc *Term) {
	k := wfKey{x, alloc}
	m.wfDone[k] = true
	m.wfStack = append(m.wfStack, k)
}

type handler struct {
	f      func(*State, *ctl)
	parent *handler
	apply  *applyCtx
}

// yieldCtx marks the frame of an iterator function driven by a range-over-func loop.
type yieldCtx struct {
	node ast.Stmt
	fr   *Frame
}

// addrTaken reports whether &obj occurs in the sources.
func (p *Program) addrTaken(obj types.Object) bool {
	if p.taken == nil {
		p.taken = map[types.Object]bool{}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op.String() == "&" {
					if id, ok := ast.Unparen(u.X).(*ast.Ident); ok {
						if o := p.Info.ObjectOf(id); o != nil {
							p.taken[o] = true
						}
					}
				}
				return true
			})
		}
	}
	return p.taken[obj]
}
