package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed SMT terms with a light simplifier.

type Term struct {
	Op    string // "const","int","bool","str","add","mul", SMT operator, or quantifier
	Name  string // const name, function name, string literal
	I     int64
	Args  []*Term
	Sort  string
	Bound []*Term
	Pats  [][]*Term
	id    int
	hasBV bool // contains a bound variable (free in this sub-term)
}

type FunDecl struct {
	Name string
	Args []string
	Ret  string
}

type Ctx struct {
	table    map[string]*Term
	nextID   int
	fresh    int
	Consts   []*Term             // declared constants, in order
	Funs     map[string]*FunDecl // declared uninterpreted functions
	FunList  []string
	Axioms   []*Term
	axSeen   map[string]bool
	StrLits  map[string]*Term
	allocIdx map[*Term]int // alloc atoms in creation order
	allocLow []bnd         // what each alloc atom is at least
	newPtr   map[*Term]bnd // term -> allocation bound it is known to reach
	oldPtr   map[*Term]bnd // term -> allocation bound it is known not to exceed
	distinct map[*Term]int // constants known pairwise distinct
	onConst  func(*Term)
	onFun    func(*FunDecl)
	onAxiom  func(*Term)
	lenDone  map[*Term]bool
	UseStr   bool // SMT string theory
	mixOf    map[*Term]mixInfo
	True     *Term
	False    *Term
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, Funs: map[string]*FunDecl{}, axSeen: map[string]bool{}, StrLits: map[string]*Term{}, allocIdx: map[*Term]int{}, oldPtr: map[*Term]bnd{}, newPtr: map[*Term]bnd{}, distinct: map[*Term]int{}, mixOf: map[*Term]mixInfo{}, lenDone: map[*Term]bool{}}
	c.True = c.intern(&Term{Op: "bool", I: 1, Sort: "Bool"})
	c.False = c.intern(&Term{Op: "bool", I: 0, Sort: "Bool"})
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.I, 10))
	b.WriteByte('|')
	b.WriteString(t.Sort)
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if a.hasBV {
			t.hasBV = true
		}
	}
	if t.Bound != nil {
		b.WriteString(";B")
		for _, a := range t.Bound {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(',')
		}
		for _, p := range t.Pats {
			b.WriteString(";P")
			for _, a := range p {
				b.WriteString(strconv.Itoa(a.id))
				b.WriteByte(',')
			}
		}
	}
	key := b.String()
	if o, ok := c.table[key]; ok {
		return o
	}
	if t.Op == "bound" {
		t.hasBV = true
	}
	if t.Bound != nil {
		fv := map[*Term]bool{}
		freeBV(t, map[*Term]bool{}, fv)
		t.hasBV = len(fv) > 0
	}
	c.nextID++
	t.id = c.nextID
	c.table[key] = t
	return t
}

func freeBV(t *Term, bound map[*Term]bool, out map[*Term]bool) {
	if t.Op == "bound" {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if t.Bound != nil {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, x := range t.Bound {
			nb[x] = true
		}
		for _, a := range t.Args {
			freeBV(a, nb, out)
		}
		return
	}
	if !t.hasBV {
		return
	}
	for _, a := range t.Args {
		freeBV(a, bound, out)
	}
}

func (c *Ctx) Const(name, sort string) *Term {
	n := len(c.table)
	t := c.intern(&Term{Op: "const", Name: name, Sort: sort})
	if len(c.table) != n {
		c.Consts = append(c.Consts, t)
		if c.onConst != nil {
			c.onConst(t)
		}
	}
	return t
}

func (c *Ctx) Fresh(prefix, sort string) *Term {
	c.fresh++
	return c.Const(prefix+"!"+strconv.Itoa(c.fresh), sort)
}

func (c *Ctx) BoundVar(prefix, sort string) *Term {
	c.fresh++
	return c.intern(&Term{Op: "bound", Name: prefix + "?" + strconv.Itoa(c.fresh), Sort: sort})
}

func (c *Ctx) Int(i int64) *Term { return c.intern(&Term{Op: "int", I: i, Sort: "Int"}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Str(s string) *Term {
	if t, ok := c.StrLits[s]; ok {
		return t
	}
	t := c.intern(&Term{Op: "str", Name: s, Sort: "Str"})
	c.StrLits[s] = t
	return t
}

func (c *Ctx) Fun(name string, args []string, ret string) {
	if _, ok := c.Funs[name]; !ok {
		f := &FunDecl{name, args, ret}
		c.Funs[name] = f
		c.FunList = append(c.FunList, name)
		if c.onFun != nil {
			c.onFun(f)
		}
	}
}

// App applies an uninterpreted function, declaring it on first use.
func (c *Ctx) App(name string, ret string, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Const(name, ret)
	}
	var as []string
	for _, a := range args {
		as = append(as, a.Sort)
	}
	c.Fun(name, as, ret)
	return c.intern(&Term{Op: "app", Name: name, Args: args, Sort: ret})
}

func (c *Ctx) Axiom(key string, t *Term) {
	if c.axSeen[key] {
		return
	}
	c.axSeen[key] = true
	c.Axioms = append(c.Axioms, t)
	if c.onAxiom != nil {
		c.onAxiom(t)
	}
}

// ---- linear integer normal form ----

type lin struct {
	k  int64
	co map[*Term]int64
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{k: t.I}
	case "add":
		l := lin{k: t.I, co: map[*Term]int64{}}
		for _, a := range t.Args {
			if a.Op == "mul" && len(a.Args) == 1 {
				l.co[a.Args[0]] += a.I
			} else {
				l.co[a]++
			}
		}
		return l
	case "mul":
		if len(t.Args) == 1 {
			return lin{co: map[*Term]int64{t.Args[0]: t.I}}
		}
	}
	return lin{co: map[*Term]int64{t: 1}}
}

func (c *Ctx) fromLin(l lin) *Term {
	var atoms []*Term
	for a, k := range l.co {
		if k != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return c.Int(l.k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	for _, a := range atoms {
		if k := l.co[a]; k == 1 {
			args = append(args, a)
		} else {
			args = append(args, c.intern(&Term{Op: "mul", I: k, Args: []*Term{a}, Sort: "Int"}))
		}
	}
	if len(args) == 1 && l.k == 0 {
		return args[0]
	}
	return c.intern(&Term{Op: "add", I: l.k, Args: args, Sort: "Int"})
}

func linAdd(a, b lin, f int64) lin {
	r := lin{k: a.k + f*b.k, co: map[*Term]int64{}}
	for t, k := range a.co {
		r.co[t] += k
	}
	for t, k := range b.co {
		r.co[t] += f * k
		if r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	return r
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(linAdd(c.toLin(a), c.toLin(b), 1)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(linAdd(c.toLin(a), c.toLin(b), -1)) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.Add(a, c.Int(k))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := c.toLin(b)
		r := lin{k: l.k * a.I, co: map[*Term]int64{}}
		for t, k := range l.co {
			if k*a.I != 0 {
				r.co[t] = k * a.I
			}
		}
		return c.fromLin(r)
	}
	return c.intern(&Term{Op: "nmul", Args: []*Term{a, b}, Sort: "Int"})
}

func (c *Ctx) diff(a, b *Term) (int64, lin, bool) {
	l := linAdd(c.toLin(a), c.toLin(b), -1)
	if len(l.co) == 0 {
		return l.k, l, true
	}
	return 0, l, false
}

// provably different (syntactic)
func (c *Ctx) different(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Sort == "Int" {
		if k, l, ok := c.diff(a, b); ok {
			return k != 0
		} else if len(l.co) == 2 || len(l.co) == 1 {
			// fresh address against an older pointer
			if c.fresher(a, b) || c.fresher(b, a) {
				return true
			}
			if d1, ok := c.distinct[a]; ok {
				if d2, ok2 := c.distinct[b]; ok2 && d1 != d2 {
					return true
				}
			}
		}
		return false
	}
	if a.Op == "str" && b.Op == "str" {
		return a.Name != b.Name
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if c.different(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	if a.Op == "bool" && b.Op == "bool" {
		return a != b
	}
	return false
}

type bnd struct {
	i int
	k int64
}

func (c *Ctx) noteOld(x, alloc *Term) {
	if x.hasBV {
		return
	}
	if _, has := c.oldPtr[x]; has {
		return
	}
	if i, k, ok := c.allocOf(alloc); ok {
		c.oldPtr[x] = bnd{i, k}
	}
}

func (c *Ctx) allocOf(t *Term) (int, int64, bool) {
	if i, ok := c.allocIdx[t]; ok {
		return i, 0, true
	}
	if t.Op == "add" && len(t.Args) == 1 {
		if i, ok := c.allocIdx[t.Args[0]]; ok {
			return i, t.I, true
		}
	}
	return 0, 0, false
}

// a is a fresh address alloc_i+k (k>=1) and b is known <= alloc_j with j <= i,
// or a is alloc_i + k and b is the constant 0 / nil.
func (c *Ctx) fresher(a, b *Term) bool {
	i, k, ok := c.allocOf(a)
	if p, is := c.newPtr[a]; is && !ok {
		i, k, ok = p.i, p.k, true
	}
	if !ok || k < 1 {
		return false
	}
	if b.Op == "int" && b.I <= 0 {
		return true
	}
	if j, ok := c.oldPtr[b]; ok && (j.i < i || j.i == i && j.k < k) {
		return true
	}
	if j, k2, ok := c.allocOf(b); ok {
		// alloc_i + k >= alloc_low(i) + k
		for i > j && c.allocLow[i].i >= 0 {
			i, k = c.allocLow[i].i, k+c.allocLow[i].k
		}
		return j == i && k2 < k
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s vs %s:%s", a.Short(), a.Sort, b.Short(), b.Sort))
	}
	if c.different(a, b) {
		return c.False
	}
	if a.Sort == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" && a.Name == b.Name {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "ctor" && a.Name == "VNil" {
		return c.Is("VNil", b)
	}
	if b.Op == "ctor" && b.Name == "VNil" {
		return c.Is("VNil", a)
	}
	// push equality with a constructor/constant into ite leaves
	for n := 0; n < 2; n++ {
		if a.Op == "ite" && (b.Op == "ctor" || b.Op == "int" || b.Op == "str") && iteConstLeaves(a, 6) {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
		a, b = b, a
	}
	if a.Sort == "Int" {
		// canonical: linear difference
		_, l, _ := c.diff(a, b)
		if len(l.co) == 1 {
			for t, k := range l.co {
				if k == 1 {
					a, b = t, c.Int(-l.k)
				} else if k == -1 {
					a, b = t, c.Int(l.k)
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{Op: "=", Args: []*Term{a, b}, Sort: "Bool"})
}

func iteConstLeaves(t *Term, depth int) bool {
	if depth == 0 {
		return false
	}
	if t.Op == "ite" {
		return iteConstLeaves(t.Args[1], depth-1) && iteConstLeaves(t.Args[2], depth-1)
	}
	return t.Op == "ctor" || t.Op == "int" || t.Op == "str"
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.Op == "not":
		return a.Args[0]
	}
	if a.Op == "<=" { // not (x <= y) == y+1 <= x
		return c.Le(c.AddK(a.Args[1], 1), a.Args[0])
	}
	return c.intern(&Term{Op: "not", Args: []*Term{a}, Sort: "Bool"})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.True || seen[t] {
			return true
		}
		if t == c.False || seen[c.Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(&Term{Op: "and", Args: out, Sort: "Bool"})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.False || seen[t] {
			return true
		}
		if t == c.True || seen[c.Not(t)] {
			return false
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(&Term{Op: "or", Args: out, Sort: "Bool"})
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.intern(&Term{Op: "=>", Args: []*Term{a, b}, Sort: "Bool"})
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	if x.Sort == "Bool" {
		if x == c.True {
			return c.Or(b, y)
		}
		if x == c.False {
			return c.And(c.Not(b), y)
		}
		if y == c.True {
			return c.Or(c.Not(b), x)
		}
		if y == c.False {
			return c.And(b, x)
		}
	}
	if b.Op == "not" {
		return c.Ite(b.Args[0], y, x)
	}
	if x.Op == "ctor" && y.Op == "ctor" && x.Name == y.Name && len(x.Args) > 0 {
		var as []*Term
		for i := range x.Args {
			as = append(as, c.Ite(b, x.Args[i], y.Args[i]))
		}
		return c.Ctor(x.Name, x.Sort, as...)
	}
	return c.intern(&Term{Op: "ite", Args: []*Term{b, x, y}, Sort: x.Sort})
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le(a, b, false) }

// LeRaw does not use the allocation shortcuts (used to state those very facts).
func (c *Ctx) LeRaw(a, b *Term) *Term { return c.le(a, b, true) }

func (c *Ctx) le(a, b *Term, raw bool) *Term {
	k, l, ok := c.diff(a, b) // a-b <= 0
	if ok {
		return c.Bool(k <= 0)
	}
	if raw {
		return c.leNorm(l)
	}
	// alloc monotonicity: alloc_i <= alloc_j + k for i<=j
	if i, ka, ok := c.allocOf(a); ok {
		if j, kb, ok := c.allocOf(b); ok && i <= j && ka <= kb {
			return c.True
		}
	}
	if j, kb, ok := c.allocOf(b); ok && kb >= 0 {
		if i, ok := c.oldPtr[a]; ok && (i.i < j || i.i == j && i.k <= kb) {
			return c.True
		}
	}
	return c.leNorm(l)
}

func (c *Ctx) leNorm(l lin) *Term {
	// split into positive and negative sides
	pos, neg := lin{co: map[*Term]int64{}}, lin{co: map[*Term]int64{}}
	for t, k := range l.co {
		if k > 0 {
			pos.co[t] = k
		} else {
			neg.co[t] = -k
		}
	}
	if l.k > 0 {
		pos.k = l.k
	} else {
		neg.k = -l.k
	}
	return c.intern(&Term{Op: "<=", Args: []*Term{c.fromLin(pos), c.fromLin(neg)}, Sort: "Bool"})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddK(a, 1), b) }

// ---- arrays ----

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func elemSort(s string) string {
	// "(Array I E)"
	s = s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("elemSort " + s)
}
func idxSort(s string) string {
	s = s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i]
			}
		}
	}
	panic("idxSort " + s)
}

// mixInfo: an array equal to base at every address that existed at the bound.
type mixInfo struct {
	base *Term
	i    int
	k    int64
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "const":
			if mx, ok := c.mixOf[a]; ok {
				old := i.Op == "int" && i.I <= 0
				if j, ok := c.oldPtr[i]; ok && (j.i < mx.i || j.i == mx.i && j.k <= mx.k) {
					old = true
				}
				if j, k, ok := c.allocOf(i); ok && (j < mx.i || j == mx.i && k <= mx.k) {
					old = true
				}
				if old {
					a = mx.base
					continue
				}
			}
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if c.different(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			x, y := c.Select(a.Args[1], i), c.Select(a.Args[2], i)
			return c.Ite(a.Args[0], x, y)
		}
		break
	}
	return c.intern(&Term{Op: "select", Args: []*Term{a, i}, Sort: elemSort(a.Sort)})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if elemSort(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s : %s", a.Sort, v.Short(), v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.intern(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}

func (c *Ctx) ConstArr(sort string, v *Term) *Term {
	return c.intern(&Term{Op: "constarr", Args: []*Term{v}, Sort: sort})
}

// ---- datatypes ----
// V: VNil | VI tag int | VS tag str | VB tag bool | VP tag addr | VL tag slice | VX tag id
// Sl: sl arr off len cap
// Ev: ev kind a b c d

type field struct{ name, sort string }

var ctors = map[string]struct {
	sort   string
	fields []field
}{
	"VNil": {"V", nil},
	"VI":   {"V", []field{{"vi_t", "Int"}, {"vi_v", "Int"}}},
	"VS":   {"V", []field{{"vs_t", "Int"}, {"vs_v", "Str"}}},
	"VB":   {"V", []field{{"vb_t", "Int"}, {"vb_v", "Bool"}}},
	"VP":   {"V", []field{{"vp_t", "Int"}, {"vp_v", "Int"}}},
	"VL":   {"V", []field{{"vl_t", "Int"}, {"vl_v", "Sl"}}},
	"VX":   {"V", []field{{"vx_t", "Int"}, {"vx_v", "Int"}}},
	"sl":   {"Sl", []field{{"sl_arr", "Int"}, {"sl_off", "Int"}, {"sl_len", "Int"}, {"sl_cap", "Int"}}},
	"ev":   {"Ev", []field{{"ev_k", "Int"}, {"ev_a", "V"}, {"ev_b", "V"}, {"ev_c", "V"}, {"ev_d", "V"}}},
}
var ctorOrder = []string{"VNil", "VI", "VS", "VB", "VP", "VL", "VX"}

func (c *Ctx) Ctor(name, sort string, args ...*Term) *Term {
	// sl(proj(x)...) == x
	if len(args) > 0 {
		fs := ctors[name].fields
		var base *Term
		ok := true
		for i, a := range args {
			if a.Op == "proj" && a.Name == fs[i].name {
				if base == nil {
					base = a.Args[0]
				} else if base != a.Args[0] {
					ok = false
				}
			} else {
				ok = false
			}
		}
		if ok && base != nil && sort != "V" {
			return base
		}
	}
	return c.intern(&Term{Op: "ctor", Name: name, Args: args, Sort: sort})
}

func (c *Ctx) Proj(fieldName string, t *Term) *Term {
	for cn, cd := range ctors {
		for i, f := range cd.fields {
			if f.name == fieldName {
				if t.Op == "ctor" && t.Name == cn {
					return t.Args[i]
				}
				if t.Op == "ite" {
					x, y := t.Args[1], t.Args[2]
					if (x.Op == "ctor" || x.Op == "ite") && (y.Op == "ctor" || y.Op == "ite") || cd.sort == "Sl" {
						return c.Ite(t.Args[0], c.Proj(fieldName, x), c.Proj(fieldName, y))
					}
				}
				p := c.intern(&Term{Op: "proj", Name: fieldName, Args: []*Term{t}, Sort: f.sort})
				if fieldName == "sl_len" && !p.hasBV && !c.lenDone[p] && (t.Op == "const" || t.Op == "select" && (t.Args[0].Op == "const" || t.Args[0].Op == "select")) {
					c.lenDone[p] = true
					c.Axiom(fmt.Sprintf("len%d", p.id), c.LeRaw(c.Int(0), p)) // every stored slice has a length
				}
				return p
			}
		}
	}
	panic("proj " + fieldName)
}

func (c *Ctx) Is(ctor string, t *Term) *Term {
	if t.Op == "ctor" {
		return c.Bool(t.Name == ctor)
	}
	if t.Op == "ite" && iteConstLeaves(t, 8) {
		return c.Ite(t.Args[0], c.Is(ctor, t.Args[1]), c.Is(ctor, t.Args[2]))
	}
	return c.intern(&Term{Op: "is", Name: ctor, Args: []*Term{t}, Sort: "Bool"})
}

// Tag of a V value (0 for nil)
func (c *Ctx) Tag(t *Term) *Term {
	if t.Op == "ctor" {
		if t.Name == "VNil" {
			return c.Int(0)
		}
		return t.Args[0]
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Tag(t.Args[1]), c.Tag(t.Args[2]))
	}
	return c.intern(&Term{Op: "vtag", Args: []*Term{t}, Sort: "Int"})
}

// ---- quantifiers ----

func (c *Ctx) Forall(bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	fv := map[*Term]bool{}
	freeBV(body, map[*Term]bool{}, fv)
	var bs []*Term
	for _, b := range bound {
		if fv[b] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	return c.intern(&Term{Op: "forall", Bound: bs, Args: []*Term{body}, Pats: pats, Sort: "Bool"})
}
func (c *Ctx) Exists(bound []*Term, body *Term) *Term {
	return c.Not(c.Forall(bound, c.Not(body), nil))
}

// Subst replaces terms in t (bound variables or constants), re-simplifying.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		for _, p := range t.Pats {
			var np []*Term
			for _, x := range p {
				y := rec(x)
				if y != x {
					ch = true
				}
				np = append(np, y)
			}
			pats = append(pats, np)
		}
		r := t
		if ch {
			r = c.rebuild(t, as, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "add":
		r := c.Int(t.I)
		for _, a := range as {
			r = c.Add(r, a)
		}
		return r
	case "mul":
		return c.Mul(c.Int(t.I), as[0])
	case "nmul":
		return c.Mul(as[0], as[1])
	case "=":
		return c.Eq(as[0], as[1])
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Implies(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "<=":
		return c.Le(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "constarr":
		return c.ConstArr(t.Sort, as[0])
	case "ctor":
		return c.Ctor(t.Name, t.Sort, as...)
	case "proj":
		return c.Proj(t.Name, as[0])
	case "is":
		return c.Is(t.Name, as[0])
	case "vtag":
		return c.Tag(as[0])
	case "forall":
		return c.Forall(t.Bound, as[0], pats)
	default:
		return c.intern(&Term{Op: t.Op, Name: t.Name, I: t.I, Args: as, Sort: t.Sort})
	}
}

// ---- printing ----

func symName(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!?.$@-", r)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "/"), "\\", "/") + "|"
}

func intStr(i int64) string {
	if i < 0 {
		return "(- " + strings.TrimPrefix(strconv.FormatInt(i, 10), "-") + ")"
	}
	return strconv.FormatInt(i, 10)
}

func (c *Ctx) strLit(s string) string {
	if c.UseStr {
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			ch := s[i]
			if ch == '"' {
				b.WriteString("\"\"")
			} else if ch < 32 || ch > 126 || ch == '\\' {
				fmt.Fprintf(&b, "\\u{%x}", ch)
			} else {
				b.WriteByte(ch)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return symName("str:" + fmt.Sprintf("%q", s))
}

// SMT renders a term; shared sub-terms (not containing bound variables) are let-bound.
func (c *Ctx) SMT(t *Term) string {
	// count sharing
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	visit(t)
	names := map[*Term]string{}
	var lets []string
	for _, x := range order {
		if x != t && cnt[x] > 1 && len(x.Args) > 0 && !x.hasBV {
			s := c.smt1(x, names)
			n := "l" + strconv.Itoa(x.id)
			names[x] = n
			lets = append(lets, "(let (("+n+" "+s+")) ")
		}
	}
	var b strings.Builder
	for _, l := range lets {
		b.WriteString(l)
	}
	b.WriteString(c.smt1(t, names))
	b.WriteString(strings.Repeat(")", len(lets)))
	return b.String()
}

func (c *Ctx) smt1(t *Term, names map[*Term]string) string {
	var b strings.Builder
	var w func(t *Term, top bool)
	args := func(as []*Term) {
		for _, a := range as {
			b.WriteByte(' ')
			w(a, false)
		}
	}
	w = func(t *Term, top bool) {
		if !top {
			if n, ok := names[t]; ok {
				b.WriteString(n)
				return
			}
		}
		switch t.Op {
		case "const", "bound":
			b.WriteString(symName(t.Name))
		case "int":
			b.WriteString(intStr(t.I))
		case "bool":
			if t.I == 1 {
				b.WriteString("true")
			} else {
				b.WriteString("false")
			}
		case "str":
			b.WriteString(c.strLit(t.Name))
		case "app":
			b.WriteString("(" + symName(t.Name))
			args(t.Args)
			b.WriteByte(')')
		case "add":
			b.WriteString("(+")
			if t.I != 0 {
				b.WriteByte(' ')
				b.WriteString(intStr(t.I))
			}
			args(t.Args)
			if t.I == 0 && len(t.Args) == 1 {
				b.WriteString(" 0")
			}
			b.WriteByte(')')
		case "mul":
			b.WriteString("(* " + intStr(t.I))
			args(t.Args)
			b.WriteByte(')')
		case "nmul":
			b.WriteString("(*")
			args(t.Args)
			b.WriteByte(')')
		case "ctor":
			if len(t.Args) == 0 {
				b.WriteString(t.Name)
				return
			}
			b.WriteString("(" + t.Name)
			args(t.Args)
			b.WriteByte(')')
		case "proj":
			b.WriteString("(" + t.Name)
			args(t.Args)
			b.WriteByte(')')
		case "is":
			b.WriteString("((_ is " + t.Name + ")")
			args(t.Args)
			b.WriteByte(')')
		case "constarr":
			b.WriteString("((as const " + t.Sort + ")")
			args(t.Args)
			b.WriteByte(')')
		case "forall":
			b.WriteString("(forall (")
			for _, x := range t.Bound {
				b.WriteString("(" + symName(x.Name) + " " + x.Sort + ")")
			}
			b.WriteString(") ")
			if len(t.Pats) > 0 {
				b.WriteString("(! ")
			}
			w(t.Args[0], false)
			if len(t.Pats) > 0 {
				for _, p := range t.Pats {
					b.WriteString(" :pattern (")
					for i, x := range p {
						if i > 0 {
							b.WriteByte(' ')
						}
						w(x, false)
					}
					b.WriteString(")")
				}
				b.WriteString(")")
			}
			b.WriteByte(')')
		default:
			op := t.Op
			if t.Name != "" {
				op = t.Name
			}
			b.WriteString("(" + op)
			args(t.Args)
			b.WriteByte(')')
		}
	}
	w(t, true)
	return b.String()
}

func (t *Term) Short() string {
	c := &Ctx{}
	s := c.smt1(t, nil)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Prelude common to all queries.
func (c *Ctx) Prelude() string {
	str := "(declare-sort Str 0)\n"
	if c.UseStr {
		str = "(define-sort Str () String)\n"
	}
	return str + `(declare-datatypes ((Sl 0)) (((sl (sl_arr Int) (sl_off Int) (sl_len Int) (sl_cap Int)))))
(declare-datatypes ((V 0)) (((VNil) (VI (vi_t Int) (vi_v Int)) (VS (vs_t Int) (vs_v Str)) (VB (vb_t Int) (vb_v Bool)) (VP (vp_t Int) (vp_v Int)) (VL (vl_t Int) (vl_v Sl)) (VX (vx_t Int) (vx_v Int)))))
(declare-datatypes ((Ev 0)) (((ev (ev_k Int) (ev_a V) (ev_b V) (ev_c V) (ev_d V)))))
(define-fun vtag ((v V)) Int (ite ((_ is VNil) v) 0 (ite ((_ is VI) v) (vi_t v) (ite ((_ is VS) v) (vs_t v) (ite ((_ is VB) v) (vb_t v) (ite ((_ is VP) v) (vp_t v) (ite ((_ is VL) v) (vl_t v) (vx_t v))))))))
`
}
