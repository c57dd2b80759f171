package ecore

import "fmt"

// ---- a small model of dynamic objects, its abstract state, and its observers ----
// Used by the bounded (executed) contracts only.

// vmFeature describes a reference of the one class of the model.
type vmFeature struct {
	name          string
	many, contain bool
	resolve       bool
	opp           int // index of the opposite, -1 if none
	attr          bool
	ref           EStructuralFeature
}

type vmMeta struct {
	pkg      EPackage
	class    EClass
	features []*vmFeature
}

var theMeta *vmMeta

func vmMetaModel() *vmMeta {
	if theMeta != nil {
		return theMeta
	}
	m := &vmMeta{}
	f := GetFactory()
	m.class = f.CreateEClass()
	m.class.SetName("Node")
	m.pkg = f.CreateEPackage()
	m.pkg.SetName("vm")
	m.pkg.SetNsPrefix("vm")
	m.pkg.SetNsURI("http://vm")
	m.pkg.SetEFactoryInstance(f.CreateEFactory())
	add := func(name string, many, contain, resolve bool, opp int) {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(m.class)
		r.SetContainment(contain)
		r.SetResolveProxies(resolve)
		if many {
			r.SetUpperBound(UNBOUNDED_MULTIPLICITY)
		}
		m.features = append(m.features, &vmFeature{name: name, many: many, contain: contain, resolve: resolve, opp: opp, ref: r})
	}
	add("kids", true, true, true, 1)
	add("parent", false, false, true, 0)
	add("child", false, true, false, 3)
	add("owner", false, false, false, 2)
	add("parts", true, true, false, -1)
	add("part", false, true, true, -1)
	add("friends", true, false, true, 7)
	add("friendOf", true, false, true, 6)
	add("buddy", false, false, true, 9)
	add("buddyOf", false, false, true, 8)
	add("items", true, false, true, 11)
	add("holder", false, false, true, 10)
	add("links", true, false, true, -1)
	add("link", false, false, true, -1)
	for _, x := range m.features {
		if x.opp >= 0 {
			x.ref.(EReference).SetEOpposite(m.features[x.opp].ref.(EReference))
		}
		m.class.GetEStructuralFeatures().Add(x.ref)
	}
	a := f.CreateEAttribute()
	a.SetName("name")
	a.SetEType(GetPackage().GetEString())
	m.class.GetEStructuralFeatures().Add(a)
	m.features = append(m.features, &vmFeature{name: "name", attr: true, opp: -1, ref: a})
	t := f.CreateEAttribute()
	t.SetName("tags")
	t.SetUnique(false)
	t.SetEType(GetPackage().GetEString())
	t.SetUpperBound(UNBOUNDED_MULTIPLICITY)
	m.class.GetEStructuralFeatures().Add(t)
	m.features = append(m.features, &vmFeature{name: "tags", attr: true, many: true, opp: -1, ref: t})
	m.pkg.GetEClassifiers().Add(m.class)
	theMeta = m
	return m
}

// isContainerF: the reference points to the container.
func (m *vmMeta) isContainerF(f int) bool {
	o := m.features[f].opp
	return o >= 0 && m.features[o].contain
}

// vmWorld is a set of objects with their abstract and observed states.
type vmWorld struct {
	meta   *vmMeta
	objs   []EObject
	res    []*EResourceImpl
	spec   [][][]any // object, feature, values
	shadow [][][]any // the same, as told by the notifications
	rspec  [][]any   // root objects of each resource
	bad    string
	log    []string
}

func (w *vmWorld) idx(o any) int {
	for i, x := range w.objs {
		if any(x) == o {
			return i
		}
	}
	return -1
}

type vmWatcher struct {
	AbstractEAdapter
	w *vmWorld
}

func (a *vmWatcher) NotifyChanged(n ENotification) { a.w.observe(n) }

// observe applies a notification to the observed state.
func (w *vmWorld) observe(n ENotification) {
	i := w.idx(n.GetNotifier())
	f := -1
	for k, x := range w.meta.features {
		if x.ref == n.GetFeature() {
			f = k
		}
	}
	if i < 0 || f < 0 || n.GetEventType() == REMOVING_ADAPTER {
		return
	}
	s, p := w.shadow[i][f], n.GetPosition()
	fail := func(msg string) {
		w.bad = fmt.Sprintf("notification %d of %s.%s: %s", n.GetEventType(), w.name(i), w.meta.features[f].name, msg)
	}
	ins := func(p int, xs ...any) {
		if p < 0 || p > len(s) {
			fail("insert position")
			return
		}
		s = append(append(append([]any{}, s[:p]...), xs...), s[p:]...)
	}
	rem := func(p int, x any) any {
		if p < 0 || p >= len(s) {
			fail("removal position")
			return nil
		}
		if s[p] != x {
			fail("removed value")
		}
		s = append(append([]any{}, s[:p]...), s[p+1:]...)
		return x
	}
	switch n.GetEventType() {
	case ADD:
		ins(p, n.GetNewValue())
	case ADD_MANY:
		ins(p, n.GetNewValue().([]any)...)
	case REMOVE:
		rem(p, n.GetOldValue())
	case REMOVE_MANY:
		vs := n.GetOldValue().([]any)
		ps, ok := n.GetNewValue().([]any)
		if !ok {
			if len(vs) != len(s) {
				fail("cleared values")
			}
			s = nil
			break
		}
		for k := len(ps) - 1; k >= 0; k-- {
			rem(ps[k].(int), vs[k])
		}
	case MOVE:
		ins(p, rem(n.GetOldValue().(int), n.GetNewValue()))
	case SET, UNSET:
		if w.meta.features[f].many {
			if p < 0 || p >= len(s) || s[p] != n.GetOldValue() {
				fail("replaced position")
				return
			}
			s = append([]any{}, s...)
			s[p] = n.GetNewValue()
			break
		}
		var old any
		if len(s) > 0 {
			old = s[0]
		}
		if old != n.GetOldValue() {
			fail(fmt.Sprintf("old value is %s not %s", w.show(n.GetOldValue()), w.show(old)))
		}
		s = nil
		if n.GetNewValue() != nil {
			s = []any{n.GetNewValue()}
		}
	default:
		fail("unexpected event")
	}
	w.shadow[i][f] = s
}

func (w *vmWorld) name(i int) string { return string(rune('A' + i)) }

func (w *vmWorld) show(x any) string {
	if l, ok := x.([]any); ok {
		s := "["
		for i, y := range l {
			if i > 0 {
				s += " "
			}
			s += w.show(y)
		}
		return s + "]"
	}
	if i := w.idx(x); i >= 0 {
		return w.name(i)
	}
	return fmt.Sprint(x)
}

func newWorld(n, resources int) *vmWorld {
	w := &vmWorld{meta: vmMetaModel()}
	for i := 0; i < n; i++ {
		o := w.meta.pkg.GetEFactoryInstance().Create(w.meta.class)
		o.EAdapters().Add(&vmWatcher{w: w})
		w.objs = append(w.objs, o)
		w.spec = append(w.spec, make([][]any, len(w.meta.features)))
		w.shadow = append(w.shadow, make([][]any, len(w.meta.features)))
	}
	for i := 0; i < resources; i++ {
		w.res = append(w.res, NewEResourceImpl())
		w.rspec = append(w.rspec, nil)
	}
	return w
}

// actual reads the real state of a feature.
func (w *vmWorld) actual(i, f int) []any {
	x := w.meta.features[f]
	v := w.objs[i].EGetResolve(x.ref, false)
	if x.many {
		l := v.(EList)
		var r []any
		for k := 0; k < l.Size(); k++ {
			r = append(r, l.Get(k))
		}
		return r
	}
	if o, ok := v.(EObject); ok && o == nil || v == nil || v == "" {
		return nil
	}
	return []any{v}
}

func eqSeq(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// check compares the three states.
func (w *vmWorld) check() string {
	for i := range w.objs {
		var c any
		cf := -1
		for f, x := range w.meta.features {
			a := w.actual(i, f)
			if !eqSeq(a, w.spec[i][f]) {
				return fmt.Sprintf("%s.%s is %s, should be %s", w.name(i), x.name, w.show(a), w.show(w.spec[i][f]))
			}
			if !eqSeq(a, w.shadow[i][f]) {
				return fmt.Sprintf("%s.%s is %s, observers were told %s", w.name(i), x.name, w.show(a), w.show(w.shadow[i][f]))
			}
			if w.objs[i].EIsSet(x.ref) != (len(a) > 0) && !x.many {
				return fmt.Sprintf("%s.%s isset", w.name(i), x.name)
			}
		}
		for k := range w.objs {
			for f, x := range w.meta.features {
				if x.contain && hasElem(w.spec[k][f], w.objs[i]) {
					c, cf = w.objs[k], f
				}
			}
		}
		if w.show(w.objs[i].EContainer()) != w.show(c) || c == nil && w.objs[i].EContainer() != nil {
			return fmt.Sprintf("the container of %s is %s, should be %s", w.name(i), w.show(w.objs[i].EContainer()), w.show(c))
		}
		if cf >= 0 && w.objs[i].EContainingFeature() != w.meta.features[cf].ref {
			return fmt.Sprintf("the containing feature of %s", w.name(i))
		}
		// known finding: with an opposite, the reference to the container is returned instead
		if cf >= 0 && w.meta.features[cf].opp < 0 && w.objs[i].EContainmentFeature() != w.meta.features[cf].ref {
			return fmt.Sprintf("the containment feature of %s", w.name(i))
		}
		// the resource is that of the outermost container with one
		var r EResource
		for o := i; o >= 0; {
			if k := w.rootOf(w.objs[o]); k >= 0 {
				r = w.res[k]
				break
			}
			n := w.containerOf(w.objs[o])
			o = w.idx(n)
		}
		if w.objs[i].EResource() != r {
			return fmt.Sprintf("the resource of %s", w.name(i))
		}
	}
	for k := range w.res {
		var a []any
		for it := w.res[k].GetContents().Iterator(); it.HasNext(); {
			a = append(a, it.Next())
		}
		if !eqSeq(a, w.rspec[k]) {
			return fmt.Sprintf("resource %d contains %s, should contain %s", k, w.show(a), w.show(w.rspec[k]))
		}
	}
	return w.bad
}

func (w *vmWorld) rootOf(o any) int {
	for k := range w.rspec {
		if hasElem(w.rspec[k], o) {
			return k
		}
	}
	return -1
}

func (w *vmWorld) containerOf(o any) any {
	for k := range w.objs {
		for f, x := range w.meta.features {
			if x.contain && hasElem(w.spec[k][f], o) {
				return w.objs[k]
			}
		}
	}
	return nil
}

// ---- the abstract operations ----

func without(s []any, x any) []any {
	var r []any
	for _, y := range s {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

// unlink removes x from i's feature f, on both sides.
func (w *vmWorld) unlink(i, f int, x any) {
	w.spec[i][f] = without(w.spec[i][f], x)
	if g := w.meta.features[f].opp; g >= 0 {
		j := w.idx(x)
		w.spec[j][g] = without(w.spec[j][g], w.objs[i])
	}
}

// leave takes x out of whatever contains it.
func (w *vmWorld) leave(x any) {
	for k := range w.objs {
		for f, d := range w.meta.features {
			if d.contain && hasElem(w.spec[k][f], x) {
				w.unlink(k, f, x)
			}
		}
	}
}

// attach makes x refer back to i for feature f, which already holds it.
func (w *vmWorld) attach(i, f int, x any) {
	d := w.meta.features[f]
	if d.contain && !d.resolve {
		if k := w.rootOf(x); k >= 0 {
			w.rspec[k] = without(w.rspec[k], x)
		}
	}
	if d.opp >= 0 {
		j := w.idx(x)
		if w.meta.features[d.opp].many {
			w.spec[j][d.opp] = append(append([]any{}, w.spec[j][d.opp]...), w.objs[i])
		} else {
			w.spec[j][d.opp] = []any{w.objs[i]}
		}
	}
}

// release undoes the links that a new link of x through f replaces.
func (w *vmWorld) release(f int, x any) {
	d := w.meta.features[f]
	if d.contain {
		w.leave(x)
	} else if d.opp >= 0 && !w.meta.features[d.opp].many {
		j := w.idx(x)
		for _, z := range w.spec[j][d.opp] {
			w.unlink(j, d.opp, z)
		}
	}
}

// insert adds x to the many-valued feature f of i at position p.
func (w *vmWorld) insert(i, f, p int, x any) {
	w.release(f, x)
	s := w.spec[i][f]
	w.spec[i][f] = append(append(append([]any{}, s[:p]...), x), s[p:]...)
	w.attach(i, f, x)
}

// assign sets the single-valued feature f of i.
func (w *vmWorld) assign(i, f int, x any) {
	d := w.meta.features[f]
	if len(w.spec[i][f]) > 0 && w.spec[i][f][0] == x || len(w.spec[i][f]) == 0 && x == nil && !w.meta.isContainerF(f) {
		return
	}
	if w.meta.isContainerF(f) {
		w.leave(w.objs[i])
		if x == nil {
			return
		}
		j := w.idx(x)
		if o := w.meta.features[d.opp]; o.many {
			w.insert(j, d.opp, len(w.spec[j][d.opp]), w.objs[i])
		} else {
			w.assign(j, d.opp, w.objs[i])
		}
		return
	}
	for _, z := range w.spec[i][f] {
		if d.attr {
			continue
		}
		w.unlink(i, f, z)
	}
	w.spec[i][f] = nil
	if x == nil {
		return
	}
	if d.attr {
		w.spec[i][f] = []any{x}
		return
	}
	w.release(f, x)
	w.spec[i][f] = []any{x}
	w.attach(i, f, x)
}

// wouldContainItself: making x contained in i closes a cycle.
func (w *vmWorld) wouldContainItself(i int, x any) bool {
	for o := any(w.objs[i]); o != nil; o = w.containerOf(o) {
		if o == x {
			return true
		}
	}
	return false
}

func (w *vmWorld) list(i, f int) EList { return w.objs[i].EGet(w.meta.features[f].ref).(EList) }

// step draws and performs one operation on both the real and the abstract state.
func (w *vmWorld) step(t *vTape) {
	i, f := t.Choose(len(w.objs)), t.Choose(len(w.meta.features)+1)
	if f == len(w.meta.features) {
		w.resourceStep(t, i)
		return
	}
	d := w.meta.features[f]
	var x any = w.objs[t.Choose(len(w.objs))]
	if d.attr {
		x = []any{"x", "y", "z"}[t.Choose(3)]
	}
	say := func(format string, a ...any) {
		w.log = append(w.log, fmt.Sprintf("%s.%s ", w.name(i), d.name)+fmt.Sprintf(format, a...))
	}
	s := w.spec[i][f]
	if !d.many {
		switch t.Choose(3) {
		case 0:
			x = nil
		}
		if x != nil && (d.contain && w.wouldContainItself(i, x) || w.meta.isContainerF(f) && w.wouldContainItself(w.idx(x), w.objs[i])) {
			return
		}
		if x == nil && t.Bool() {
			say("unset")
			w.objs[i].EUnset(d.ref)
		} else {
			say("= %s", w.show(x))
			w.objs[i].ESet(d.ref, x)
		}
		w.assign(i, f, x)
		return
	}
	if d.contain && w.wouldContainItself(i, x) {
		return
	}
	l := w.list(i, f)
	switch t.Choose(8) {
	case 0:
		say("add %s", w.show(x))
		l.Add(x)
		if d.attr || !hasElem(s, x) {
			w.addAt(i, f, len(s), x)
		}
	case 1:
		p := t.Choose(len(s) + 1)
		say("insert %s at %d", w.show(x), p)
		if d.contain && w.containerOf(x) == any(w.objs[i]) && w.contFeature(x) == f {
			l.Insert(p, x)
			return
		}
		l.Insert(p, x)
		if d.attr || !hasElem(s, x) {
			w.addAt(i, f, p, x)
		}
	case 2:
		if len(s) == 0 {
			return
		}
		p := t.Choose(len(s))
		if hasElem(s, x) {
			return
		}
		say("set %d to %s", p, w.show(x))
		l.Set(p, x)
		if d.attr {
			n := append([]any{}, s...)
			n[p] = x
			w.spec[i][f] = n
			return
		}
		w.unlink(i, f, s[p])
		w.insert(i, f, p, x)
	case 3:
		say("remove %s", w.show(x))
		l.Remove(x)
		for p, y := range s {
			if y == x {
				w.removeAt(i, f, p)
				break
			}
		}
	case 4:
		if len(s) == 0 {
			return
		}
		p := t.Choose(len(s))
		say("removeAt %d", p)
		l.RemoveAt(p)
		w.removeAt(i, f, p)
	case 5:
		say("clear")
		l.Clear()
		for len(w.spec[i][f]) > 0 {
			w.removeAt(i, f, 0)
		}
	case 6:
		if len(s) == 0 {
			return
		}
		a, b := t.Choose(len(s)), t.Choose(len(s))
		say("move %d to %d", a, b)
		l.Move(b, a)
		_ = a
		n := append(append([]any{}, s[:a]...), s[a+1:]...)
		w.spec[i][f] = append(append(append([]any{}, n[:b]...), s[a]), n[b:]...)
	case 7:
		if d.attr {
			return
		}
		y := w.objs[t.Choose(len(w.objs))]
		if any(y) == x || d.contain && w.wouldContainItself(i, y) {
			return
		}
		say("set to [%s %s]", w.show(x), w.show(y))
		w.objs[i].ESet(d.ref, NewImmutableEList([]any{x, y}))
		for len(w.spec[i][f]) > 0 {
			w.removeAt(i, f, 0)
		}
		// a single insertion of both
		for _, z := range []any{x, y} {
			w.release(f, z)
		}
		for _, z := range []any{x, y} {
			w.spec[i][f] = append(append([]any{}, w.spec[i][f]...), z)
			w.attach(i, f, z)
		}
	}
}

func (w *vmWorld) contFeature(x any) int {
	for k := range w.objs {
		for f, d := range w.meta.features {
			if d.contain && hasElem(w.spec[k][f], x) {
				return f
			}
		}
	}
	return -1
}

func (w *vmWorld) addAt(i, f, p int, x any) {
	if w.meta.features[f].attr {
		s := w.spec[i][f]
		w.spec[i][f] = append(append(append([]any{}, s[:p]...), x), s[p:]...)
		return
	}
	w.insert(i, f, p, x)
}

func (w *vmWorld) removeAt(i, f, p int) {
	s := w.spec[i][f]
	if w.meta.features[f].attr {
		w.spec[i][f] = append(append([]any{}, s[:p]...), s[p+1:]...)
		return
	}
	w.unlink(i, f, s[p])
}

func (w *vmWorld) resourceStep(t *vTape, i int) {
	if len(w.res) == 0 {
		return
	}
	k := t.Choose(len(w.res))
	x := any(w.objs[i])
	if t.Bool() {
		w.log = append(w.log, fmt.Sprintf("resource %d add %s", k, w.name(i)))
		w.res[k].GetContents().Add(x)
		if hasElem(w.rspec[k], x) {
			return
		}
		if o := w.rootOf(x); o >= 0 {
			w.rspec[o] = without(w.rspec[o], x)
		}
		if f := w.contFeature(x); f >= 0 && !w.meta.features[f].resolve {
			w.leave(x)
		}
		w.rspec[k] = append(append([]any{}, w.rspec[k]...), x)
		return
	}
	w.log = append(w.log, fmt.Sprintf("resource %d remove %s", k, w.name(i)))
	w.res[k].GetContents().Remove(x)
	w.rspec[k] = without(w.rspec[k], x)
}

// vmHistory is a sequence of operations on a world.
type vmHistory struct {
	t *vTape
	n int
	w *vmWorld
}

func vgen_vmHistory(t *vTape) *vmHistory {
	return &vmHistory{t: t, n: 1 + t.Choose(16)}
}

func (h *vmHistory) vShow() string { return "a history of operations" }

// After any history of operations, every reference and its opposite agree, every
// object is in exactly the place its container says, and what observers were told
// is what happened.
//
// @property C04
// @native whole histories of operations on real dynamic objects (up to 4 objects, 16 operations)
func spec_Model_History(h *vmHistory) {
	w := newWorld(2+h.t.Choose(3), h.t.Choose(3))
	for k := 0; k < h.n; k++ {
		w.step(h.t)
		if bad := w.check(); bad != "" {
			h.t.Say("objects A.. of a class with references kids/parent, child/owner, parts, part, friends/friendOf, buddy/buddyOf, items/holder, links, link")
			for _, l := range w.log {
				h.t.Say("%s", l)
			}
			h.t.Say("then %s", bad)
			vEnsures("consistent and truthfully observed", false)
		}
		vEnsures("consistent and truthfully observed", true)
	}
}
