package ecore

import (
	"fmt"
	"reflect"
)

// ---- copying and comparing objects ----

type vmCopyWorld struct{ t *vTape }

func vgen_vmCopyWorld(t *vTape) *vmCopyWorld { return &vmCopyWorld{t} }
func (h *vmCopyWorld) vShow() string         { return "a tree of objects" }

// build makes a small model and a tree of its objects; it returns the roots.
// The choices are the same ones again if again is given.
func (h *vmCopyWorld) build() (objs []EObject, refs []EReference, feats []EStructuralFeature) {
	t, f := h.t, GetFactory()
	p, fac := f.CreateEPackage(), f.CreateEFactory()
	p.SetEFactoryInstance(fac)
	up, c := f.CreateEClass(), f.CreateEClass()
	up.SetName("Up")
	c.SetName("C")
	c.GetESuperTypes().Add(up)
	p.GetEClassifiers().Add(up)
	p.GetEClassifiers().Add(c)
	own := func() EClass {
		if t.Bool() {
			return up
		}
		return c
	}
	add := func(name string, fe EStructuralFeature, many bool) {
		fe.SetName(name)
		if many {
			fe.SetUpperBound(-1)
		}
		k := own()
		k.GetEStructuralFeatures().Add(fe)
		feats = append(feats, fe)
		t.Say("%s.%s", k.GetName(), name)
	}
	a, as := f.CreateEAttribute(), f.CreateEAttribute()
	a.SetEType(GetPackage().GetEString())
	as.SetEType(GetPackage().GetEString())
	add("att", a, false)
	add("atts", as, true)
	for i, n := range []string{"kid", "kids", "ref", "refs", "other", "others"} {
		r := f.CreateEReference()
		r.SetEType(c)
		r.SetContainment(i < 2)
		r.SetResolveProxies(t.Bool())
		add(n, r, i%2 == 1)
		refs = append(refs, r)
	}
	if t.Bool() {
		refs[4].SetEOpposite(refs[5])
		refs[5].SetEOpposite(refs[4])
		t.Say("other and others are opposite")
	}
	up1 := f.CreateEReference()
	up1.SetEType(c)
	refs = append(refs, up1)
	if t.Bool() {
		up1.SetName("up")
		refs[1].SetEOpposite(up1)
		up1.SetEOpposite(refs[1])
		own().GetEStructuralFeatures().Add(up1)
		feats = append(feats, up1)
		t.Say("kids has an opposite")
	}
	for i := 1 + t.Choose(5); i > 0; i-- {
		o := fac.Create(c)
		if t.Choose(8) == 0 {
			o.(EObjectInternal).ESetProxyURI(NewURI("p:" + string(rune('a'+t.Choose(2)))))
			t.Say("a proxy")
		}
		if t.Bool() {
			o.ESet(a, string(rune('a'+t.Choose(2))))
		}
		for j := t.Choose(3); j > 0; j-- {
			o.EGet(as).(EList).Add(string(rune('a' + t.Choose(3))))
		}
		if len(objs) > 0 {
			k := objs[t.Choose(len(objs))]
			if t.Bool() && !k.EIsSet(refs[0]) {
				k.ESet(refs[0], o)
			} else {
				k.EGet(refs[1]).(EList).Add(o)
			}
		}
		objs = append(objs, o)
	}
	out := fac.Create(c)
	for i := t.Choose(8); i > 0; i-- {
		o, x := objs[t.Choose(len(objs))], objs[t.Choose(len(objs))]
		r := refs[2+t.Choose(4)]
		if o.EIsProxy() {
			continue
		}
		if t.Choose(5) == 0 {
			x = out
		}
		if r.IsMany() {
			o.EGet(r).(EList).Add(x)
		} else {
			o.ESet(r, x)
		}
	}
	objs = append(objs, out)
	for i, o := range objs {
		t.Say("%d: %s", i, showCopy(o, feats, objs))
	}
	return
}

func numberIn(x any, objs []EObject) string {
	for i, o := range objs {
		if x == any(o) {
			return fmt.Sprint("#", i)
		}
	}
	return fmt.Sprint(x)
}

func showCopy(o EObject, feats []EStructuralFeature, objs []EObject) string {
	s := ""
	for _, f := range feats {
		if !o.EIsSet(f) {
			continue
		}
		s += f.GetName() + "="
		if l, ok := o.EGet(f).(EList); ok {
			for i := 0; i < l.Size(); i++ {
				s += numberIn(l.Get(i), objs) + ","
			}
		} else {
			s += numberIn(o.EGet(f), objs)
		}
		s += " "
	}
	return s
}

// A copy has the structure of the original, apart from it, and equals it.
//
// @property C13
// @native objects of a class and its super type with eight features, trees of up to 5 objects
func spec_Copy_Tree(h *vmCopyWorld) {
	objs, _, feats := h.build()
	root := objs[0]
	before := ""
	for _, o := range objs {
		before += showCopy(o, feats, objs) + "|"
	}
	y := Copy(root)
	// the two trees in the same order
	src, dst := []EObject{root}, []EObject{y}
	for it := root.EAllContents(); it.HasNext(); {
		src = append(src, it.Next().(EObject))
	}
	for it := y.EAllContents(); it.HasNext(); {
		dst = append(dst, it.Next().(EObject))
	}
	vEnsures("as many objects", len(src) == len(dst))
	to := map[any]any{}
	for i, o := range src {
		to[o] = dst[i]
		vEnsures("another object of the class", dst[i] != o && dst[i].EClass() == o.EClass())
		u, w := o.(EObjectInternal).EProxyURI(), dst[i].(EObjectInternal).EProxyURI()
		vEnsures("the same proxy", u == nil && w == nil || u != nil && w != nil && u.String() == w.String())
	}
	image := func(r EStructuralFeature, x any) (any, bool) {
		if _, ok := r.(EAttribute); ok {
			return x, true
		}
		if IsContainer(r) && x == any(root.EContainer()) {
			return nil, false
		}
		if c, ok := to[x]; ok {
			return c, true
		}
		return x, r.(EReference).GetEOpposite() == nil
	}
	for i, o := range src {
		for _, r := range feats {
			var want []any
			if l, ok := o.EGet(r).(EList); ok {
				for k := 0; k < l.Size(); k++ {
					if x, ok := image(r, l.Get(k)); ok {
						want = append(want, x)
					}
				}
			} else if v := o.EGet(r); v != nil && o.EIsSet(r) {
				if x, ok := image(r, v); ok {
					want = append(want, x)
				}
			}
			var have []any
			if l, ok := dst[i].EGet(r).(EList); ok {
				have = l.ToArray()
			} else if v := dst[i].EGet(r); v != nil && dst[i].EIsSet(r) {
				have = append(have, v)
			}
			same := len(want) == len(have)
			for k := range want {
				same = same && want[k] == have[k]
			}
			vEnsures(fmt.Sprintf("object %d, feature %s", i, r.GetName()), same)
		}
	}
	after := ""
	for _, o := range objs {
		after += showCopy(o, feats, objs) + "|"
	}
	vEnsures("the original is left alone", before == after)
}

// Objects are equal exactly if their trees and references have the same structure.
//
// @property C13
// @native objects of a class and its super type with eight features, trees of up to 5 objects
func spec_Equals_Tree(h *vmCopyWorld) {
	objs, _, feats := h.build()
	root := objs[0]
	vEnsures("equals itself", Equals(root, root))
	y := Copy(root)
	pairs := map[any]any{}
	vEnsures("as the structure says", Equals(root, y) == alike(root, y, feats, pairs))
	// one change
	i := h.t.Choose(len(objs) - 1)
	dst := []EObject{y}
	for it := y.EAllContents(); it.HasNext(); {
		dst = append(dst, it.Next().(EObject))
	}
	vRequires(i < len(dst))
	k := h.t.Choose(len(feats))
	f := feats[k]
	switch {
	case !f.IsMany() && h.t.Bool():
		dst[i].EUnset(f)
	case f.IsMany() && h.t.Bool():
		l := dst[i].EGet(f).(EList)
		vRequires(l.Size() > 1)
		l.Move(0, l.Size()-1)
	default:
		var v any = "b"
		if r, ok := f.(EReference); ok {
			v = dst[h.t.Choose(len(dst))]
			vRequires(!r.IsContainment() && !r.IsContainer())
		}
		if f.IsMany() {
			dst[i].EGet(f).(EList).Add(v)
		} else {
			dst[i].ESet(f, v)
		}
	}
	h.t.Say("copied, then object %d changed at %s", i, f.GetName())
	pairs = map[any]any{}
	want := alike(root, y, feats, pairs)
	vEnsures("as the structure says after a change", Equals(root, y) == want && Equals(y, root) == want)
}

func alike(a, b any, feats []EStructuralFeature, pairs map[any]any) bool {
	x, ok := a.(EObject)
	if !ok {
		return a == b
	}
	y, ok := b.(EObject)
	if !ok {
		return false
	}
	if m, ok := pairs[x]; ok {
		return m == any(y)
	}
	if m, ok := pairs[y]; ok {
		return m == any(x)
	}
	pairs[x], pairs[y] = y, x
	if x == y {
		return true
	}
	if x.EIsProxy() || y.EIsProxy() {
		u, w := x.(EObjectInternal).EProxyURI(), y.(EObjectInternal).EProxyURI()
		return u != nil && w != nil && u.String() == w.String()
	}
	for _, f := range feats {
		if IsContainer(f) {
			continue
		}
		if x.EIsSet(f) != y.EIsSet(f) {
			return false
		}
		if !x.EIsSet(f) {
			continue
		}
		v, w := x.EGet(f), y.EGet(f)
		if l, ok := v.(EList); ok {
			m := w.(EList)
			if l.Size() != m.Size() {
				return false
			}
			for i := 0; i < l.Size(); i++ {
				if !alike(l.Get(i), m.Get(i), feats, pairs) {
					return false
				}
			}
		} else if !alike(v, w, feats, pairs) {
			return false
		}
	}
	return true
}

// ---- comparing, proved ----

type vmTwinRef struct {
	EReference
	many, derived bool
	opp           *vmTwinRef
	contain       bool
	id            int
}

func (r *vmTwinRef) IsMany() bool        { return r.many }
func (r *vmTwinRef) IsDerived() bool     { return r.derived }
func (r *vmTwinRef) IsContainment() bool { return r.contain }
func (r *vmTwinRef) IsContainer() bool   { return r.opp != nil && r.opp.contain }
func (r *vmTwinRef) GetEOpposite() EReference {
	if r.opp == nil {
		return nil
	}
	return r.opp
}

type vmTwinAttr struct {
	EAttribute
	many, derived bool
	id            int
}

func (r *vmTwinAttr) IsMany() bool    { return r.many }
func (r *vmTwinAttr) IsDerived() bool { return r.derived }

type vmTwinClass struct {
	vmAnyClass
	feats *immutableEList
}

func (c *vmTwinClass) GetEAllStructuralFeatures() EList { return c.feats }

// An object with its values by feature; twin is the object it may be matched with.
type vmTwin struct {
	EObjectInternal
	cls  *vmTwinClass
	uri  *URI
	vals []any
	twin *vmTwin
}

func twinID(f any) int {
	if r, ok := f.(*vmTwinRef); ok {
		return r.id
	}
	if a, ok := f.(*vmTwinAttr); ok {
		return a.id
	}
	return -1
}

func (o *vmTwin) EClass() EClass                   { return o.cls }
func (o *vmTwin) EIsProxy() bool                   { return o.uri != nil }
func (o *vmTwin) EProxyURI() *URI                  { return o.uri }
func (o *vmTwin) EIsSet(f EStructuralFeature) bool { return o.vals[twinID(f)] != nil }
func (o *vmTwin) EGet(f EStructuralFeature) any    { return o.vals[twinID(f)] }

func twinKnown(v any) bool {
	o, ok := v.(*vmTwin)
	return ok && o != nil && vBorn(o)
}

// wfAt: an object has proper values for a feature.
func wfAt(f any, o *vmTwin) bool {
	if r, ok := f.(*vmTwinRef); ok && r != nil {
		if r.id < 0 || r.id >= len(o.vals) {
			return false
		}
		v := o.vals[r.id]
		if !r.many {
			return v == nil || twinKnown(v)
		}
		l, ok := v.(*immutableEList)
		return v == nil || ok && l != nil && vForall(0, len(l.data), func(j int) bool { return twinKnown(l.data[j]) })
	}
	a, ok := f.(*vmTwinAttr)
	if !ok || a == nil || a.id < 0 || a.id >= len(o.vals) {
		return false
	}
	v := o.vals[a.id]
	l, isList := v.(*immutableEList)
	return !a.many || v == nil || isList && l != nil
}

// sameAttr: the values of an attribute are alike.
func sameAttr(a *vmTwinAttr, v, w any) bool {
	if v == nil || w == nil {
		return v == w
	}
	if !a.many {
		return reflect.DeepEqual(v, w)
	}
	l, m := v.(*immutableEList).data, w.(*immutableEList).data
	return len(l) == len(m) && vForall(0, len(l), func(j int) bool { return reflect.DeepEqual(l[j], m[j]) })
}

// sameRef: the values of a reference are twins.
func sameRef(r *vmTwinRef, v, w any) bool {
	if v == nil || w == nil {
		return v == w
	}
	if !r.many {
		return paired(v, w)
	}
	l, m := v.(*immutableEList).data, w.(*immutableEList).data
	return len(l) == len(m) && vForall(0, len(l), func(j int) bool { return paired(l[j], m[j]) })
}

// paired: one of two objects is the twin of the other.
func paired(v, w any) bool {
	return v.(*vmTwin).twin == w.(*vmTwin) || w.(*vmTwin).twin == v.(*vmTwin)
}

// vuTwinAt: x and y have proper and alike values for a feature.
func vuTwinAt(f any, x, y *vmTwin) bool {
	if !wfAt(f, x) || !wfAt(f, y) {
		return false
	}
	if r, ok := f.(*vmTwinRef); ok {
		return sameRef(r, x.vals[r.id], y.vals[r.id])
	}
	a := f.(*vmTwinAttr)
	return sameAttr(a, x.vals[a.id], y.vals[a.id])
}

// alikeTwins: x may be matched with y.
func alikeTwins(x, y *vmTwin) bool {
	if x == y {
		return true
	}
	if x.uri != nil || y.uri != nil {
		return x.uri != nil && y.uri != nil && x.uri.rawURI == y.uri.rawURI
	}
	return x.cls == y.cls && x.cls != nil && x.cls.feats != nil &&
		vForall(0, len(x.cls.feats.data), func(i int) bool {
			f := x.cls.feats.data[i]
			return wfFeature(f) && (skipped(f) || vuTwinAt(f, x, y))
		})
}

func wfFeature(f any) bool {
	if r, ok := f.(*vmTwinRef); ok {
		return r != nil
	}
	a, ok := f.(*vmTwinAttr)
	return ok && a != nil
}

func twins() bool {
	return vAll(func(o *vmTwin) bool {
		return vTrig(o == nil || o.twin == nil || vBorn(o.twin) && o.twin.twin == o && alikeTwins(o, o.twin), o.twin)
	})
}

// fits: objects are matched with their twins only.
func fits(m map[EObject]EObject) bool {
	return vAll(func(o *vmTwin) bool {
		return vTrig(o == nil || m[o] == nil || m[o] == EObject(o.twin), o.twin)
	})
}

// Lists of twins are found equal.
//
// @property C13
// @contract deepEqual.equalsObjectList
// @uses spec_Equals_Twins
// @inv twin
func spec_Equals_TwinLists(dE *deepEqual, l, m *immutableEList) bool {
	vRequires(twins() && dE.objects != nil && fits(dE.objects) && len(l.data) == len(m.data))
	vRequires(vForall(0, len(l.data), func(j int) bool {
		return twinKnown(l.data[j]) && twinKnown(m.data[j]) && l.data[j].(*vmTwin).twin == m.data[j].(*vmTwin)
	}))
	vModifies(vKeys(dE.objects))
	r := dE.equalsObjectList(l, m)
	vEnsures("equal", r)
	vEnsures("matched with twins", fits(dE.objects))
	return r
}

// The values of twins are found equal.
//
// @property C13
// @contract deepEqual.equalsFeature
// @unfold vuTwinAt
// @uses spec_Equals_Twins spec_Equals_TwinLists
// @inv twin
func spec_Equals_TwinValues(dE *deepEqual, x, y *vmTwin, f EStructuralFeature) bool {
	vRequires(twins() && dE.objects != nil && fits(dE.objects) && vBorn(x) && vBorn(y))
	vRequires(wfFeature(f) && vuTwinAt(f, x, y))
	vModifies(vKeys(dE.objects))
	r := dE.equalsFeature(x, y, f)
	vEnsures("equal", r)
	vEnsures("matched with twins", fits(dE.objects))
	return r
}

// skipped: a feature that does not take part, derived or leading to the container.
func skipped(f any) bool {
	if r, ok := f.(*vmTwinRef); ok {
		return r.derived || r.IsContainer()
	}
	return f.(*vmTwinAttr).derived
}

// Objects that have the same structure are found equal: what may be matched is matched.
//
// @property C13
// @contract deepEqual.equals
// @uses spec_Equals_TwinValues
// @inv twin
func spec_Equals_Twins(dE *deepEqual, x, y *vmTwin) bool {
	vRequires(twins() && dE.objects != nil && fits(dE.objects) && vBorn(x) && vBorn(y) && x.twin == y)
	vModifies(vKeys(dE.objects))
	r := dE.equals(x, y)
	vEnsures("equal", r)
	vEnsures("matched with twins", fits(dE.objects))
	return r
}

func inv_deepEqual_equals_1__twin(dE *deepEqual, it EIterator, eObj1, eObj2 EObject, unit_dE *deepEqual, unit_x, unit_y *vmTwin) bool {
	i, ok := it.(*listIterator)
	return dE == unit_dE && eObj1 == EObject(unit_x) && eObj2 == EObject(unit_y) && ok && i != nil && i.list == EList(unit_x.cls.feats) && i.cursor >= 0 && i.cursor <= len(unit_x.cls.feats.data) && fits(dE.objects)
}

func inv_deepEqual_equalsObjectList_1__twin(dE *deepEqual, i, size int, unit_dE *deepEqual) bool {
	return dE == unit_dE && i >= 0 && i <= size && fits(dE.objects)
}

func inv_deepEqual_equalsPrimitiveList_1__twin(dE *deepEqual, i, size int, unit_dE *deepEqual) bool {
	return i >= 0 && i <= size
}

// vuWfAt: an object has a proper value for a feature.
func vuWfAt(f any, o *vmTwin) bool { return wfAt(f, o) }

// vuJust: one of two objects is alike the other, what they refer to being twins.
func vuJust(x, y *vmTwin) bool { return alikeTwins(x, y) || alikeTwins(y, x) }

func properTwins() bool {
	return vAll(func(o *vmTwin) bool {
		return vTrig(o == nil || o.cls != nil && o.cls.feats != nil && vForall(0, len(o.cls.feats.data), func(i int) bool {
			return wfFeature(o.cls.feats.data[i]) && vuWfAt(o.cls.feats.data[i], o)
		}), o.cls)
	})
}

// kept: what was matched is matched still, with the same.
func kept(m0 vMap[EObject, EObject], m map[EObject]EObject) bool {
	return vAll(func(o *vmTwin) bool { return vTrig(o == nil || m0.Get(o) == nil || m[o] == m0.Get(o), o.twin) })
}

// justified: if the matches are between twins, all new ones but that of x and y are of objects that are alike.
func justified(m0 vMap[EObject, EObject], m map[EObject]EObject, x, y *vmTwin) bool {
	return !fits(m) || vAll(func(o *vmTwin) bool {
		return vTrig(o == nil || o == x || o == y || m[o] == nil || m0.Get(o) != nil || vuJust(o, o.twin), o.twin)
	})
}

// Objects found equal have the same structure: all that was matched to find this out is alike in every feature.
//
// @property C13
// @contract deepEqual.equals
// @unfold vuJust
// @uses spec_Equals_SoundValues
// @inv sound
func spec_Equals_Sound(dE *deepEqual, x, y *vmTwin) bool {
	vRequires(properTwins() && dE.objects != nil && vBorn(x) && vBorn(y))
	vModifies(vKeys(dE.objects))
	m0 := vSnapMap(dE.objects)
	r := dE.equals(x, y)
	vEnsures("keeps", kept(m0, dE.objects))
	vEnsures("matched", !r || dE.objects[x] == EObject(y) || dE.objects[y] == EObject(x))
	vEnsures("alike", !r || justified(m0, dE.objects, nil, nil))
	return r
}

func inv_deepEqual_equals_1__sound(dE *deepEqual, it EIterator, eObj1, eObj2 EObject, unit_dE *deepEqual, unit_x, unit_y *vmTwin) bool {
	i, ok := it.(*listIterator)
	m0 := vAtStart(func() vMap[EObject, EObject] { return vSnapMap(dE.objects) })
	return dE == unit_dE && eObj1 == EObject(unit_x) && eObj2 == EObject(unit_y) && ok && i != nil && i.list == EList(unit_x.cls.feats) && i.cursor >= 0 && i.cursor <= len(unit_x.cls.feats.data) &&
		kept(m0, dE.objects) && dE.objects[unit_x] == EObject(unit_y) && dE.objects[unit_y] == EObject(unit_x) && justified(m0, dE.objects, unit_x, unit_y) &&
		(!fits(dE.objects) || vForall(0, i.cursor, func(j int) bool {
			f := unit_x.cls.feats.data[j]
			return skipped(f) || vuTwinAt(f, unit_x, unit_y)
		}))
}

// @property C13
// @contract deepEqual.equalsFeature
// @unfold vuTwinAt vuWfAt
// @uses spec_Equals_Sound spec_Equals_SoundLists
// @inv sound
func spec_Equals_SoundValues(dE *deepEqual, x, y *vmTwin, f EStructuralFeature) bool {
	vRequires(properTwins() && dE.objects != nil && vBorn(x) && vBorn(y) && wfFeature(f) && vuWfAt(f, x) && vuWfAt(f, y))
	vModifies(vKeys(dE.objects))
	m0 := vSnapMap(dE.objects)
	r := dE.equalsFeature(x, y, f)
	vEnsures("keeps", kept(m0, dE.objects))
	vEnsures("alike", !r || justified(m0, dE.objects, nil, nil))
	vEnsures("the values are", !r || !fits(dE.objects) || vuTwinAt(f, x, y))
	return r
}

// @property C13
// @contract deepEqual.equalsObjectList
// @uses spec_Equals_Sound
// @inv sound
func spec_Equals_SoundLists(dE *deepEqual, l, m *immutableEList) bool {
	vRequires(properTwins() && dE.objects != nil)
	vRequires(vForall(0, len(l.data), func(j int) bool { return twinKnown(l.data[j]) }))
	vRequires(vForall(0, len(m.data), func(j int) bool { return twinKnown(m.data[j]) }))
	vModifies(vKeys(dE.objects))
	m0 := vSnapMap(dE.objects)
	r := dE.equalsObjectList(l, m)
	vEnsures("keeps", kept(m0, dE.objects))
	vEnsures("alike", !r || justified(m0, dE.objects, nil, nil))
	vEnsures("as long", !r || len(l.data) == len(m.data))
	vEnsures("twins", !r || !fits(dE.objects) || vForall(0, len(l.data), func(j int) bool { return paired(l.data[j], m.data[j]) }))
	return r
}

func inv_deepEqual_equalsObjectList_1__sound(dE *deepEqual, i, size int, unit_dE *deepEqual, unit_l, unit_m *immutableEList) bool {
	m0 := vAtStart(func() vMap[EObject, EObject] { return vSnapMap(dE.objects) })
	return dE == unit_dE && i >= 0 && i <= size && kept(m0, dE.objects) && justified(m0, dE.objects, nil, nil) &&
		(!fits(dE.objects) || vForall(0, i, func(j int) bool {
			return paired(unit_l.data[j], unit_m.data[j])
		}))
}

func inv_deepEqual_equalsPrimitiveList_1__sound(l1, l2 EList, i, size int) bool {
	return i >= 0 && i <= size && vForall(0, i, func(j int) bool {
		return reflect.DeepEqual(l1.(*immutableEList).data[j], l2.(*immutableEList).data[j])
	})
}

// ---- copying, proved ----

// An object to be copied, and what its copy is. The class is the object's own, so that what
// the factory makes is determined.
type vmCpy struct {
	EObjectInternal
	cls  *vmCpyClass
	uri  *URI
	vals []any
	img  *vmCpy // the copy of an original
	of   *vmCpy // the original of a copy
}

type vmCpyClass struct {
	vmAnyClass
	feats *immutableEList
	of    *vmCpy
}

type vmCpyPackage struct {
	EPackage
	cls *vmCpyClass
}

type vmCpyFactory struct {
	EFactory
	cls *vmCpyClass
}

func (c *vmCpyClass) GetEAllStructuralFeatures() EList { return c.feats }
func (c *vmCpyClass) GetEAllReferences() EList         { return c.feats }
func (c *vmCpyClass) GetEPackage() EPackage            { return &vmCpyPackage{cls: c} }
func (p *vmCpyPackage) GetEFactoryInstance() EFactory  { return &vmCpyFactory{cls: p.cls} }
func (f *vmCpyFactory) Create(c EClass) EObject {
	vAssert("the object's class is instantiated", c == EClass(f.cls))
	return f.cls.of.img
}

// an arbitrary original, one of its features, and whether the copy was given its value
var (
	vgCpy     *vmCpy
	vgCpyFeat any
	vgCpyDone bool
)

func (o *vmCpy) EClass() EClass                   { return o.cls }
func (o *vmCpy) EIsProxy() bool                   { return o.uri != nil }
func (o *vmCpy) EProxyURI() *URI                  { return o.uri }
func (o *vmCpy) EIsSet(f EStructuralFeature) bool { return o.vals[cpyID(f)] != nil }
func (o *vmCpy) EGet(f EStructuralFeature) any    { return o.vals[cpyID(f)] }
func (o *vmCpy) EGetResolve(f EStructuralFeature, resolve bool) any {
	return o.vals[cpyID(f)]
}

func (o *vmCpy) ESetProxyURI(u *URI) {
	vAssert("the proxy URI of the original", o.of != nil && u == o.of.uri)
	vgCpyDone = vgCpyDone || vgCpyFeat == nil && vgCpy != nil && o == vgCpy.img
}

func (o *vmCpy) ESet(f EStructuralFeature, v any) {
	vAssert("the value of the original", o.of != nil && rightCopy(f, o.of.vals[cpyID(f)], v))
	vgCpyDone = vgCpyDone || vgCpy != nil && o == vgCpy.img && f == vgCpyFeat
}

type vmCpyRef struct {
	EReference
	many, derived, fixed, contain, container bool
	id                                       int
}

func (r *vmCpyRef) IsMany() bool        { return r.many }
func (r *vmCpyRef) IsDerived() bool     { return r.derived }
func (r *vmCpyRef) IsChangeable() bool  { return !r.fixed }
func (r *vmCpyRef) IsContainment() bool { return r.contain }
func (r *vmCpyRef) IsContainer() bool   { return r.container }

type vmCpyAttr struct {
	EAttribute
	derived, fixed bool
	id             int
}

func (r *vmCpyAttr) IsDerived() bool    { return r.derived }
func (r *vmCpyAttr) IsChangeable() bool { return !r.fixed }

func cpyID(f any) int {
	if r, ok := f.(*vmCpyRef); ok {
		return r.id
	}
	if a, ok := f.(*vmCpyAttr); ok {
		return a.id
	}
	return -1
}

func original(v any) bool {
	o, ok := v.(*vmCpy)
	return ok && o != nil && vBorn(o) && o.img != nil
}

// rightCopy: w is the value of a copy if v is that of its original.
func rightCopy(f, v, w any) bool {
	r, ok := f.(*vmCpyRef)
	if !ok {
		return v == w
	}
	if !r.contain {
		return false
	}
	if !r.many {
		return w == any(v.(*vmCpy).img)
	}
	m, ok := w.(*immutableEList)
	return ok && m != nil && imagesOf(v.(*immutableEList).data, m.data)
}

func imagesOf(l, m []any) bool {
	return len(l) == len(m) && vForall(0, len(l), func(j int) bool { return m[j] == any(l[j].(*vmCpy).img) })
}

// vuCpyAt: an object has a proper value for a feature.
func vuCpyAt(f any, o *vmCpy) bool {
	if r, ok := f.(*vmCpyRef); ok {
		if r == nil || r.id < 0 || r.id >= len(o.vals) {
			return false
		}
		v := o.vals[r.id]
		if !r.many {
			return v == nil || original(v)
		}
		l, ok := v.(*immutableEList)
		return v == nil || ok && l != nil && vForall(0, len(l.data), func(j int) bool { return original(l.data[j]) })
	}
	a, ok := f.(*vmCpyAttr)
	return ok && a != nil && a.id >= 0 && a.id < len(o.vals)
}

func isCpyFeature(f any) bool {
	if r, ok := f.(*vmCpyRef); ok {
		return r != nil
	}
	a, ok := f.(*vmCpyAttr)
	return ok && a != nil
}

// taken: a feature whose value copies are given.
func taken(f any) bool {
	if r, ok := f.(*vmCpyRef); ok {
		return r.contain && !r.derived && !r.fixed
	}
	a := f.(*vmCpyAttr)
	return !a.derived && !a.fixed
}

func originals() bool {
	return vAll(func(o *vmCpy) bool {
		return vTrig(o == nil || o.img == nil || vBorn(o.img) && o.img.of == o && o.cls != nil && o.cls.of == o && o.cls.feats != nil && vBorn(o.cls.feats.data) &&
			vForall(0, len(o.cls.feats.data), func(i int) bool {
				f := o.cls.feats.data[i]
				return isCpyFeature(f) && vuCpyAt(f, o)
			}), o.img)
	})
}

// Copying a value gives the copy the value that belongs to it, and no other object anything else.
//
// @property C13
// @contract deepCopy.copyAttribute
// @unfold vuCpyAt
func spec_Copy_Attribute(dC *deepCopy, f *vmCpyAttr, x, y *vmCpy) {
	vRequires(vBorn(x) && x.img != nil && y == x.img && vBorn(y) && y.of == x && vuCpyAt(f, x))
	done := vgCpyDone
	vModifies(vgCpyDone)
	dC.copyAttribute(f, x, y)
	vEnsures("remembered", !done || vgCpyDone)
	vEnsures("given", x.vals[f.id] == nil || x != vgCpy || vgCpyFeat != any(f) || vgCpyDone)
}

// @property C13
// @contract deepCopy.copyContainment
// @unfold vuCpyAt
// @uses spec_Copy_Object spec_Copy_All
func spec_Copy_Containment(dC *deepCopy, f *vmCpyRef, x, y *vmCpy) {
	vRequires(originals() && dC.objects != nil)
	vRequires(vBorn(x) && x.img != nil && y == x.img && f.contain && vuCpyAt(f, x))
	done := vgCpyDone
	m0 := vSnapMap(dC.objects)
	vModifies(vgCpyDone, vKeys(dC.objects))
	dC.copyContainment(f, x, y)
	vEnsures("remembered", !done || vgCpyDone)
	vEnsures("given", x.vals[f.id] == nil || x != vgCpy || vgCpyFeat != any(f) || vgCpyDone)
	vEnsures("copies", imaged(m0, dC.objects))
	vEnsures("complete", complete(m0, dC.objects))
}

// imaged: objects are related to their copies.
func imaged(m0 vMap[EObject, EObject], m map[EObject]EObject) bool {
	return vAll(func(o *vmCpy) bool {
		return vTrig(o == nil || m[o] == m0.Get(o) || o.img != nil && m[o] == EObject(o.img), o.img)
	})
}

// complete: if the arbitrary object has been copied, its copy was given the value of the arbitrary feature.
func complete(m0 vMap[EObject, EObject], m map[EObject]EObject) bool {
	o := vgCpy
	return o == nil || m[o] == m0.Get(o) || vgCpyDone || vPure(!wanted(o))
}

func wanted(o *vmCpy) bool {
	return vgCpyFeat == nil && o.uri != nil || vgCpyFeat != nil && vExists(0, len(o.cls.feats.data), func(i int) bool {
		f := o.cls.feats.data[i]
		return f == vgCpyFeat && taken(f) && o.vals[cpyID(f)] != nil
	})
}

// @property C13
// @contract deepCopy.copyAll
// @uses spec_Copy_Object
// @inv cpy
func spec_Copy_All(dC *deepCopy, l *immutableEList) EList {
	vRequires(originals() && dC.objects != nil && vForall(0, len(l.data), func(j int) bool { return original(l.data[j]) }))
	done := vgCpyDone
	m0 := vSnapMap(dC.objects)
	vModifies(vgCpyDone, vKeys(dC.objects))
	r := dC.copyAll(l)
	m, ok := r.(*immutableEList)
	vEnsures("the images", ok && m != nil && imagesOf(l.data, m.data))
	vEnsures("remembered", !done || vgCpyDone)
	vEnsures("copies", imaged(m0, dC.objects))
	vEnsures("complete", complete(m0, dC.objects))
	return r
}

func inv_deepCopy_copyAll_1__cpy(dC *deepCopy, it EIterator, copies []any, unit_dC *deepCopy, unit_l *immutableEList) bool {
	i, ok := it.(*listIterator)
	m0 := vAtStart(func() vMap[EObject, EObject] { return vSnapMap(dC.objects) })
	done := vAtStart(func() bool { return vgCpyDone })
	return dC == unit_dC && ok && i != nil && i.list == EList(unit_l) && i.cursor >= 0 && i.cursor <= len(unit_l.data) &&
		imaged(m0, dC.objects) && complete(m0, dC.objects) && (!done || vgCpyDone) && len(copies) == i.cursor &&
		vForall(0, len(copies), func(j int) bool { return copies[j] == any(unit_l.data[j].(*vmCpy).img) })
}

// A copy is an object of its own that is given what its original holds, feature by feature, and so are the
// objects it contains.
//
// @property C13
// @contract deepCopy.copy
// @uses spec_Copy_Attribute spec_Copy_Containment
// @inv cpy
func spec_Copy_Object(dC *deepCopy, x *vmCpy) EObject {
	vRequires(originals() && dC.objects != nil && vBorn(x) && x.img != nil)
	done := vgCpyDone
	m0 := vSnapMap(dC.objects)
	vModifies(vgCpyDone, vKeys(dC.objects))
	r := dC.copy(x)
	vEnsures("the copy", r == EObject(x.img) && dC.objects[x] == r)
	vEnsures("remembered", !done || vgCpyDone)
	vEnsures("copies", imaged(m0, dC.objects))
	vEnsures("complete", complete(m0, dC.objects))
	return r
}

func inv_deepCopy_copy_1__cpy(dC *deepCopy, it EIterator, eObject, copyEObject EObject, unit_dC *deepCopy, unit_x *vmCpy) bool {
	i, ok := it.(*listIterator)
	m0 := vAtStart(func() vMap[EObject, EObject] { return vSnapMap(dC.objects) })
	done := vAtStart(func() bool { return vgCpyDone })
	x := unit_x
	return dC == unit_dC && eObject == EObject(x) && copyEObject == EObject(x.img) && ok && i != nil && i.list == EList(x.cls.feats) && i.cursor >= 0 && i.cursor <= len(x.cls.feats.data) &&
		imaged(m0, dC.objects) && dC.objects[x] == EObject(x.img) && (x == vgCpy || complete(m0, dC.objects)) && (!done || vgCpyDone) &&
		(x != vgCpy || vgCpyDone || vForall(0, i.cursor, func(j int) bool {
			f := x.cls.feats.data[j]
			return f != vgCpyFeat || !taken(f) || x.vals[cpyID(f)] == nil
		}))
}

// ---- copying references, proved ----

type vmRefObj struct {
	EObjectInternal
	set        bool
	value, raw any
	given      any
	times      int
}

func (o *vmRefObj) EIsSet(f EStructuralFeature) bool { return o.set }
func (o *vmRefObj) EGetResolve(f EStructuralFeature, resolve bool) any {
	if resolve {
		return o.value
	}
	return o.raw
}
func (o *vmRefObj) ESet(f EStructuralFeature, v any) {
	o.given = v
	o.times++
}

type vmRefRef struct {
	EReference
	many bool
	opp  *vmRefRef
}

func (r *vmRefRef) IsMany() bool { return r.many }
func (r *vmRefRef) GetEOpposite() EReference {
	if r.opp == nil {
		return nil
	}
	return r.opp
}

// A copy refers to the copy of what its original refers to, or to the same if that was not copied and
// may be shared.
//
// @property C13
func spec_Copy_Reference_One(dC *deepCopy, f *vmRefRef, x, y, t *vmRefObj, to bool) {
	vRequires(!f.many && dC.objects != nil && y != x && y.times == 0 && x.times == 0)
	x.value, x.raw = nil, nil
	if to && dC.resolve {
		x.value = t
	}
	if to && !dC.resolve {
		x.raw = t
	}
	c := dC.objects[t]
	vRequires(c == nil || vPure(copied(c)))
	dC.copyReference(f, x, y)
	switch {
	case !x.set:
		vEnsures("left unset", y.times == 0)
	case !to:
		vEnsures("nothing", y.times == 1 && y.given == nil)
	case c != nil:
		vEnsures("the copy", y.times == 1 && y.given == any(c))
	case dC.originalReferences && f.opp == nil:
		vEnsures("the same", y.times == 1 && y.given == any(t))
	default:
		vEnsures("left out", y.times == 0)
	}
	vEnsures("the original is left alone", x.times == 0)
}

func copied(c EObject) bool {
	o, ok := c.(*vmRefObj)
	return ok && o != nil
}

type vmIn struct {
	EObjectList
	all, raw *immutableEList
}

func (l *vmIn) Empty() bool              { return len(l.all.data) == 0 }
func (l *vmIn) Iterator() EIterator      { return l.all.Iterator() }
func (l *vmIn) GetUnResolvedList() EList { return l.raw }

type vmOut struct {
	EObjectList
	data []any
}

func (l *vmOut) GetUnResolvedList() EList { return l }
func (l *vmOut) Clear()                   { l.data = nil }
func (l *vmOut) Add(e any) bool {
	l.data = append(append([]any{}, l.data...), e)
	return true
}
func (l *vmOut) Insert(index int, e any) bool {
	vAssert("a place in the list", index >= 0 && index <= len(l.data))
	if index == len(l.data) {
		return l.Add(e)
	}
	l.data = append(append(append([]any{}, l.data[:index]...), e), l.data[index:]...)
	return true
}

// how many of the first elements of a list are taken, and which is the n-th of them
type vmCount struct{ at, nth []int }

func okCount(n *vmCount, l []any, dC *deepCopy, bi bool) bool {
	return len(n.at) == len(l)+1 && n.at[0] == 0 && n.at[len(l)] == len(n.nth) &&
		vForall(0, len(l), func(j int) bool { return vTrig(isRefObj(l[j]), l[j]) }) &&
		vForall(0, len(l), func(j int) bool { return vTrig(okCountAt(n, l[j], j, dC, bi), n.at[j]) })
}

func isRefObj(v any) bool {
	o, ok := v.(*vmRefObj)
	return ok && o != nil
}

func okCountAt(n *vmCount, v any, j int, dC *deepCopy, bi bool) bool {
	if n.at[j] < 0 || n.at[j] > len(n.nth) {
		return false
	}
	if takenTo(dC, v, bi) {
		return n.at[j+1] == n.at[j]+1 && n.at[j] < len(n.nth) && n.nth[n.at[j]] == j
	}
	return n.at[j+1] == n.at[j]
}

func takenTo(dC *deepCopy, v any, bi bool) bool {
	return dC.objects[v.(*vmRefObj)] != nil || dC.originalReferences && !bi
}

func imageIn(dC *deepCopy, v any) any {
	if c := dC.objects[v.(*vmRefObj)]; c != nil {
		return c
	}
	return v
}

// A list of references is copied in order, without what was neither copied nor may be shared.
//
// @property C13
// @inv one
func spec_Copy_Reference_Many(dC *deepCopy, f *vmRefRef, x, y *vmRefObj, in *vmIn, out *vmOut, n *vmCount) {
	l := in.raw
	if dC.resolve {
		l = in.all
	}
	vRequires(f.many && f.opp == nil && dC.objects != nil && y != x && x.set)
	out.data = nil
	x.value, x.raw, y.raw = in, in, out
	vRequires(in.all != nil && in.raw != nil && okCount(n, l.data, dC, false))
	dC.copyReference(f, x, y)
	vEnsures("all that are taken", len(out.data) == len(n.nth))
	vEnsures("in order", inOrder(n, out, l, dC, len(n.nth)))
}

func inOrder(n *vmCount, out *vmOut, l *immutableEList, dC *deepCopy, k int) bool {
	return vForall(0, k, func(p int) bool { return out.data[p] == imageIn(dC, l.data[n.nth[p]]) })
}

func inv_deepCopy_copyReference_1__one(dC *deepCopy, it EIterator, target EList, index int, isBidirectional bool, unit_dC *deepCopy, unit_f *vmRefRef, unit_in *vmIn, unit_out *vmOut, unit_n *vmCount) bool {
	l := unit_in.raw
	if dC.resolve {
		l = unit_in.all
	}
	i, ok := it.(*listIterator)
	return dC == unit_dC && ok && i != nil && i.list == EList(l) && i.cursor >= 0 && i.cursor <= len(l.data) && target == EList(unit_out) && isBidirectional == (unit_f.opp != nil) &&
		index == unit_n.at[i.cursor] && index == len(unit_out.data) && (unit_out.data == nil || vSep(unit_out.data, l.data)) && inOrder(unit_n, unit_out, l, dC, index)
}

type vmSeen struct {
	EObjectInternal
	cls *vmCpyClass
}

// an arbitrary object and one of its references, and whether it was looked at
var (
	vgSeen     *vmSeen
	vgSeenRef  *vmCpyRef
	vgSeenDone bool
)

func (o *vmSeen) EClass() EClass { return o.cls }
func (o *vmSeen) EIsSet(f EStructuralFeature) bool {
	vgSeenDone = vgSeenDone || o == vgSeen && f == EStructuralFeature(vgSeenRef)
	return false
}

func isSeen(k any) bool {
	o, ok := k.(*vmSeen)
	return ok && o != nil && o.cls != nil && o.cls.feats != nil && vForall(0, len(o.cls.feats.data), func(i int) bool {
		r, ok := o.cls.feats.data[i].(*vmCpyRef)
		return ok && r != nil
	})
}

func crosses(r *vmCpyRef) bool { return !r.fixed && !r.derived && !r.contain && !r.container }

// Every cross reference of every object that was copied is looked at.
//
// @property C13
// @inv seen
func spec_Copy_References(dC *deepCopy) {
	vRequires(dC.objects != nil && vgSeen != nil && vgSeenRef != nil && !vgSeenDone && vAll(func(k EObject) bool {
		_, ok := dC.objects[k]
		return !ok || isSeen(k)
	}))
	m0 := vSnapMap(dC.objects)
	dC.copyReferences()
	vEnsures("looked at", !m0.Has(vgSeen) || !crosses(vgSeenRef) || vgSeenDone || vForall(0, len(vgSeen.cls.feats.data), func(i int) bool { return vgSeen.cls.feats.data[i] != any(vgSeenRef) }))
}

func inv_deepCopy_copyReferences_1__seen(dC *deepCopy) bool {
	return !vVisited(EObject(vgSeen)) || !crosses(vgSeenRef) || vgSeenDone || vForall(0, len(vgSeen.cls.feats.data), func(i int) bool { return vgSeen.cls.feats.data[i] != any(vgSeenRef) })
}

func inv_deepCopy_copyReferences_2__seen(it EIterator, eObject EObject) bool {
	i, ok := it.(*listIterator)
	o, is := eObject.(*vmSeen)
	done := vOldLoop(func() bool { return vgSeenDone })
	return ok && i != nil && is && isSeen(o) && i.list == EList(o.cls.feats) && i.cursor >= 0 && i.cursor <= len(o.cls.feats.data) && (!done || vgSeenDone) &&
		(o != vgSeen || !crosses(vgSeenRef) || vgSeenDone || vForall(0, i.cursor, func(j int) bool { return o.cls.feats.data[j] != any(vgSeenRef) }))
}
