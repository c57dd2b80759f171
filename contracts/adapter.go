package ecore

import "fmt"

// ---- the content adapter: it is an adapter of everything its targets contain ----

// the adapter, as the lists of adapters know it
var vgCA any

// an object that something contains; has: the adapter is among its adapters
type vmCAObj struct {
	EObjectInternal
	has        bool
	inRes      bool // a root of a resource
	inCont     bool // contained in an object
	res        *vmCARes
	cont       *vmCACont
	proxy      bool
	kids, raws []*vmCAObj // the contents, resolved and as stored
}
type vmCARes struct {
	EResource
	has  bool
	kids []*vmCAObj
}
type vmCACont struct {
	EObject
	has bool
}
type vmCASet struct {
	EResourceSet
	kids []*vmCAObj
}

// the adapters of an object that comes and goes, and those of one that stays
type vmCAList struct {
	EList
	o *vmCAObj
}
type vmCAStay struct {
	EList
	has bool
}

func (l *vmCAList) Contains(x any) bool { return x == vgCA && l.o.has }
func (l *vmCAList) Add(x any) bool {
	vAssert("it is the adapter that is added, once", x == vgCA && !l.o.has)
	l.o.has = true
	return true
}
func (l *vmCAList) Remove(x any) bool {
	vAssert("it is the adapter that is removed", x == vgCA)
	had := l.o.has
	l.o.has = false
	return had
}
func (l *vmCAStay) Contains(x any) bool { return x == vgCA && l.has }

func (o *vmCAObj) EAdapters() EList  { return &vmCAList{o: o} }
func (r *vmCARes) EAdapters() EList  { return &vmCAStay{has: r.has} }
func (c *vmCACont) EAdapters() EList { return &vmCAStay{has: c.has} }
func (o *vmCAObj) EInternalResource() EResource {
	if o.inRes {
		return o.res
	}
	return nil
}
func (o *vmCAObj) EInternalContainer() EObject {
	if o.inCont {
		return o.cont
	}
	return nil
}
func (o *vmCAObj) EIsProxy() bool { return o.proxy }

type vmCASeq struct {
	EObjectList
	data, raw []*vmCAObj
}
type vmCAIter struct {
	data []*vmCAObj
	pos  int
}

func (s *vmCASeq) GetUnResolvedList() EList { return &vmCASeq{data: s.raw, raw: s.raw} }
func (s *vmCASeq) Iterator() EIterator      { return &vmCAIter{data: s.data} }
func (i *vmCAIter) HasNext() bool           { return i.pos < len(i.data) }
func (i *vmCAIter) Next() any {
	r := i.data[i.pos]
	i.pos++
	return r
}
func (o *vmCAObj) EContents() EList      { return &vmCASeq{data: o.kids, raw: o.raws} }
func (r *vmCARes) GetContents() EList    { return &vmCASeq{data: r.kids, raw: r.kids} }
func (s *vmCASet) GetResources() EList   { return &vmCASeq{data: s.kids, raw: s.kids} }
func caKids(kids []*vmCAObj) bool {
	return vForall(0, len(kids), func(i int) bool { return kids[i] != nil && caObj(kids[i]) })
}
func caObj(o *vmCAObj) bool { return o.res != nil && o.cont != nil }

// the adapter stays with an object taken out of something it is still in otherwise
func caStays(o *vmCAObj, container, resource bool) bool {
	return resource && o.inRes && o.res.has || container && o.inCont && o.cont.has
}

type vmCARef struct {
	EReference
	containment bool
}

func (r *vmCARef) IsContainment() bool { return r.containment }

type vmCAAttr struct{ EAttribute }

type vmCANote struct {
	ENotification
	kind             int // what has changed: an object, a resource, a resource set
	noFeature, isRef bool
	ref              *vmCARef
	featureID        int
	event            EventType
	noOld, noNew     bool
	old, new         *vmCAObj
	olds, news       []any
}

func (n *vmCANote) GetNotifier() ENotifier {
	switch n.kind {
	case 0:
		return &vmCAObj{}
	case 1:
		return &vmCARes{}
	}
	return &vmCASet{}
}
func (n *vmCANote) GetFeature() EStructuralFeature {
	if n.noFeature {
		return nil
	}
	if n.isRef {
		return n.ref
	}
	return &vmCAAttr{}
}
func (n *vmCANote) GetFeatureID() int       { return n.featureID }
func (n *vmCANote) GetEventType() EventType { return n.event }
func (n *vmCANote) GetOldValue() any {
	if n.event == REMOVE_MANY {
		return n.olds
	}
	if n.noOld {
		return nil
	}
	return n.old
}
func (n *vmCANote) GetNewValue() any {
	if n.event == ADD_MANY {
		return n.news
	}
	if n.noNew {
		return nil
	}
	return n.new
}

// the change is one of what the notifier contains
func caContent(n *vmCANote) bool {
	switch n.kind {
	case 0:
		return !n.noFeature && n.isRef && n.ref.containment
	case 1:
		return n.featureID == RESOURCE__CONTENTS
	}
	return n.featureID == RESOURCE_SET__RESOURCES
}

func okCANote(n *vmCANote) bool {
	return n.kind >= 0 && n.kind <= 2 && n.ref != nil && n.old != nil && n.new != nil && caObj(n.old) && caObj(n.new)
}

// a change of one contained thing (x: any object)
// @property C15
func spec_CA_Event(ca *EContentAdapter, n *vmCANote, x *vmCAObj) {
	vRequires(okCANote(n) && ca.interfaces != nil && ca.interfaces == vgCA && n.event != ADD_MANY && n.event != REMOVE_MANY)
	vRequires(n.event != RESOLVE || !n.noNew)
	had, oldHad := x.has, n.old.has
	ca.NotifyChanged(n)
	changes := n.event == SET || n.event == UNSET
	if !caContent(n) || !changes && n.event != ADD && n.event != REMOVE && n.event != RESOLVE {
		vEnsures("no change of contents", x.has == had)
		return
	}
	comes := !n.noNew && (changes || n.event == ADD || n.event == RESOLVE && !n.noOld && oldHad)
	vEnsures("what comes is adapted", !comes || n.new.has)
	goes := !n.noOld && (changes && !caStays(n.old, false, true) || n.event == REMOVE && !caStays(n.old, n.kind == 1, !n.noFeature) || n.event == RESOLVE && oldHad)
	vEnsures("what goes is not", !goes || comes && n.old == n.new || !n.old.has)
	vEnsures("nothing else changes", comes && x == n.new || goes && x == n.old || x.has == had)
}

func isCAObj(v any) bool {
	o, ok := v.(*vmCAObj)
	return ok && o != nil && caObj(o)
}

// several things added (x: any other object)
// @property C15
// @inv ca
func spec_CA_AddMany(ca *EContentAdapter, n *vmCANote, x *vmCAObj) {
	vRequires(okCANote(n) && ca.interfaces != nil && ca.interfaces == vgCA && n.event == ADD_MANY && caContent(n))
	vRequires(vForall(0, len(n.news), func(i int) bool { return isCAObj(n.news[i]) && n.news[i] != any(x) }))
	had := x.has
	ca.NotifyChanged(n)
	vEnsures("each is adapted", vForall(0, len(n.news), func(i int) bool { return n.news[i].(*vmCAObj).has }))
	vEnsures("nothing else changes", x.has == had)
}

func inv_EContentAdapter_handleContainment_1__ca(adapter *EContentAdapter, newValues []any, k_ int, unit_x *vmCAObj) bool {
	return vForall(0, k_, func(i int) bool { return newValues[i].(*vmCAObj).has }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}

// several things removed (o: one of them)
// @property C15
// @inv ca
func spec_CA_RemoveMany(ca *EContentAdapter, n *vmCANote, x *vmCAObj) {
	vRequires(okCANote(n) && ca.interfaces != nil && ca.interfaces == vgCA && n.event == REMOVE_MANY && caContent(n))
	vRequires(vForall(0, len(n.olds), func(i int) bool {
		return isCAObj(n.olds[i]) && (n.olds[i] != any(x) || caStays(x, n.kind == 1, !n.noFeature))
	}))
	had := x.has
	ca.NotifyChanged(n)
	vEnsures("each is no longer adapted", vForall(0, len(n.olds), func(i int) bool {
		o := n.olds[i].(*vmCAObj)
		return !o.has || caStays(o, n.kind == 1, !n.noFeature)
	}))
	vEnsures("nothing else changes", x.has == had)
}

func inv_EContentAdapter_handleContainment_2__ca(adapter *EContentAdapter, oldValues []any, checkContainer, checkResource bool, k_ int, unit_x *vmCAObj) bool {
	return vForall(0, k_, func(i int) bool {
		o := oldValues[i].(*vmCAObj)
		return !o.has || caStays(o, checkContainer, checkResource)
	}) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}

// ---- attaching and detaching ----

// attached to something, the adapter is an adapter of all its contents (proxies aside, unless it resolves them; x: any other object)
// @property C15
// @inv ca
func spec_CA_SetTarget_Object(ca *EContentAdapter, o, x *vmCAObj) {
	vRequires(ca.interfaces != nil && ca.interfaces == vgCA && caKids(o.kids) && caKids(o.raws))
	resolve := ca.resolveProxies
	vRequires(!resolve || vForall(0, len(o.kids), func(i int) bool { return o.kids[i] != x }))
	vRequires(resolve || vForall(0, len(o.raws), func(i int) bool { return o.raws[i] != x || x.proxy }))
	had := x.has
	ca.SetTarget(o)
	vEnsures("target", ca.GetTarget() == ENotifier(o))
	vEnsures("contents", !resolve || vForall(0, len(o.kids), func(i int) bool { return o.kids[i].has }))
	vEnsures("contents as stored", resolve || vForall(0, len(o.raws), func(i int) bool { return o.raws[i].has || o.raws[i].proxy }))
	vEnsures("nothing else changes", x.has == had)
}

// @property C15
// @inv ca
func spec_CA_SetTarget_Resource(ca *EContentAdapter, r *vmCARes, s *vmCASet, set bool, x *vmCAObj) {
	vRequires(ca.interfaces != nil && ca.interfaces == vgCA && caKids(r.kids) && caKids(s.kids))
	kids := r.kids
	if set {
		kids = s.kids
	}
	vRequires(vForall(0, len(kids), func(i int) bool { return kids[i] != x }))
	had := x.has
	if set {
		ca.SetTarget(s)
	} else {
		ca.SetTarget(r)
	}
	vEnsures("contents", vForall(0, len(kids), func(i int) bool { return kids[i].has }))
	vEnsures("nothing else changes", x.has == had)
}

func inv_EContentAdapter_SetTarget_1__ca(it EIterator, unit_x *vmCAObj) bool {
	i, ok := it.(*vmCAIter)
	return ok && i != nil && i.pos >= 0 && i.pos <= len(i.data) && vForall(0, i.pos, func(j int) bool { return i.data[j].has || i.data[j].proxy }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}
func inv_EContentAdapter_SetTarget_2__ca(it EIterator, unit_x *vmCAObj) bool {
	i, ok := it.(*vmCAIter)
	return ok && i != nil && i.pos >= 0 && i.pos <= len(i.data) && vForall(0, i.pos, func(j int) bool { return i.data[j].has }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}

// detached from something, the adapter is no adapter of its contents any more, except of those that stay in what it is attached to
// @property C15
// @inv ca
func spec_CA_UnSetTarget(ca *EContentAdapter, o *vmCAObj, r *vmCARes, s *vmCASet, kind int, x *vmCAObj) {
	vRequires(ca.interfaces != nil && ca.interfaces == vgCA && caKids(o.kids) && caKids(r.kids) && caKids(s.kids) && kind >= 0 && kind <= 2)
	kids := o.kids
	if kind == 1 {
		kids = r.kids
	} else if kind == 2 {
		kids = s.kids
	}
	vRequires(vForall(0, len(kids), func(i int) bool { return kids[i] != x || caStays(x, kind == 1, kind == 0) }))
	had := x.has
	var target ENotifier = o
	if kind == 1 {
		target = r
	} else if kind == 2 {
		target = s
	}
	was := ca.GetTarget()
	ca.UnSetTarget(target)
	vEnsures("target", was == target && ca.GetTarget() == nil || was != target && ca.GetTarget() == was)
	vEnsures("contents", vForall(0, len(kids), func(i int) bool { return !kids[i].has || caStays(kids[i], kind == 1, kind == 0) }))
	vEnsures("nothing else changes", x.has == had)
}

func inv_EContentAdapter_UnSetTarget_1__ca(it EIterator, unit_x *vmCAObj) bool {
	i, ok := it.(*vmCAIter)
	return ok && i != nil && i.pos >= 0 && i.pos <= len(i.data) && vForall(0, i.pos, func(j int) bool { return !i.data[j].has || caStays(i.data[j], false, true) }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}
func inv_EContentAdapter_UnSetTarget_2__ca(it EIterator, unit_x *vmCAObj) bool {
	i, ok := it.(*vmCAIter)
	return ok && i != nil && i.pos >= 0 && i.pos <= len(i.data) && vForall(0, i.pos, func(j int) bool { return !i.data[j].has || caStays(i.data[j], true, false) }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}
func inv_EContentAdapter_UnSetTarget_3__ca(it EIterator, unit_x *vmCAObj) bool {
	i, ok := it.(*vmCAIter)
	return ok && i != nil && i.pos >= 0 && i.pos <= len(i.data) && vForall(0, i.pos, func(j int) bool { return !i.data[j].has }) && unit_x.has == vOldLoop(func() bool { return unit_x.has })
}

// On real objects, whatever is done: attached to one object and to one resource, the adapter is an
// adapter of exactly what they contain at any depth.
//
// @property C15
// @native whole histories of operations on real dynamic objects and resources
func spec_CA_History(h *vmHistory) {
	w := newWorld(2+h.t.Choose(3), 1+h.t.Choose(2))
	outer := &vmCAOuter{}
	outer.EContentAdapter.interfaces = outer
	outer.SetResolveProxies(h.t.Bool())
	root := h.t.Choose(len(w.objs))
	onRes := h.t.Bool()
	var top ENotifier = w.objs[root]
	if onRes {
		top = w.res[0]
	}
	at := h.t.Choose(4)
	for k := 0; k < h.n; k++ {
		if k == at {
			top.EAdapters().Add(outer)
			w.log = append(w.log, fmt.Sprintf("the adapter is attached (to resource 0: %v, or to %s)", onRes, w.name(root)))
		}
		before := w.places()
		w.step(h.t)
		if k < at {
			continue
		}
		moved := 0
		for i, p := range w.places() {
			if p != before[i] {
				moved++
			}
		}
		if moved > 1 {
			return // a known finding: what moves together with its container stays adapted
		}
		bad := ""
		for i, o := range w.objs {
			in := false
			for x := any(o); x != nil; x = w.containerOf(x) {
				in = in || x == any(top) || onRes && w.rootOf(x) == 0
			}
			if o.EAdapters().Contains(outer) != in {
				bad = fmt.Sprintf("%s is contained: %v, adapted: %v", w.name(i), in, !in)
			}
		}
		if bad != "" {
			for _, l := range w.log {
				h.t.Say("%s", l)
			}
			h.t.Say("then %s", bad)
			vEnsures("adapter of what is contained", false)
		}
		vEnsures("adapter of what is contained", true)
	}
}

// the place of each object: its container, or the resource it is a root of
func (w *vmWorld) places() []string {
	r := []string{}
	for _, o := range w.objs {
		r = append(r, fmt.Sprintf("%p %d", w.containerOf(o), w.rootOf(o)))
	}
	return r
}

type vmCAOuter struct{ EContentAdapter }

var vgCAPool []*vmCAObj

func vgen_EContentAdapter(t *vTape) *EContentAdapter {
	vgCAPool = nil
	ca := NewEContentAdapter()
	if t.Bool() {
		ca.SetInterfaces(&vmCAOuter{})
		t.Say("an adapter that extends the content adapter")
	}
	ca.resolveProxies = t.Bool()
	vgCA = ca.interfaces
	return ca
}
func vgCALeaf(t *vTape) *vmCAObj {
	if n := len(vgCAPool); n > 0 && t.Bool() {
		return vgCAPool[t.Choose(n)]
	}
	o := &vmCAObj{has: t.Bool(), inRes: t.Bool(), inCont: t.Bool(), proxy: t.Bool(), res: &vmCARes{has: t.Bool()}, cont: &vmCACont{has: t.Bool()}}
	vgCAPool = append(vgCAPool, o)
	return o
}
func vgCALeaves(t *vTape) []*vmCAObj {
	r := []*vmCAObj{}
	for n := t.Choose(3); n > 0; n-- {
		r = append(r, vgCALeaf(t))
	}
	return r
}
func vgen_vmCAObj(t *vTape) *vmCAObj {
	o := vgCALeaf(t)
	if len(o.kids) == 0 && t.Bool() {
		o.kids, o.raws = vgCALeaves(t), vgCALeaves(t)
	}
	return o
}
func vgen_vmCARes(t *vTape) *vmCARes { return &vmCARes{has: t.Bool(), kids: vgCALeaves(t)} }
func vgen_vmCASet(t *vTape) *vmCASet { return &vmCASet{kids: vgCALeaves(t)} }
func vgen_vmCANote(t *vTape) *vmCANote {
	n := &vmCANote{kind: t.Choose(3), noFeature: t.Bool(), isRef: t.Bool(), ref: &vmCARef{containment: t.Bool()}, featureID: []int{RESOURCE__CONTENTS, RESOURCE_SET__RESOURCES, -1}[t.Choose(3)],
		event: EventType(t.Choose(9)), noOld: t.Bool(), noNew: t.Bool(), old: vgCALeaf(t), new: vgCALeaf(t)}
	for _, o := range vgCALeaves(t) {
		n.olds = append(n.olds, o)
	}
	for _, o := range vgCALeaves(t) {
		n.news = append(n.news, o)
	}
	t.Say("notification %+v, old %+v, new %+v", *n, *n.old, *n.new)
	return n
}
