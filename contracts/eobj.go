package ecore

// ---- the world around one object: stub classes, features, peers -------------
// The embedded nil interfaces stand for everything the code under contract does
// not need; using one is a panic.

const (
	evPeerAdd  = 10 // peer, other end, feature id
	evPeerRem  = 11 // peer, other end, feature id
	evDetached = 12 // resource, object, its container at that time
	evAttached = 13 // resource, object, its container at that time
	evResRem   = 14 // resource, object
	evObjNotif = 15 // type, old value, new value, feature id
	evListAdd  = 16 // list, element
	evListRem  = 17 // list, element
	evListClr  = 18 // list
	evListAll  = 19 // list, elements
)

type vmRef struct {
	EReference
	many, contain, resolve, unsettable bool
	opp                                *vmRef
	id                                 int
	def                                any
}

func (r *vmRef) GetEOpposite() EReference {
	if r.opp == nil {
		return nil
	}
	return r.opp
}
func (r *vmRef) IsContainment() bool    { return r.contain }
func (r *vmRef) IsContainer() bool      { return r.opp != nil && r.opp.contain }
func (r *vmRef) IsResolveProxies() bool { return r.resolve }
func (r *vmRef) IsMany() bool           { return r.many }
func (r *vmRef) IsUnsettable() bool     { return r.unsettable }
func (r *vmRef) GetFeatureID() int      { return r.id }
func (r *vmRef) GetDefaultValue() any   { return r.def }
func (r *vmRef) GetEType() EClassifier  { return nil }
func (r *vmRef) GetName() string        { return "ref" }
func (r *vmRef) EIsProxy() bool         { return false }
func (r *vmRef) isReference() bool      { return r.opp == nil }

type vmAttr struct {
	EAttribute
	many, unsettable, unique bool
	id                       int
	def                      any
}

func (r *vmAttr) IsMany() bool          { return r.many }
func (r *vmAttr) IsUnsettable() bool    { return r.unsettable }
func (r *vmAttr) IsUnique() bool        { return r.unique }
func (r *vmAttr) GetFeatureID() int     { return r.id }
func (r *vmAttr) GetDefaultValue() any  { return r.def }
func (r *vmAttr) GetEType() EClassifier { return nil }
func (r *vmAttr) GetName() string       { return "attr" }

// vmClass has one feature under study, and the reverse one.
type vmAnyClass = EClass

type vmClass struct {
	vmAnyClass
	feature EStructuralFeature
	id      int
	other   *vmRef
	otherID int
}

func (c *vmClass) GetEStructuralFeature(id int) EStructuralFeature {
	if c.feature != nil && id == c.id {
		return c.feature
	}
	if c.other != nil && id == c.otherID {
		return c.other
	}
	return nil
}

func (c *vmClass) GetFeatureID(f EStructuralFeature) int {
	if f == c.feature {
		return c.id
	}
	if r, ok := f.(*vmRef); ok && r == c.other && r != nil {
		return c.otherID
	}
	return -1
}

// vmPeer is another object, whose inverse operations are recorded.
type vmPeer struct {
	EObjectInternal
	class *vmClass
	res   *vmRes
	proxy bool
	uri   *URI
	cont  EObject
}

func (p *vmPeer) EProxyURI() *URI {
	if p.proxy {
		return p.uri
	}
	return nil
}

// vmRS is a resource set that knows one object by its URI.
type vmRS struct {
	EResourceSet
	uri *URI
	to  *vmPeer
}

func (rs *vmRS) GetEObject(uri *URI, load bool) EObject {
	if load && uri == rs.uri && rs.to != nil {
		return rs.to
	}
	return nil
}

func (p *vmPeer) EClass() EClass { return p.class }
func (p *vmPeer) EIsProxy() bool { return p.proxy }
func (p *vmPeer) EResource() EResource {
	if p.res == nil {
		return nil
	}
	return p.res
}
func (p *vmPeer) EInverseAdd(o EObject, id int, ns ENotificationChain) ENotificationChain {
	vEmit(evPeerAdd, p, o, id)
	return ns
}
func (p *vmPeer) EInverseRemove(o EObject, id int, ns ENotificationChain) ENotificationChain {
	vEmit(evPeerRem, p, o, id)
	return ns
}
func (p *vmPeer) EInternalContainer() EObject { return p.cont }

// vmRes is a resource whose calls are recorded.
type vmRes struct {
	EResource
	contents *vmResList
	rs       *vmRS
}

func (r *vmRes) GetResourceSet() EResourceSet {
	if r.rs == nil {
		return nil
	}
	return r.rs
}

func (r *vmRes) Attached(o EObject) { vEmit(evAttached, r, o, vmContainerOf(o)) }
func (r *vmRes) Detached(o EObject) { vEmit(evDetached, r, o, vmContainerOf(o)) }
func (r *vmRes) GetContents() EList { return r.contents }

func vmContainerOf(o EObject) EObject {
	if v, ok := o.(*vmObj); ok {
		return v.container
	}
	return nil
}

type vmResList struct {
	ENotifyingList
	res *vmRes
}

func (l *vmResList) RemoveWithNotification(o any, ns ENotificationChain) ENotificationChain {
	vEmit(evResRem, l.res, o)
	return ns
}

// vmObserver records the notifications an object sends.
type vmObserver struct{ AbstractEAdapter }

func (a *vmObserver) NotifyChanged(n ENotification) {
	vEmit(evObjNotif, n.GetEventType(), n.GetOldValue(), n.GetNewValue(), n.GetFeatureID())
}

// vmObj is the object under study: the library's abstract object with plain state.
type vmObj struct {
	AbstractEObject
	class     *vmClass
	container EObject
	cid       int
	resource  EResource
	required  bool
	value     any
}

func (o *vmObj) EClass() EClass                         { return o.class }
func (o *vmObj) EStaticFeatureCount() int               { return 0 }
func (o *vmObj) EInternalContainer() EObject            { return o.container }
func (o *vmObj) EInternalContainerFeatureID() int       { return o.cid }
func (o *vmObj) EInternalResource() EResource           { return o.resource }
func (o *vmObj) ESetInternalContainer(c EObject, i int) { o.container, o.cid = c, i }
func (o *vmObj) ESetInternalResource(r EResource)       { o.resource = r }
func (o *vmObj) EBasicHasAdapters() bool                { return o.required }
func (o *vmObj) EDeliver() bool                         { return o.required }
func (o *vmObj) EAdapters() EList {
	if o.required {
		return NewImmutableEList([]any{&vmObserver{}})
	}
	return NewImmutableEList([]any{})
}
func (o *vmObj) EFeatureID(f EStructuralFeature) int    { return o.class.GetFeatureID(f) }
func (o *vmObj) EDynamicProperties() EDynamicProperties { return o }
func (o *vmObj) EDynamicGet(i int) any                  { return o.value }
func (o *vmObj) EDynamicSet(i int, v any)               { o.value = v }
func (o *vmObj) EDynamicUnset(i int)                    { o.value = nil }
func (o *vmObj) EDynamicIsSet(i int) bool               { return o.value != nil }
func (o *vmObj) EContents() EList                       { return nil }
func (o *vmObj) ECrossReferences() EList                { return nil }
func (o *vmObj) EIsProxy() bool                         { return false }
func (o *vmObj) EProxyURI() *URI                        { return nil }
func (o *vmObj) ESetProxyURI(uri *URI)                  {}

func isPeerOrNil(x EObject) bool {
	p, ok := x.(*vmPeer)
	return x == nil || ok && p != nil && p.class != nil
}

func isResOrNil(x EResource) bool {
	r, ok := x.(*vmRes)
	return x == nil || ok && r != nil && r.contents != nil && r.contents.res == r
}

func wfClass(c *vmClass) bool {
	if c == nil {
		return false
	}
	if r, ok := c.feature.(*vmRef); ok {
		return r != nil
	}
	a, ok := c.feature.(*vmAttr)
	return ok && a != nil
}

// wfObj: the object's state is consistent with its class.
func wfObj(o *vmObj) bool {
	return o.interfaces == any(o) && wfClass(o.class) && isPeerOrNil(o.container) && isResOrNil(o.resource) && o.cid >= -3
}

func wfPeer(p *vmPeer) bool {
	return wfClass(p.class) && (p.res == nil || p.res.contents != nil && p.res.contents.res == p.res)
}

func isPeerOrNilAny(x any) bool {
	p, ok := x.(*vmPeer)
	return x == nil || ok && p != nil && wfPeer(p)
}

// vmList is the list of a many-valued reference, whose quiet operations are recorded.
type vmList struct {
	ENotifyingList
	n    int
	live *vmLive // a collection that changes with the list
}

// vmLive is a collection that loses its elements, in place, as another list is cleared.
type vmLive struct {
	EList
	data []any
}

func (c *vmLive) ToArray() []any { return c.data }

func (l *vmList) AddWithNotification(x any, ns ENotificationChain) ENotificationChain {
	vEmit(evListAdd, l, x)
	return ns
}
func (l *vmList) Clear() {
	vEmit(evListClr, l)
	if c := l.live; c != nil && len(c.data) > 0 {
		c.data[0] = nil
		c.data = nil
	}
}
func (l *vmList) AddAll(c Collection) bool {
	vEmit(evListAll, l, c.ToArray())
	return true
}
func (l *vmList) RemoveWithNotification(x any, ns ENotificationChain) ENotificationChain {
	vEmit(evListRem, l, x)
	return ns
}

func peerRes(x EObject) *vmRes {
	if p, ok := x.(*vmPeer); ok && p != nil {
		return p.res
	}
	return nil
}

func asRes(x EResource) *vmRes {
	if r, ok := x.(*vmRes); ok {
		return r
	}
	return nil
}

// vmNote: one expected event; evOK checks it is at position i.
func sent(i int, t EventType, old, new any, id int) bool {
	return vEvent(i, evObjNotif, t, old, new, id)
}

// ---- generators ----

func vgen_vmRef(t *vTape) *vmRef {
	r := &vmRef{many: t.Bool(), contain: t.Bool(), resolve: t.Bool(), unsettable: t.Bool(), id: t.Choose(3)}
	if t.Bool() {
		r.opp = &vmRef{opp: r, many: t.Bool(), contain: !r.contain && t.Bool(), id: t.Choose(3)}
	}
	return r
}

func vgen_vmAttr(t *vTape) *vmAttr {
	return &vmAttr{many: t.Bool(), unique: t.Bool(), unsettable: t.Bool(), id: t.Choose(3), def: t.Any()}
}

func vgen_vmRS(t *vTape) *vmRS     { return &vmRS{} }
func vgen_vmList(t *vTape) *vmList { return &vmList{} }
func vgen_vmLive(t *vTape) *vmLive { return &vmLive{data: t.Anys(3)} }

func vgen_vmClass(t *vTape) *vmClass {
	c := &vmClass{id: t.Choose(2), otherID: 2}
	f := vgen_vmRef(t)
	c.feature = f
	if f.opp != nil && t.Bool() {
		c.other = f.opp
	} else if t.Bool() {
		c.other = vgen_vmRef(t)
	}
	return c
}

func vgen_vmRes(t *vTape) *vmRes {
	for _, o := range t.objs {
		if r, ok := o.(*vmRes); ok && t.Bool() {
			return r
		}
	}
	r := &vmRes{contents: &vmResList{}}
	if t.Bool() {
		r.rs = &vmRS{}
	}
	r.contents.res = r
	t.Keep(r)
	return r
}

func vgen_vmPeer(t *vTape) *vmPeer {
	p := &vmPeer{proxy: t.Choose(3) == 1}
	for _, o := range t.objs {
		if v, ok := o.(*vmPeer); ok && p.class == nil && t.Bool() {
			return v
		}
	}
	for _, o := range t.objs {
		if c, ok := o.(*vmClass); ok && p.class == nil && t.Choose(3) > 0 {
			p.class = c
		}
	}
	if p.class == nil {
		p.class = vgen_vmClass(t)
		t.Keep(p.class)
	}
	if t.Bool() {
		p.res = vgen_vmRes(t)
	}
	if p.proxy {
		p.uri = NewURI("vm:/p#//")
	}
	t.Keep(p)
	return p
}

func vgen_vmObj(t *vTape) *vmObj {
	o := &vmObj{cid: -1, required: t.Bool()}
	o.interfaces = o
	o.class = vgen_vmClass(t)
	t.Keep(o.class)
	if t.Bool() {
		o.container = vgen_vmPeer(t)
		o.cid = []int{-1, -2, -3, 0, 1, 2}[t.Choose(6)]
	}
	if t.Bool() {
		o.resource = vgen_vmRes(t)
	}
	switch t.Choose(3) {
	case 1:
		o.value = vgen_vmPeer(t)
	case 2:
		o.value = t.Any()
	}
	return o
}

func study(o *vmObj, f EStructuralFeature) {
	vRequires(o.class != nil)
	o.class.feature = f
}

// ---- the list of a many-valued reference ----

func isPeer(x any) bool {
	p, ok := x.(*vmPeer)
	return ok && p != nil
}

func wfEOL(l *basicEObjectList, o *vmObj) bool {
	return l.interfaces == any(l) && l.owner == EObjectInternal(o) && wfObj(o) && l.featureID >= 0 && l.inverseFeatureID >= 0 && (l.inverse || !l.opposite) &&
		vForall(0, len(l.data), func(i int) bool { return isPeer(l.data[i]) }) && (!l.isUnique || distinctArr(l.data)) && vTraceLen() == 0
}

func vgen_basicEObjectList(t *vTape) *basicEObjectList {
	l := NewBasicEObjectList(nil, t.Choose(2), t.Choose(2), t.Bool(), false, false, t.Bool(), t.Bool())
	if l.inverse = t.Bool(); l.inverse {
		l.opposite = t.Bool()
	}
	for _, o := range t.objs {
		if v, ok := o.(*vmObj); ok {
			l.owner = v
		}
	}
	for k := t.Choose(4); k > 0; k-- {
		if p := vgen_vmPeer(t); !t.Bool() || !l.isUnique || !hasElem(l.data, p) {
			l.data = append(l.data, p)
		}
	}
	return l
}

func (l *basicEObjectList) vShow() string {
	return "object list (containment=" + vStr(l.containment) + " inverse=" + vStr(l.inverse) + " opposite=" + vStr(l.opposite) + " proxies=" + vStr(l.proxies) + ") of " + vStr(len(l.data))
}

func hasElem(s []any, x any) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}
