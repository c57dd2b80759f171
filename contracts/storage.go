package ecore

// ---- what an object itself keeps ----

type vmO struct{ EObject }
type vmR struct{ EResource }
type vmC struct{ vmAnyClass }

func (c *vmC) GetEContainmentFeatures() EList    { return nil }
func (c *vmC) GetECrossReferenceFeatures() EList { return nil }
func (c *vmC) GetEAllContainments() EList        { return nil }
func (c *vmC) GetEAllCrossReferences() EList     { return nil }

// vmKept is what an object is expected to keep (nil: nothing).
type vmKept struct {
	cont, res, adp, prx, cls, cts, crs, props bool
	container                                 *vmO
	resource                                  *vmR
	adapters                                  *notifierAdapterList
	proxy                                     *URI
	class                                     *vmC
	contents, cross                           *eContentsList
	prop                                      *vmO
	id                                        int
	deliver                                   bool
}

// compact lays an object out that keeps k.
func compact(o *CompactEObjectImpl, k *vmKept, withContainer bool) {
	vRequires(k != nil && k.container != nil && k.resource != nil && k.adapters != nil && k.proxy != nil && k.class != nil && k.contents != nil && k.cross != nil && k.prop != nil)
	vRequires(withContainer || !k.cont)
	f := k.id << 16
	if k.deliver {
		f |= deliver_flag
	}
	s := make([]any, 0, 8)
	if k.cont {
		f |= container_flag
		s = append(s, k.container)
	}
	if k.res {
		f |= resource_flag
		s = append(s, k.resource)
	}
	if k.adp {
		f |= adapters_flag
		s = append(s, k.adapters)
	}
	if k.prx {
		f |= proxy_flag
		s = append(s, k.proxy)
	}
	if k.cls {
		f |= class_flag
		s = append(s, k.class)
	}
	if k.cts {
		f |= contents_flag
		s = append(s, k.contents)
	}
	if k.crs {
		f |= cross_flag
		s = append(s, k.cross)
	}
	if k.props {
		f |= properties_flag
		s = append(s, k.prop)
	}
	o.flags = f
	switch len(s) {
	case 0:
		o.storage = nil
	case 1:
		o.storage = s[0]
	default:
		o.storage = s[:len(s):len(s)]
	}
}

func keptAs(x any, has bool, y any) bool {
	if has {
		return x == y
	}
	return x == nil
}

// keeps: everything o answers is what k says.
func keeps(o *CompactEObjectImpl, k *vmKept, withContainer bool) {
	if withContainer {
		vEnsures("container", keptAs(o.EInternalContainer(), k.cont, k.container))
	}
	vEnsures("container feature", o.EInternalContainerFeatureID() == k.id)
	vEnsures("resource", keptAs(o.EInternalResource(), k.res, k.resource))
	vEnsures("adapters", o.EBasicHasAdapters() == k.adp && keptAs(o.EBasicAdapters(), k.adp, k.adapters))
	vEnsures("proxy", o.EIsProxy() == k.prx && (!k.prx || o.EProxyURI() == k.proxy) && (k.prx || o.EProxyURI() == nil))
	vEnsures("class", !k.cls || o.EClass() == EClass(k.class))
	vEnsures("no class", o.hasField(class_flag) == k.cls)
	vEnsures("contents", !k.cts || o.EContents() == EList(k.contents))
	vEnsures("cross references", !k.crs || o.ECrossReferences() == EList(k.cross))
	vEnsures("no contents", o.hasField(contents_flag) == k.cts && o.hasField(cross_flag) == k.crs)
	vEnsures("properties", o.hasField(properties_flag) == k.props && keptAs(o.getField(properties_flag), k.props, k.prop))
	vEnsures("deliver", o.EDeliver() == k.deliver)
}

// Setting one thing changes that thing alone.
//
// @property C07
func spec_Compact_Container(o *CompactEObjectImpl, k *vmKept, c *vmO, none bool, id int) {
	compact(o, k, true)
	if none {
		o.ESetInternalContainer(nil, id)
		k.cont = false
	} else {
		o.ESetInternalContainer(c, id)
		k.cont, k.container = true, c
	}
	k.id = id
	keeps(o, k, true)
}

// @property C07
func spec_Compact_Resource(o *CompactEObjectImpl, k *vmKept, r *vmR, out bool) {
	compact(o, k, true)
	if out {
		o.ESetInternalResource(nil)
		k.res = false
	} else {
		o.ESetInternalResource(r)
		k.res, k.resource = true, r
	}
	keeps(o, k, true)
}

// @property C07
func spec_Compact_Proxy(o *CompactEObjectImpl, k *vmKept, u *URI, none bool) {
	compact(o, k, true)
	if none {
		u = nil
	}
	o.ESetProxyURI(u)
	if k.prx = u != nil; u != nil {
		k.proxy = u
	}
	keeps(o, k, true)
}

// @property C07
func spec_Compact_Class(o *CompactEObjectImpl, k *vmKept, c *vmC, none, f bool) {
	compact(o, k, true)
	if none {
		o.SetEClass(nil)
		k.cls = false
	} else {
		o.SetEClass(c)
		k.cls, k.class = true, c
	}
	o.ESetDeliver(f)
	k.deliver = f
	keeps(o, k, true)
}

// What is created when it is first asked for stays.
//
// @property C07
func spec_Compact_Lazy(o *CompactEObjectImpl, k *vmKept) {
	compact(o, k, true)
	vRequires(k.cls)
	o.interfaces = &vmSelf{c: k.class}
	a := o.EAdapters()
	vEnsures("adapters asked for", a != nil && (!k.adp || a == EList(k.adapters)))
	k.adp, k.adapters = true, a.(*notifierAdapterList)
	keeps(o, k, true)
	c := o.EContents()
	vEnsures("contents asked for", c != nil && (!k.cts || c == EList(k.contents)))
	k.cts, k.contents = true, c.(*eContentsList)
	keeps(o, k, true)
	x := o.ECrossReferences()
	vEnsures("cross references asked for", x != nil && (!k.crs || x == EList(k.cross)))
	k.crs, k.cross = true, x.(*eContentsList)
	keeps(o, k, true)
}

type vmSelf struct {
	EObject
	c *vmC
}

func (s *vmSelf) EClass() EClass { return s.c }

// An object with its container beside the other fields.
//
// @property C07
func spec_Compact_OwnContainer(o *CompactEObjectContainer, k *vmKept, c *vmO, none bool, id int, r *vmR, out bool) {
	compact(&o.CompactEObjectImpl, k, false)
	if none {
		o.ESetInternalContainer(nil, id)
		vEnsures("no container", o.EInternalContainer() == nil)
	} else {
		o.ESetInternalContainer(c, id)
		vEnsures("container", o.EInternalContainer() == EObject(c))
	}
	k.id = id
	keeps(&o.CompactEObjectImpl, k, false)
	if out {
		o.ESetInternalResource(nil)
		k.res = false
	} else {
		o.ESetInternalResource(r)
		k.res, k.resource = true, r
	}
	vEnsures("still", none && o.EInternalContainer() == nil || !none && o.EInternalContainer() == EObject(c))
	keeps(&o.CompactEObjectImpl, k, false)
}

// A new object delivers, is in nothing and is no proxy.
//
// @property C07
func spec_Compact_New(o *CompactEObjectContainer, b *BasicEObjectImpl) {
	vRequires(o.storage == nil && o.flags == 0 && o.container == nil && b.adapters == nil && b.resource == nil && b.container == nil && b.properties == nil && !b.proxy)
	o.Initialize()
	vEnsures("nothing", o.EInternalContainer() == nil && o.EInternalContainerFeatureID() == -1 && o.EInternalResource() == nil && !o.EIsProxy() && o.EDeliver() && !o.EBasicHasAdapters())
	b.Initialize()
	vEnsures("nothing here either", b.EInternalContainer() == nil && b.EInternalContainerFeatureID() == -1 && b.EInternalResource() == nil && !b.EIsProxy() && b.EDeliver() && !b.EBasicHasAdapters())
}

// basic has an object keep k.
func basic(o *BasicEObjectImpl, k *vmKept) {
	vRequires(k != nil && k.container != nil && k.resource != nil && k.adapters != nil && k.proxy != nil && k.contents != nil && k.cross != nil)
	o.container, o.resource, o.adapters = nil, nil, nil
	if k.cont {
		o.container = k.container
	}
	if k.res {
		o.resource = k.resource
	}
	if k.adp {
		o.adapters = k.adapters
	}
	o.containerFeatureID, o.deliver, o.proxy = k.id, k.deliver, k.prx
	vRequires(o.properties != nil || !k.prx && !k.cts && !k.crs)
	if o.properties != nil {
		if k.prx {
			o.properties.proxyURI = k.proxy
		}
		o.properties.contents, o.properties.crossReferences = nil, nil
		if k.cts {
			o.properties.contents = k.contents
		}
		if k.crs {
			o.properties.crossReferences = k.cross
		}
	}
}

func basicKeeps(o *BasicEObjectImpl, k *vmKept) {
	vEnsures("container", keptAs(o.EInternalContainer(), k.cont, k.container))
	vEnsures("container feature", o.EInternalContainerFeatureID() == k.id)
	vEnsures("resource", keptAs(o.EInternalResource(), k.res, k.resource))
	vEnsures("adapters", o.EBasicHasAdapters() == k.adp && keptAs(o.EBasicAdapters(), k.adp, k.adapters))
	vEnsures("proxy", o.EIsProxy() == k.prx && (!k.prx || o.EProxyURI() == k.proxy) && (k.prx || o.EProxyURI() == nil))
	vEnsures("contents", !k.cts || o.EContents() == EList(k.contents))
	vEnsures("cross references", !k.crs || o.ECrossReferences() == EList(k.cross))
	vEnsures("deliver", o.EDeliver() == k.deliver)
}

// The same for the other layout.
//
// @property C07
func spec_Basic_Set(o *BasicEObjectImpl, k *vmKept, what int, none bool, c *vmO, id int, r *vmR, u *URI, s *vmSelf) {
	basic(o, k)
	vRequires(s.c != nil)
	o.interfaces = s
	switch what {
	case 0:
		k.cont, k.container, k.id = !none, c, id
		if none {
			o.ESetInternalContainer(nil, id)
		} else {
			o.ESetInternalContainer(c, id)
		}
	case 1:
		k.res, k.resource = !none, r
		if none {
			o.ESetInternalResource(nil)
		} else {
			o.ESetInternalResource(r)
		}
	case 2:
		k.prx, k.proxy = !none, u
		if none {
			u = nil
		}
		o.ESetProxyURI(u)
	default:
		k.deliver = none
		o.ESetDeliver(none)
	}
	basicKeeps(o, k)
}

// @property C07
func spec_Basic_Lazy(o *BasicEObjectImpl, k *vmKept, s *vmSelf) {
	basic(o, k)
	vRequires(s.c != nil)
	o.interfaces = s
	a := o.EAdapters()
	vEnsures("adapters asked for", a != nil && (!k.adp || a == EList(k.adapters)))
	k.adp, k.adapters = true, a.(*notifierAdapterList)
	basicKeeps(o, k)
	c := o.EContents()
	vEnsures("contents asked for", c != nil && (!k.cts || c == EList(k.contents)))
	k.cts, k.contents = true, c.(*eContentsList)
	basicKeeps(o, k)
	x := o.ECrossReferences()
	vEnsures("cross references asked for", x != nil && (!k.crs || x == EList(k.cross)))
	k.crs, k.cross = true, x.(*eContentsList)
	basicKeeps(o, k)
}

// The feature values of a dynamic object do not depend on each other.
//
// @property C07
func spec_Dynamic_Slots(o *DynamicEObjectImpl, i int, v any) {
	n := len(o.properties)
	vRequires(i >= 0 && i < n)
	old := vSnap(o.properties)
	o.EDynamicSet(i, v)
	vEnsures("set", o.EDynamicGet(i) == v)
	if _, isList := v.(EList); !isList { // (the list of a many-valued feature: spec_Dynamic_IsSet)
		vEnsures("is set", o.EDynamicIsSet(i) == (v != nil))
	}
	vEnsures("others", vForall(0, n, func(j int) bool { return j == i || o.EDynamicGet(j) == old.At(j) }))
	o.EDynamicUnset(i)
	vEnsures("unset", o.EDynamicGet(i) == nil && !o.EDynamicIsSet(i))
	vEnsures("others still", vForall(0, n, func(j int) bool { return j == i || o.EDynamicGet(j) == old.At(j) }))
}

// ---- generators for native execution ----

func vgen_vmO(t *vTape) *vmO { return &vmO{} }
func vgen_vmR(t *vTape) *vmR { return &vmR{} }
func vgen_vmC(t *vTape) *vmC { return &vmC{} }
func vgen_vmSelf(t *vTape) *vmSelf {
	return &vmSelf{c: &vmC{}}
}
func vgen_vmKept(t *vTape) *vmKept {
	k := &vmKept{cont: t.Bool(), res: t.Bool(), adp: t.Bool(), prx: t.Bool(), cls: t.Bool(), cts: t.Bool(), crs: t.Bool(), props: t.Bool(),
		container: &vmO{}, resource: &vmR{}, adapters: newNotifierAdapterList(nil), proxy: NewURI("p"), class: &vmC{}, contents: &eContentsList{}, cross: &eContentsList{}, prop: &vmO{},
		id: t.Int(), deliver: t.Bool()}
	t.Say("an object with container %v, resource %v, adapters %v, proxy URI %v, class %v, contents %v, cross references %v, properties %v, container feature %d, delivering %v",
		k.cont, k.res, k.adp, k.prx, k.cls, k.cts, k.crs, k.props, k.id, k.deliver)
	return k
}
func vgen_CompactEObjectImpl(t *vTape) *CompactEObjectImpl { return &CompactEObjectImpl{} }
func vgen_CompactEObjectContainer(t *vTape) *CompactEObjectContainer {
	return &CompactEObjectContainer{}
}
func vgen_BasicEObjectImpl(t *vTape) *BasicEObjectImpl {
	o := &BasicEObjectImpl{}
	if t.Bool() {
		o.properties = &basicEObjectImplProperties{}
	}
	return o
}
func vgen_DynamicEObjectImpl(t *vTape) *DynamicEObjectImpl {
	o := &DynamicEObjectImpl{}
	o.properties = t.Anys(4)
	t.Say("values %v", o.properties)
	return o
}
