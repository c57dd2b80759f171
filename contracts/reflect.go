package ecore

// ---- C05: reflective access to the features of a dynamic object --------------

// wfSingle: f is the single-valued feature under study, with id f.id.
func wfSingle(o *vmObj, f *vmRef) bool {
	return wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && !f.many && o.resource == nil && peerRes(o.container) == nil &&
		isPeerOrNilAny(o.value) && (o.container == nil || o.cid < 0 || o.cid == f.id)
}

// inverseID: the feature o's value is told about through f.
func inverseID(q *vmPeer, f *vmRef) int {
	if f.opp == nil {
		return -1 - f.id
	}
	return q.class.GetFeatureID(f.opp)
}

// @property C05
func spec_EObject_SetContainerRef(o *vmObj, p *vmPeer, has bool, f *vmRef) {
	study(o, f)
	vRequires(wfSingle(o, f) && wfPeer(p) && p.res == nil && f.opp != nil && f.opp.contain)
	id := f.id
	oc, ocid, val := o.container, o.cid, o.value
	var c EObject
	if has {
		c = p
	}
	if has {
		o.ESetFromID(id, p)
	} else {
		o.ESetFromID(id, nil)
	}
	k := 0
	if c == oc && (!has || ocid == id) {
		vEnsures("unchanged", o.container == oc && o.cid == ocid && o.value == val)
		vEnsures("touched", o.required && vTraceLen() == 1 && sent(0, SET, c, c, id) || !o.required && vTraceLen() == 0)
		return
	}
	if oc != nil {
		inv := f.opp.id
		if ocid < 0 {
			inv = -1 - ocid
		}
		vEnsures("it leaves its old container", vEvent(0, evPeerRem, oc, o, inv))
		k = 1
	}
	if has {
		vEnsures("the new container gains it", vEvent(k, evPeerAdd, p, o, p.class.GetFeatureID(f.opp)))
		k++
	}
	vEnsures("it is in the new container", o.container == c && o.cid == id && o.value == val)
	prev := EObject(nil)
	if ocid == id {
		prev = oc
	}
	vEnsures("notified once", o.required && vTraceLen() == k+1 && sent(k, SET, prev, c, id) || !o.required && vTraceLen() == k)
}

// @property C05
func spec_EObject_SetRef(o *vmObj, p *vmPeer, has bool, f *vmRef) {
	study(o, f)
	vRequires(wfSingle(o, f) && wfPeer(p) && (f.opp == nil || !f.opp.contain))
	id, old, oc, ocid := f.id, o.value, o.container, o.cid
	var v any
	if has {
		v = p
	}
	o.ESetFromID(id, v)
	vEnsures("the value is set", o.value == v && o.container == oc && o.cid == ocid)
	k := 0
	if f.opp != nil || f.contain {
		if v == old {
			vEnsures("nothing happens", vTraceLen() == 0)
			return
		}
		if q, ok := old.(*vmPeer); ok {
			vEnsures("the old target is told", vEvent(k, evPeerRem, q, o, inverseID(q, f)))
			k++
		}
		if has {
			vEnsures("the new target is told", vEvent(k, evPeerAdd, p, o, inverseID(p, f)))
			k++
		}
	}
	vEnsures("notified once", o.required && vTraceLen() == k+1 && sent(k, SET, old, v, id) || !o.required && vTraceLen() == k)
}

// @property C05
func spec_EObject_SetAttr(o *vmObj, v any, f *vmAttr) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && !f.many)
	old, oc, ocid := o.value, o.container, o.cid
	o.ESetFromID(f.id, v)
	vEnsures("the value is set", o.value == v && o.container == oc && o.cid == ocid)
	vEnsures("notified once", o.required && vTraceLen() == 1 && sent(0, SET, old, v, f.id) || !o.required && vTraceLen() == 0)
	r := o.EGetFromID(f.id, true)
	if v != nil {
		vEnsures("reads back", r == v)
	} else {
		vEnsures("reads the default", r == f.def)
	}
	b := o.EIsSetFromID(f.id)
	vEnsures("is set", b == (v != nil))
}

// @property C05
func spec_EObject_UnsetAttr(o *vmObj, f *vmAttr) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && !f.many)
	old := o.value
	o.EUnsetFromID(f.id)
	vEnsures("notified once", o.required && vTraceLen() == 1 && sent(0, UNSET, old, nil, f.id) || !o.required && vTraceLen() == 0)
	vEnsures("reads the default", o.EGetFromID(f.id, true) == f.def)
	b := o.EIsSetFromID(f.id)
	vEnsures("is not set", !b)
}

// @property C05
func spec_EObject_UnsetRef(o *vmObj, f *vmRef) {
	study(o, f)
	vRequires(wfSingle(o, f) && (f.opp == nil || !f.opp.contain))
	id, old, oc, ocid := f.id, o.value, o.container, o.cid
	o.EUnsetFromID(id)
	vEnsures("no value", o.value == nil && o.container == oc && o.cid == ocid)
	k := 0
	t := UNSET
	if f.opp != nil || f.contain {
		if old == nil {
			vEnsures("nothing happens", vTraceLen() == 0)
			return
		}
		if !f.unsettable {
			t = SET
		}
		if q, ok := old.(*vmPeer); ok {
			vEnsures("the old target is told", vEvent(k, evPeerRem, q, o, inverseID(q, f)))
			k++
		}
	}
	vEnsures("notified once", o.required && vTraceLen() == k+1 && sent(k, t, old, nil, id) || !o.required && vTraceLen() == k)
	b := o.EIsSetFromID(id)
	vEnsures("is not set", !b)
}

// @property C05
func spec_EObject_UnsetContainerRef(o *vmObj, f *vmRef) {
	study(o, f)
	vRequires(wfSingle(o, f) && f.opp != nil && f.opp.contain && (o.container == nil || o.cid == f.id))
	id, oc := f.id, o.container
	o.EUnsetFromID(id)
	vEnsures("no container", o.container == nil)
	b := o.EIsSetFromID(id)
	vEnsures("is not set", !b)
	k := 0
	if oc != nil {
		vEnsures("the container loses it", vEvent(0, evPeerRem, oc, o, f.opp.id))
		k = 1
	}
	vEnsures("notified once", o.required && vTraceLen() == k+1 && sent(k, SET, oc, nil, id) || !o.required && vTraceLen() == k)
}

// @property C05
func spec_EObject_GetContainerRef(o *vmObj, f *vmRef, resolve bool) {
	study(o, f)
	vRequires(wfSingle(o, f) && f.opp != nil && f.opp.contain)
	if p, ok := o.container.(*vmPeer); ok {
		vRequires(!p.proxy)
	}
	r := o.EGetFromID(f.id, resolve)
	b := o.EIsSetFromID(f.id)
	if o.container != nil && o.cid == f.id {
		vEnsures("the container", r == any(o.container) && b)
	} else {
		vEnsures("nothing", (r == nil || o.container == nil && o.cid == f.id) && !b)
	}
	vEnsures("no effect", vTraceLen() == 0)
}

// @property C05
func spec_EObject_GetRef(o *vmObj, f *vmRef, resolve bool) {
	study(o, f)
	vRequires(wfSingle(o, f) && (f.opp == nil || !f.opp.contain))
	if p, ok := o.value.(*vmPeer); ok {
		vRequires(!(p.proxy && resolve && f.resolve))
	}
	val := o.value
	r := o.EGetFromID(f.id, resolve)
	b := o.EIsSetFromID(f.id)
	if val != nil {
		vEnsures("the value", r == val && b)
	} else {
		vEnsures("the default", r == f.def && !b)
	}
	vEnsures("no effect", vTraceLen() == 0 && o.value == val)
}

// Reading a proxy through a resolving reference replaces it by what it stands for.
//
// @property C05
func spec_EObject_GetProxy(o *vmObj, p, q *vmPeer, known bool, rs *vmRS, f *vmRef, res *vmRes) {
	study(o, f)
	vRequires(wfObj(o) && wfPeer(p) && wfPeer(q) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && !f.many && f.resolve && (f.opp == nil || !f.opp.contain) &&
		p != q && p.uri != nil && !q.proxy && res.contents != nil && res.contents.res == res)
	p.proxy = true
	o.value, o.resource, res.rs = p, res, rs
	rs.to, rs.uri = nil, p.uri
	if known {
		rs.to = q
	}
	r := o.EGetFromID(f.id, true)
	if !known {
		vEnsures("still the proxy", r == any(p) && o.value == any(p) && vTraceLen() == 0)
		return
	}
	vEnsures("resolved", r == any(q) && o.value == any(q))
	k := 0
	if f.contain {
		vEnsures("containment follows", vEvent(0, evPeerRem, p, o, inverseID(p, f)) && vEvent(1, evPeerAdd, q, o, inverseID(q, f)))
		k = 2
	}
	vEnsures("notified once", o.required && vTraceLen() == k+1 && sent(k, RESOLVE, p, q, f.id) || !o.required && vTraceLen() == k)
}

// A many-valued feature reads as one list that stays the same.
//
// @property C05
func spec_EObject_GetMany(o *vmObj, f *vmRef) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many && (f.opp == nil || !f.opp.contain))
	o.value = nil
	r := o.EGetFromID(f.id, true)
	n, ok := r.(*basicEObjectList)
	vEnsures("an empty list", ok && len(n.data) == 0 && n.isUnique && n.owner == EObjectInternal(o) && n.featureID == f.id)
	// known finding: the list of a resolving reference does not resolve its proxies
	vEnsures("with the reference's characteristics", n.containment == f.contain && n.inverse == (f.contain || f.opp != nil) && n.opposite == (f.opp != nil) && (!n.proxies || f.resolve) && n.unset == f.unsettable)
	if f.opp != nil {
		vEnsures("and its opposite", n.inverseFeatureID == f.opp.id)
	}
	r = o.EGetFromID(f.id, true)
	vEnsures("the same next time", r == any(n))
}

// @property C05
func spec_EObject_GetManyAttr(o *vmObj, f *vmAttr) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many)
	o.value = nil
	r := o.EGetFromID(f.id, true)
	n, ok := r.(*basicEDataTypeList)
	vEnsures("an empty list", ok && len(n.data) == 0 && n.isUnique == f.unique && n.owner == EObjectInternal(o) && n.featureID == f.id)
	r = o.EGetFromID(f.id, false)
	vEnsures("the same next time", r == any(n))
}

// Setting a many-valued feature replaces the content of its list.
//
// @property C05
func spec_EObject_SetMany(o *vmObj, f *vmRef, l *vmList, c *vmLive) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many && (f.opp == nil || !f.opp.contain))
	o.value = l
	l.live = c
	old := vSnap(c.data)
	o.ESetFromID(f.id, c)
	vEnsures("the list stays", o.value == any(l))
	vEnsures("cleared, then filled", vTraceLen() == 2 && vEvent(0, evListClr, l) && vEvKind(1) == evListAll && vEvArg(1, 0) == any(l))
	d, ok := vEvArg(1, 1).([]any)
	vEnsures("with the new elements", ok && sameSeq(d, old))
}

// Unsetting a many-valued feature empties its list, which tells the elements.
//
// @property C05
func spec_EObject_UnsetMany(o *vmObj, f *vmRef, l *vmList) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many && (f.opp == nil || !f.opp.contain))
	o.value = l
	o.EUnsetFromID(f.id)
	vEnsures("cleared", vTraceLen() == 1 && vEvent(0, evListClr, l))
	vEnsures("the list stays", o.value == any(l))
}

// @property C05
func spec_EObject_UnsetManyAttr(o *vmObj, f *vmAttr, l *vmList) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many)
	o.value = l
	o.EUnsetFromID(f.id)
	vEnsures("cleared", vTraceLen() == 1 && vEvent(0, evListClr, l))
	vEnsures("the list stays", o.value == any(l))
}

// A many-valued feature is set if its list is not empty, whether or not it was read before;
// another one if it has a value.
//
// @property C05
func spec_Dynamic_IsSet(o *DynamicEObjectImpl, c *vmClass, f *vmAttr, l *immutableEList, v any) {
	c.feature = f
	o.interfaces, o.class = o, c
	vRequires(f.id == c.id && f.id >= 0 && f.id < len(o.properties))
	if f.many {
		o.properties[f.id] = l
		vEnsures("its list is not empty", o.EDynamicIsSet(f.id) == (len(l.data) > 0))
		o.properties[f.id] = nil
		vEnsures("it has no list", !o.EDynamicIsSet(f.id))
	} else {
		o.properties[f.id] = v
		vEnsures("it has a value", o.EDynamicIsSet(f.id) == (v != nil))
	}
}

// @property C05
func spec_EObject_SetManyItself(o *vmObj, f *vmRef, l *vmList) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && f.many && (f.opp == nil || !f.opp.contain))
	o.value = l
	o.ESetFromID(f.id, l)
	vEnsures("unchanged", o.value == any(l) && vTraceLen() == 0)
}

// An id that names no feature panics.
//
// @property C05
func spec_EObject_NoFeature(o *vmObj, id int, v any) {
	vRequires(wfObj(o) && o.class.GetEStructuralFeature(id) == nil)
	val := o.value
	p1 := vCall(func() { o.ESetFromID(id, v) })
	p2 := vCall(func() { o.EGetFromID(id, true) })
	p3 := vCall(func() { o.EUnsetFromID(id) })
	p4 := vCall(func() { o.EIsSetFromID(id) })
	vEnsures("panics and changes nothing", p1 && p2 && p3 && p4 && o.value == val && vTraceLen() == 0)
}

// Access by feature is access by the feature's id.
//
// @property C05
func spec_EObject_ByFeature(o *vmObj, v any, f *vmAttr) {
	study(o, f)
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == o.class.id && f.id >= 0 && !f.many)
	o.ESet(f, v)
	vEnsures("set", o.value == v)
	if v != nil {
		vEnsures("get and isset", o.EGet(f) == v && o.EGetResolve(f, false) == v && o.EIsSet(f))
	}
	o.EUnset(f)
	vEnsures("unset", o.value == nil)
	b := o.EIsSet(f)
	vEnsures("not set", !b)
}
