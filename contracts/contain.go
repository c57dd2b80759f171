package ecore

// ---- C04: containment and opposite references stay consistent ---------------

// Setting the container is what moves an object between resources: it is detached
// from the old one while still in its old container, attached to the new one once
// in its new container.
//
// @property C04
func spec_EObject_SetContainer(o *vmObj, p *vmPeer, has bool, id int) {
	vRequires(wfObj(o) && wfPeer(p) && vTraceLen() == 0 && id >= -3)
	var c EObject
	f := (*vmRef)(nil)
	if has {
		c = p
		if id < 0 {
			f, _ = p.class.GetEStructuralFeature(-1 - id).(*vmRef)
		} else {
			f, _ = o.class.GetEStructuralFeature(id).(*vmRef)
		}
		vRequires(f != nil)
	}
	oc, ocid, ores := o.container, o.cid, asRes(o.resource)
	ns := o.EBasicSetContainer(c, id, nil)
	vEnsures("the container is set", o.container == c && o.cid == id)
	k := 0
	from, to := ores, (*vmRes)(nil)
	if ores != nil {
		if has && !f.resolve {
			vEnsures("taken out of the resource's roots", vEvent(0, evResRem, ores, o) && o.resource == nil)
			k = 1
			to = p.res
		} else {
			vEnsures("stays a root of its resource", o.resource == EResource(ores))
			from = nil
		}
	} else {
		vEnsures("still not a root", o.resource == nil)
		from = peerRes(oc)
		if has {
			to = p.res
		}
	}
	if from != nil && from != to {
		vEnsures("detached before the move", vEvent(k, evDetached, from, o, oc))
		k++
	}
	if to != nil && from != to {
		vEnsures("attached after the move", vEvent(k, evAttached, to, o, c))
		k++
	}
	vEnsures("nothing else", vTraceLen() == k)
	if ns != nil {
		ns.Dispatch()
	}
	if o.required && oc != nil && ocid >= 0 && ocid != id {
		vEnsures("the old reference is notified", sent(k, SET, oc, nil, ocid))
		k++
	}
	if o.required && id >= 0 {
		prev := EObject(nil)
		if ocid == id {
			prev = oc
		}
		vEnsures("the new reference is notified", sent(k, SET, prev, c, id))
		k++
	}
	vEnsures("exactly the due notifications", vTraceLen() == k)
}

// removedFrom: what leaving the current container does.
func leaves(i int, o *vmObj, oc EObject, ocid int) bool {
	if oc == nil {
		return vTraceLen() == i
	}
	if ocid < 0 {
		return vTraceLen() == i+1 && vEvent(i, evPeerRem, oc, o, -1-ocid)
	}
	f, ok := o.class.GetEStructuralFeature(ocid).(*vmRef)
	if !ok || f == nil || f.opp == nil {
		return vTraceLen() == i
	}
	return vTraceLen() == i+1 && vEvent(i, evPeerRem, oc, o, f.opp.id)
}

// @property C04
func spec_EObject_RemoveFromContainer(o *vmObj) {
	vRequires(wfObj(o) && vTraceLen() == 0)
	oc, ocid := o.container, o.cid
	o.EBasicRemoveFromContainer(nil)
	vEnsures("the container is told", leaves(0, o, oc, ocid))
	vEnsures("nothing changes yet", o.container == oc && o.cid == ocid)
}

// becoming contained through a reference without opposite
//
// @property C04
func spec_EObject_InverseAddContainment(o *vmObj, p *vmPeer, id int) {
	vRequires(wfObj(o) && wfPeer(p) && vTraceLen() == 0 && id >= -3 && id < 0 && o.resource == nil && peerRes(o.container) == nil && p.res == nil)
	oc, ocid := o.container, o.cid
	ns := o.EInverseAdd(p, id, nil)
	vEnsures("it leaves its old container", leaves(0, o, oc, ocid))
	vEnsures("it is in the new one", o.container == EObject(p) && o.cid == id)
	note := o.required && oc != nil && ocid >= 0
	vEnsures("notified iff a container reference changed", (ns != nil) == note)
}

// @property C04
func spec_EObject_InverseRemoveContainment(o *vmObj, p *vmPeer, id int) {
	vRequires(wfObj(o) && vTraceLen() == 0 && id >= -3 && id < 0 && o.resource == nil && peerRes(o.container) == nil)
	o.EInverseRemove(p, id, nil)
	vEnsures("it has no container", o.container == nil && vTraceLen() == 0)
}

// the other end of a bidirectional reference asks o to refer back to p
//
// @property C04
func spec_EObject_InverseAdd(o *vmObj, p *vmPeer, f *vmRef) {
	study(o, f)
	id := o.class.id
	vRequires(wfObj(o) && wfPeer(p) && vTraceLen() == 0 && f.id == id && id >= 0 && !f.many && f.opp != nil && isPeerOrNilAny(o.value) &&
		o.resource == nil && peerRes(o.container) == nil && p.res == nil && (o.container == nil || o.cid < 0 || o.cid == id))
	oc, ocid, old := o.container, o.cid, o.value
	ns := o.EInverseAdd(p, id, nil)
	k := 0
	if f.opp.contain {
		vEnsures("it leaves its old container", leaves(0, o, oc, ocid))
		vEnsures("it is in the new one", o.container == EObject(p) && o.cid == id && o.value == old)
		k = vTraceLen()
	} else {
		if q, ok := old.(*vmPeer); ok {
			inv := q.class.GetFeatureID(f.opp)
			if f.contain {
				inv = -1 - id
			}
			vEnsures("the old target no longer refers back", vEvent(0, evPeerRem, q, o, inv))
			k = 1
		}
		vEnsures("it refers back", o.value == any(p) && o.container == oc && vTraceLen() == k)
	}
	if ns != nil {
		ns.Dispatch()
	}
	if !o.required {
		vEnsures("not notified", vTraceLen() == k)
		return
	}
	if f.opp.contain {
		if oc != nil && ocid < 0 {
			oc = nil
		}
		vEnsures("notified once", vTraceLen() == k+1 && sent(k, SET, oc, p, id))
	} else {
		vEnsures("notified once", vTraceLen() == k+1 && sent(k, SET, old, p, id))
	}
}

// @property C04
func spec_EObject_InverseRemove(o *vmObj, p *vmPeer, f *vmRef) {
	study(o, f)
	id := o.class.id
	vRequires(wfObj(o) && wfPeer(p) && vTraceLen() == 0 && f.id == id && id >= 0 && !f.many && f.opp != nil && isPeerOrNilAny(o.value) &&
		o.resource == nil && peerRes(o.container) == nil && (o.container == nil || o.cid < 0 || o.cid == id))
	oc, ocid, old := o.container, o.cid, o.value
	ns := o.EInverseRemove(p, id, nil)
	if f.opp.contain {
		vEnsures("it has no container", o.container == nil && o.value == old)
	} else {
		vEnsures("it refers to nothing", o.value == nil && o.container == oc && o.cid == ocid)
	}
	vEnsures("no one else is told", vTraceLen() == 0)
	if ns != nil {
		ns.Dispatch()
	}
	if !o.required {
		vEnsures("not notified", vTraceLen() == 0)
		return
	}
	if !f.opp.contain {
		vEnsures("notified once", vTraceLen() == 1 && sent(0, SET, old, nil, id))
	} else if ocid == id {
		vEnsures("notified once", vTraceLen() == 1 && sent(0, SET, oc, nil, id))
	}
}

// a many-valued reference delegates to its list, created on first use
//
// @property C04
func spec_EObject_InverseMany(o *vmObj, p *vmPeer, f *vmRef, l *vmList, has bool) {
	study(o, f)
	id := o.class.id
	vRequires(wfObj(o) && vTraceLen() == 0 && f.id == id && id >= 0 && f.many && f.opp != nil && !f.opp.contain)
	o.value = nil
	if has {
		o.value = l
	}
	o.EInverseAdd(p, id, nil)
	if has {
		vEnsures("the list gains it, without telling back", vTraceLen() == 1 && vEvent(0, evListAdd, l, p) && o.value == any(l))
		o.EInverseRemove(p, id, nil)
		vEnsures("the list loses it, without telling back", vTraceLen() == 2 && vEvent(1, evListRem, l, p))
		return
	}
	n, ok := o.value.(*basicEObjectList)
	vEnsures("a new list holds it", ok && len(n.data) == 1 && n.data[0] == any(p) && vTraceLen() == 0)
	vEnsures("the list is the reference's", n.owner == EObjectInternal(o) && n.featureID == id && n.inverse && n.opposite && n.inverseFeatureID == f.opp.id && n.containment == f.contain)
}

// ---- the list of a many-valued reference tells the other side ----

// listInverse: the feature through which elements of l are told.
func listInverse(l *basicEObjectList) int {
	if l.opposite {
		return l.inverseFeatureID
	}
	return -1 - l.featureID
}

// linked: at k, the element was told (iff the reference has another side) and then
// the change was notified (iff someone listens), and nothing else happened.
func linked(l *basicEObjectList, o *vmObj, k int, added any, t EventType, old, new any) bool {
	if l.inverse && added != nil {
		if !vEvent(k, evPeerAdd, added, o, listInverse(l)) {
			return false
		}
		k++
	}
	if o.required {
		return vTraceLen() == k+1 && sent(k, t, old, new, l.featureID)
	}
	return vTraceLen() == k
}

// unlinked: the removed element was told.
func unlinked(l *basicEObjectList, o *vmObj, removed any) bool {
	return !l.inverse || vEvent(0, evPeerRem, removed, o, listInverse(l))
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

// @property C04
// @inv eol
func spec_EObjectList_Insert(o *vmObj, l *basicEObjectList, p *vmPeer, i int) {
	l.owner = o
	vRequires(wfEOL(l, o) && !l.proxies && i >= 0 && i <= len(l.data))
	old := vSnap(l.data)
	r := l.Insert(i, p)
	if !r {
		vEnsures("refused", l.isUnique && vTraceLen() == 0 && sameSeq(l.data, old))
		return
	}
	vEnsures("inserted", insertedAt(l.data, old, i, p))
	vEnsures("the other side follows", linked(l, o, 0, p, ADD, nil, p))
}

// @property C04
// @inv eol
func spec_EObjectList_Add(o *vmObj, l *basicEObjectList, p *vmPeer) {
	l.owner = o
	vRequires(wfEOL(l, o) && !l.proxies)
	old := vSnap(l.data)
	r := l.Add(p)
	if !r {
		vEnsures("refused", l.isUnique && vTraceLen() == 0 && sameSeq(l.data, old))
		return
	}
	vEnsures("added", insertedAt(l.data, old, old.Len(), p))
	vEnsures("the other side follows", linked(l, o, 0, p, ADD, nil, p))
}

func inv_basicEObjectList_IndexOf_1__eol(list *basicEObjectList, elem any, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return list.data[i] != elem })
}

// @property C04
// @inv eol
func spec_EObjectList_Set(o *vmObj, l *basicEObjectList, p *vmPeer, i int) {
	l.owner = o
	vRequires(wfEOL(l, o) && !l.proxies && i >= 0 && i < len(l.data) && !(l.isUnique && vExists(0, len(l.data), func(j int) bool { return l.data[j] == any(p) })))
	x := l.data[i]
	vRequires(x != any(p))
	r := l.Set(i, p)
	vEnsures("replaced", r == x && l.data[i] == any(p))
	vEnsures("the other sides follow", unlinked(l, o, x) && linked(l, o, count(l.inverse), p, SET, x, p))
}

// @property C04
func spec_EObjectList_RemoveAt(o *vmObj, l *basicEObjectList, i int) {
	l.owner = o
	vRequires(wfEOL(l, o) && !l.proxies && i >= 0 && i < len(l.data))
	old := vSnap(l.data)
	x := l.data[i]
	r := l.RemoveAt(i)
	vEnsures("removed", r == x && removedRange(l.data, old, i, i+1))
	vEnsures("the other side follows", unlinked(l, o, x) && linked(l, o, count(l.inverse), nil, REMOVE, x, nil))
}

// Reading an element that is a proxy replaces it by what it stands for.
//
// @property C04
func spec_EObjectList_GetProxy(o *vmObj, l *basicEObjectList, i int, q *vmPeer, known bool, rs *vmRS, res *vmRes) {
	l.owner = o
	vRequires(wfEOL(l, o) && i >= 0 && i < len(l.data))
	p := l.data[i].(*vmPeer)
	o.resource, res.rs = res, rs
	rs.to, rs.uri = nil, p.uri
	if known {
		rs.to = q
	}
	vRequires(wfObj(o) && p != q && p.uri != nil && !q.proxy && !vExists(0, len(l.data), func(j int) bool { return l.data[j] == any(q) }))
	old, free := vSnap(l.data), q.cont == nil
	r := l.Get(i)
	if !(known && l.proxies && p.proxy) {
		vEnsures("reads the element", r == any(p) && sameSeq(l.data, old) && vTraceLen() == 0)
		return
	}
	vEnsures("resolves it in place", r == any(q) && len(l.data) == old.Len() && vForall(0, len(l.data), func(j int) bool {
		return j == i && l.data[j] == any(q) || j != i && l.data[j] == old.At(j)
	}))
	k := 0
	var added any
	if l.containment {
		vEnsures("the proxy leaves", unlinked(l, o, p))
		k = count(l.inverse)
		if free {
			added = q
		}
	}
	vEnsures("the object comes in its place", linked(l, o, k, added, RESOLVE, p, q))
}

// The unresolved view reads and searches the same elements without resolving any.
//
// @property C04
func spec_EObjectList_Unresolved(o *vmObj, l *basicEObjectList, i int) {
	l.owner = o
	vRequires(wfEOL(l, o) && i >= 0 && i < len(l.data))
	old := vSnap(l.data)
	u := l.GetUnResolvedList()
	r := u.Get(i)
	n := u.Size()
	a := u.ToArray()
	vEnsures("as stored", r == old.At(i) && n == old.Len() && sameSeq(a, old) && sameSeq(l.data, old))
	vEnsures("no effect", vTraceLen() == 0)
}

// @property C04
// @inv unres
func spec_EObjectList_UnresolvedIndexOf(o *vmObj, l *basicEObjectList, p *vmPeer) {
	l.owner = o
	vRequires(wfEOL(l, o) && l.proxies)
	old := vSnap(l.data)
	u := l.GetUnResolvedList()
	r := u.IndexOf(p)
	vEnsures("where it is stored", r == -1 && !vExists(0, old.Len(), func(j int) bool { return old.At(j) == any(p) }) ||
		r >= 0 && r < old.Len() && old.At(r) == any(p) && !vExists(0, r, func(j int) bool { return old.At(j) == any(p) }))
	vEnsures("no effect", vTraceLen() == 0 && sameSeq(l.data, old))
}

func inv_AbstractEList_IndexOf_1__unres(list *AbstractEList, elem any, i int, it EIterator) bool {
	u := list.interfaces.(*unResolvedBasicEObjectList)
	li := it.(*listIterator)
	return li.list == EList(u) && li.cursor == i && i >= 0 && i <= len(u.delegate.data) && vForall(0, i, func(j int) bool { return u.delegate.data[j] != elem })
}

// @property C04
// @inv unres
func spec_EObjectList_UnresolvedRemove(o *vmObj, l *basicEObjectList, i int) {
	l.owner = o
	vRequires(wfEOL(l, o) && l.proxies && i >= 0 && i < len(l.data))
	old := vSnap(l.data)
	x := l.data[i]
	r := l.GetUnResolvedList().RemoveAt(i)
	vEnsures("removed", r == x && removedRange(l.data, old, i, i+1))
	vEnsures("the other side follows", unlinked(l, o, x) && linked(l, o, count(l.inverse), nil, REMOVE, x, nil))
}
