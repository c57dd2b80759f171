package ecore

// ---- C03: notifications: merging, chains, delivery to adapters -------------

const (
	evMerge   = 5 // notification, other
	evChanged = 6 // adapter, type, old value, position
)

// vmNotif is a notification about one feature of one notifier.
type vmNotif struct {
	AbstractNotification
	notifier *vmNotifier
	fid      int
}

func (n *vmNotif) GetNotifier() ENotifier {
	if n.notifier == nil {
		return nil
	}
	return n.notifier
}
func (n *vmNotif) GetFeature() EStructuralFeature { return nil }
func (n *vmNotif) GetFeatureID() int              { return n.fid }

func isInt(x any) bool { _, ok := x.(int); return ok }

func mergeable(n, o *vmNotif) bool { return n.notifier == o.notifier && n.fid == o.fid }

func sameNotif(n *vmNotif, t EventType, old, new any, pos int) bool {
	return n.eventType == t && vSame(n.oldValue, old) && vSame(n.newValue, new) && n.position == pos
}

func isSetOrUnset(t EventType) bool { return t == SET || t == UNSET }

// @property C03
func spec_Notification_MergeSet(n, o *vmNotif) {
	vRequires(n.interfaces == any(n) && n != o && isSetOrUnset(n.eventType))
	t, old, new, pos := n.eventType, n.oldValue, n.newValue, n.position
	ot, oold, onew, opos := o.eventType, o.oldValue, o.newValue, o.position
	r := n.Merge(o)
	vEnsures("merges exactly changes of the same feature", r == (mergeable(n, o) && isSetOrUnset(ot)))
	if r {
		nt := t
		if ot == SET {
			nt = SET
		}
		vEnsures("first old value and last new value", sameNotif(n, nt, old, onew, pos))
	} else {
		vEnsures("a refusal changes nothing", sameNotif(n, t, old, new, pos))
	}
	vEnsures("the other notification is unchanged", sameNotif(o, ot, oold, onew, opos))
}

// @property C03
func spec_Notification_MergeRemove(n, o *vmNotif) {
	vRequires(n.interfaces == any(n) && n != o && n.eventType == REMOVE)
	old, new, pos := n.oldValue, n.newValue, n.position
	ot, oold, onew, opos := o.eventType, o.oldValue, o.newValue, o.position
	r := n.Merge(o)
	vEnsures("merges exactly removals of the same feature", r == (mergeable(n, o) && ot == REMOVE))
	vEnsures("the other notification is unchanged", sameNotif(o, ot, oold, onew, opos))
	if !r {
		vEnsures("a refusal changes nothing", sameNotif(n, REMOVE, old, new, pos))
		return
	}
	vs, ok1 := n.oldValue.([]any)
	ps, ok2 := n.newValue.([]any)
	vEnsures("a removal of two elements", n.eventType == REMOVE_MANY && ok1 && ok2 && len(vs) == 2 && len(ps) == 2)
	// positions refer to the list before the first removal, in increasing order
	if opos < pos {
		vEnsures("values and original positions", vs[0] == oold && vs[1] == old && ps[0] == any(opos) && ps[1] == any(pos) && n.position == opos)
	} else {
		vEnsures("values and original positions", vs[0] == old && vs[1] == oold && ps[0] == any(pos) && ps[1] == any(opos+1) && n.position == pos)
	}
}

// vmRank: how many of the earlier removals lie before the element now removed at q.
func vmRank(ps []any, q int) int {
	i := 0
	for i < len(ps) && ps[i].(int) <= q+i {
		i++
	}
	return i
}

func inv_vmRank_1(ps []any, q, i int) bool {
	return i >= 0 && i <= len(ps) && vForall(0, i, func(j int) bool { return ps[j].(int) <= q+j })
}

func sortedPositions(ps []any) bool {
	return vForall(0, len(ps), func(i int) bool { return isInt(ps[i]) }) &&
		vForall(0, len(ps), func(i int) bool {
			return vForall(0, len(ps), func(j int) bool { return i >= j || ps[i].(int) < ps[j].(int) })
		})
}

// vmRemoved: several removed values and their positions.
type vmRemoved struct{ ps, vs []any }

func vgen_vmRemoved(t *vTape) *vmRemoved {
	r := &vmRemoved{}
	for p := 0; p < 5; p++ {
		if t.Bool() {
			r.ps, r.vs = append(r.ps, p), append(r.vs, t.Any())
		}
	}
	return r
}

// @property C03
// @inv many
func spec_Notification_MergeRemoveMany(n, o *vmNotif, rm *vmRemoved) {
	ps, vs := rm.ps, rm.vs
	vRequires(n.interfaces == any(n) && n != o && n.eventType == REMOVE_MANY && len(ps) == len(vs) && sortedPositions(ps) && vSep(ps, vs))
	n.newValue, n.oldValue = ps, vs
	ot, oold, onew, opos, pos := o.eventType, o.oldValue, o.newValue, o.position, n.position
	ps0, vs0 := vSnap(ps), vSnap(vs)
	k := vmRank(ps, opos)
	r := n.Merge(o)
	vEnsures("merges exactly removals of the same feature", r == (mergeable(n, o) && ot == REMOVE))
	vEnsures("the other notification is unchanged", sameNotif(o, ot, oold, onew, opos))
	nv, ok1 := n.oldValue.([]any)
	np, ok2 := n.newValue.([]any)
	vEnsures("still a removal of several elements", n.eventType == REMOVE_MANY && ok1 && ok2 && n.position == pos)
	if !r {
		vEnsures("a refusal changes nothing", sameSeq(nv, vs0) && sameSeq(np, ps0))
		return
	}
	vEnsures("the value is inserted at its rank", insertedAt(nv, vs0, k, oold))
	vEnsures("with its original position", insertedAt(np, ps0, k, any(opos+k)))
	vEnsures("the positions stay in order", sortedPositions(np))
}

func inv_AbstractNotification_Merge_1__many(notif *AbstractNotification, positions, newPositions []any, index, notificationPosition, old_notificationPosition int) bool {
	q := old_notificationPosition
	ps := vOldLoop(func() vSeq[any] { return vSnap(positions) })
	vs := vOldLoop(func() vSeq[any] { return vSnap(notif.oldValue.([]any)) })
	return index >= 0 && index <= len(positions) && notificationPosition == q+index && len(newPositions) == index &&
		sameSeq(positions, ps) && sameSeq(notif.oldValue.([]any), vs) && vSep(newPositions, positions) && vSep(newPositions, notif.oldValue.([]any)) &&
		vForall(0, index, func(j int) bool { return newPositions[j] == positions[j] && positions[j].(int) <= q+j })
}

func inv_AbstractNotification_Merge_2__many(positions, newPositions, old_newPositions, oldValue []any, index int) bool {
	q := vOldLoop(func() any { return old_newPositions[len(old_newPositions)-1] })
	k := len(old_newPositions) - 1
	np := vOldLoop(func() vSeq[any] { return vSnap(old_newPositions) })
	ps := vOldLoop(func() vSeq[any] { return vSnap(positions) })
	vs := vOldLoop(func() vSeq[any] { return vSnap(oldValue) })
	return index > k && index <= len(positions)+1 && len(newPositions) == index && k >= 0 &&
		sameSeq(positions, ps) && sameSeq(oldValue, vs) && vSep(newPositions, positions) && vSep(newPositions, oldValue) &&
		vForall(0, k, func(j int) bool { return newPositions[j] == np.At(j) }) && newPositions[k] == q &&
		vForall(k+1, index, func(j int) bool { return newPositions[j] == positions[j-1] })
}

// @property C03
func spec_Notification_MergeCleared(n, o *vmNotif) {
	vRequires(n.interfaces == any(n) && n != o && n.eventType == REMOVE_MANY && n.newValue == nil)
	old, pos := n.oldValue, n.position
	_, ok := old.([]any)
	vRequires(ok)
	vs := vSnap(old.([]any))
	r := n.Merge(o)
	nv, ok := n.oldValue.([]any)
	vEnsures("a clear is not extended", !r && n.eventType == REMOVE_MANY && n.newValue == nil && n.position == pos && ok && sameSeq(nv, vs))
}

// @property C03
func spec_Notification_MergeOther(n, o *vmNotif) {
	vRequires(n.interfaces == any(n) && n != o && !isSetOrUnset(n.eventType) && n.eventType != REMOVE && n.eventType != REMOVE_MANY)
	t, old, new, pos := n.eventType, n.oldValue, n.newValue, n.position
	r := n.Merge(o)
	vEnsures("other changes are not merged", !r && sameNotif(n, t, old, new, pos))
}

// vmN is a notification with scripted merging.
type vmN struct {
	vmNotif
	merges bool
}

func (n *vmN) Merge(o ENotification) bool {
	vEmit(evMerge, n, o)
	return n.merges
}

func wfChain(c *notificationChain) bool {
	l := c.notifications
	return l != nil && l.interfaces == any(l) && !l.isUnique && vForall(0, len(l.data), func(i int) bool { return isVmN(l.data[i]) })
}

func isVmN(x any) bool {
	n, ok := x.(*vmN)
	return ok && n != nil && n.notifier != nil && n.eventType >= 0
}

// @property C03
// @inv chain
func spec_Chain_Add(c *notificationChain, n *vmN) {
	vRequires(wfChain(c))
	l := c.notifications
	old := vSnap(l.data)
	r := c.Add(n)
	k := vTraceLen()
	if r {
		vEnsures("every pending notification was asked to absorb it", k == old.Len() && vForall(0, k, func(i int) bool {
			return vEvent(i, evMerge, old.At(i), n) && !old.At(i).(*vmN).merges
		}))
		vEnsures("it is queued last", insertedAt(l.data, old, old.Len(), n))
		return
	}
	vEnsures("the first that can absorbs it", k >= 1 && k <= old.Len() && old.At(k-1).(*vmN).merges && vEvent(k-1, evMerge, old.At(k-1), n))
	vEnsures("the earlier ones were asked", vForall(0, k-1, func(i int) bool { return vEvent(i, evMerge, old.At(i), n) && !old.At(i).(*vmN).merges }))
	vEnsures("it is not queued", sameSeq(l.data, old))
}

func inv_notificationChain_Add_1__chain(chain *notificationChain, newNotif ENotification, it EIterator) bool {
	li := it.(*listIterator)
	l := chain.notifications
	k := li.cursor
	return li.list == EList(l) && k >= 0 && k <= len(l.data) && vTraceLen() == k &&
		vForall(0, k, func(i int) bool { return vEvent(i, evMerge, l.data[i], newNotif) && !l.data[i].(*vmN).merges })
}

// @property C03
func spec_Chain_AddNil(c *notificationChain) {
	vRequires(wfChain(c))
	old := vSnap(c.notifications.data)
	r := c.Add(nil)
	vEnsures("nothing is queued", !r && sameSeq(c.notifications.data, old) && vTraceLen() == 0)
}

// @property C03
// @inv chain
func spec_Chain_Dispatch(c *notificationChain) {
	vRequires(wfChain(c))
	l := c.notifications
	old := vSnap(l.data)
	c.Dispatch()
	vEnsures("each notification is sent once, in order", vTraceLen() == old.Len() && vForall(0, old.Len(), func(i int) bool { return isSent(i, old.At(i)) }))
	vEnsures("the chain is unchanged", sameSeq(l.data, old))
}

func isSent(i int, x any) bool {
	n := x.(*vmN)
	return vEvent(i, evNotify, n.eventType, n.oldValue, n.newValue, n.position)
}

func inv_notificationChain_Dispatch_1__chain(chain *notificationChain, it EIterator) bool {
	li := it.(*listIterator)
	l := chain.notifications
	k := li.cursor
	return li.list == EList(l) && k >= 0 && k <= len(l.data) && vTraceLen() == k && vForall(0, k, func(i int) bool { return isSent(i, l.data[i]) })
}

// A notification doubles as a chain: what is added is absorbed or follows it.
//
// @property C03
// @inv chain
func spec_Notification_Chain(n, o *vmNotif) {
	vRequires(n.interfaces == any(n) && o.interfaces == any(o) && n != o && n.next == nil && o.next == nil && n.notifier != nil && o.notifier != nil &&
		n.eventType >= 0 && o.eventType >= 0 && (n.eventType == ADD || n.eventType == MOVE || n.eventType == SET))
	t, old, new, pos := n.eventType, n.oldValue, n.newValue, n.position
	merged := n.eventType == SET && mergeable(n, o) && isSetOrUnset(o.eventType)
	r := n.Add(o)
	vEnsures("absorbed or queued", r == !merged && vTraceLen() == 0)
	n.Dispatch()
	if merged {
		vEnsures("one notification", vTraceLen() == 1 && vEvent(0, evNotify, SET, old, o.newValue, pos))
		return
	}
	vEnsures("both in order", vTraceLen() == 2 && vEvent(0, evNotify, t, old, new, pos) && vEvent(1, evNotify, o.eventType, o.oldValue, o.newValue, o.position))
}

// A third notification goes to the one that can absorb it or to the end.
//
// @property C03
// @native the recursion through the chain of three has no contract
func spec_Notification_Chain3(n, o, q *vmNotif) {
	vRequires(n.interfaces == any(n) && o.interfaces == any(o) && q.interfaces == any(q) && n != o && n != q && o != q && n.next == nil && o.next == nil && q.next == nil &&
		n.notifier != nil && o.notifier != nil && q.notifier != nil && n.eventType == ADD && o.eventType == ADD && q.eventType >= 0)
	n.Add(o)
	n.Add(q)
	n.Dispatch()
	vEnsures("all in order", vTraceLen() == 3 && vEvent(0, evNotify, n.eventType, n.oldValue, n.newValue, n.position) &&
		vEvent(1, evNotify, o.eventType, o.oldValue, o.newValue, o.position) && vEvent(2, evNotify, q.eventType, q.oldValue, q.newValue, q.position))
}

// ---- delivery to adapters ----

type vmAdapter struct {
	AbstractEAdapter
}

func (a *vmAdapter) NotifyChanged(n ENotification) {
	vEmit(evChanged, a, n.GetEventType(), n.GetOldValue(), n.GetPosition())
}

// vmSource is a notifier built on the library's implementation.
type vmSource struct {
	ENotifierImpl
}

func isVmAdapter(x any) bool {
	a, ok := x.(*vmAdapter)
	return ok && a != nil
}

func wfSource(s *vmSource, l *notifierAdapterList) bool {
	return s.interfaces == any(s) && s.adapters == EList(l) && l.interfaces == any(l) && !l.isUnique && l.notifier == &s.AbstractENotifier &&
		vForall(0, len(l.data), func(i int) bool { return isVmAdapter(l.data[i]) })
}

// vgSource links a generated notifier and adapter list.
func linkSource(s *vmSource, l *notifierAdapterList) {
	s.interfaces, s.adapters, l.interfaces, l.notifier = s, l, l, &s.AbstractENotifier
}

// @property C03
// @inv adapters
func spec_Notifier_Deliver(s *vmSource, l *notifierAdapterList, n *vmNotif) {
	linkSource(s, l)
	vRequires(wfSource(s, l))
	old, on := vSnap(l.data), s.deliver
	s.ENotify(n)
	if !on {
		vEnsures("nothing is delivered", vTraceLen() == 0)
		return
	}
	vEnsures("every adapter once, in order", vTraceLen() == old.Len() && vForall(0, old.Len(), func(i int) bool {
		return vEvent(i, evChanged, old.At(i), n.eventType, n.oldValue, n.position)
	}))
}

func inv_AbstractENotifier_ENotify_1__adapters(it EIterator, notification ENotification, adapters EList) bool {
	li := it.(*listIterator)
	l := adapters.(*notifierAdapterList)
	n := notification.(*vmNotif)
	k := li.cursor
	return li.list == adapters && k >= 0 && k <= len(l.data) && vTraceLen() == k && vForall(0, k, func(i int) bool {
		return vEvent(i, evChanged, l.data[i], n.eventType, n.oldValue, n.position)
	})
}

// @property C03
func spec_Notifier_Required(s *vmSource, l *notifierAdapterList) {
	linkSource(s, l)
	vRequires(wfSource(s, l))
	r, h := s.ENotificationRequired(), s.EBasicHasAdapters()
	vEnsures("required exactly when someone listens", r == (s.deliver && len(l.data) > 0) && h == (len(l.data) > 0))
	s.ESetDeliver(false)
	q := s.ENotificationRequired()
	vEnsures("never while delivery is off", !q && !s.EDeliver())
}

// @property C03
func spec_Adapters_Lazy(s *vmSource) {
	s.interfaces, s.adapters = s, nil
	r := s.ENotificationRequired()
	vEnsures("no adapter at first", !r && !s.EBasicHasAdapters())
	l := s.EAdapters()
	vEnsures("an empty list that stays", l != nil && l.Empty() && s.EAdapters() == l)
	nl := l.(*notifierAdapterList)
	vEnsures("well formed", wfSource(s, nl))
}

// @property C03
func spec_Adapters_Add(s *vmSource, l *notifierAdapterList, a *vmAdapter) {
	linkSource(s, l)
	vRequires(wfSource(s, l))
	old := vSnap(l.data)
	l.Add(a)
	vEnsures("appends", insertedAt(l.data, old, old.Len(), a))
	vEnsures("the adapter targets the notifier", a.target == ENotifier(s) && vTraceLen() == 0)
}

// @property C03
func spec_Adapters_RemoveAt(s *vmSource, l *notifierAdapterList, i int) {
	linkSource(s, l)
	vRequires(wfSource(s, l) && i >= 0 && i < len(l.data))
	old, on := vSnap(l.data), s.deliver
	a := l.data[i].(*vmAdapter)
	t := a.target
	l.RemoveAt(i)
	vEnsures("removes", removedRange(l.data, old, i, i+1))
	vEnsures("the adapter no longer targets the notifier", a.target != ENotifier(s) && (t == ENotifier(s) || a.target == t))
	vEnsures("the adapter is told iff delivery is on", on && vTraceLen() == 1 && vEvent(0, evChanged, a, REMOVING_ADAPTER, any(a), i) || !on && vTraceLen() == 0)
}

// @property C03
func spec_Adapters_Set(s *vmSource, l *notifierAdapterList, i int, a *vmAdapter) {
	linkSource(s, l)
	vRequires(wfSource(s, l) && i >= 0 && i < len(l.data) && l.data[i] != any(a))
	on := s.deliver
	b := l.data[i].(*vmAdapter)
	l.Set(i, a)
	vEnsures("the new adapter targets the notifier", a.target == ENotifier(s) && l.data[i] == any(a))
	vEnsures("the old one no longer does", b.target != ENotifier(s))
	vEnsures("the old one is told iff delivery is on", on && vTraceLen() == 1 && vEvent(0, evChanged, b, REMOVING_ADAPTER, any(b), i) || !on && vTraceLen() == 0)
}

// @property C03
// @inv adapters
func spec_Adapters_Clear(s *vmSource, l *notifierAdapterList) {
	linkSource(s, l)
	vRequires(wfSource(s, l))
	old, on := vSnap(l.data), s.deliver
	l.Clear()
	vEnsures("empties", len(l.data) == 0)
	vEnsures("no adapter targets the notifier", vForall(0, old.Len(), func(i int) bool { return old.At(i).(*vmAdapter).target != ENotifier(s) }))
	vEnsures("every adapter is told iff delivery is on", on && vTraceLen() == old.Len() && vForall(0, old.Len(), func(i int) bool {
		return vEvent(i, evChanged, old.At(i), REMOVING_ADAPTER, old.At(i), i)
	}) || !on && vTraceLen() == 0)
}

func inv_notifierAdapterList_DidClear_1__adapters(l *notifierAdapterList, oldObjects []any, k_ int) bool {
	s := l.notifier.interfaces.(*vmSource)
	on := s.deliver
	return vForall(0, k_, func(i int) bool { return oldObjects[i].(*vmAdapter).target != ENotifier(s) }) &&
		(on && vTraceLen() == k_ || !on && vTraceLen() == 0) && (!on || vForall(0, k_, func(i int) bool {
		return vEvent(i, evChanged, oldObjects[i], REMOVING_ADAPTER, oldObjects[i], i)
	}))
}

// ---- generators ----

func vgen_vmNotif(t *vTape) *vmNotif {
	n := &vmNotif{}
	n.interfaces = n
	n.eventType = EventType(t.Choose(9))
	n.oldValue, n.newValue, n.position = t.Any(), t.Any(), t.Choose(6)
	if n.eventType == REMOVE_MANY {
		n.oldValue, n.newValue = []any{"x"}, nil
	}
	n.fid = t.Choose(2)
	for _, o := range t.objs {
		if v, ok := o.(*vmNotifier); ok && t.Bool() {
			n.notifier = v
			return n
		}
	}
	n.notifier = vgen_vmNotifier(t)
	t.Keep(n.notifier)
	return n
}

func (n *vmNotif) vShow() string {
	return vStr(n.eventType) + " of feature " + vStr(n.fid) + " at " + vStr(n.position) + " old=" + vStr(n.oldValue) + " new=" + vStr(n.newValue)
}

func vgen_vmN(t *vTape) *vmN {
	n := &vmN{merges: t.Choose(3) == 1}
	n.vmNotif = *vgen_vmNotif(t)
	n.interfaces = n
	return n
}

func vgen_notificationChain(t *vTape) *notificationChain {
	c := NewNotificationChain()
	for k := t.Choose(4); k > 0; k-- {
		c.notifications.data = append(c.notifications.data, vgen_vmN(t))
	}
	return c
}

func vgen_vmSource(t *vTape) *vmSource {
	s := &vmSource{}
	s.interfaces = s
	s.deliver = !t.Bool()
	t.Keep(s)
	return s
}

func vgen_vmAdapter(t *vTape) *vmAdapter {
	a := &vmAdapter{}
	for _, o := range t.objs {
		if s, ok := o.(*vmSource); ok && t.Bool() {
			a.target = s
		}
	}
	return a
}

func vgen_notifierAdapterList(t *vTape) *notifierAdapterList {
	l := &notifierAdapterList{}
	l.data = []any{}
	for k := t.Choose(4); k > 0; k-- {
		l.data = append(l.data, vgen_vmAdapter(t))
	}
	return l
}
