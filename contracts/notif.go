package ecore

// ---- C02: a change to a notifying list is notified exactly once ------------

const (
	evNotify     = 1 // type, old, new, position
	evInverseAdd = 2 // object
	evInverseRem = 3 // object
	evQueued     = 7 // type, old, new, position
	evSendAll    = 8
)

// vmNotifier records every notification it is asked to deliver.
type vmNotifier struct {
	adapters EList
	deliver  bool
}

func (n *vmNotifier) EAdapters() EList   { return n.adapters }
func (n *vmNotifier) EDeliver() bool     { return n.deliver }
func (n *vmNotifier) ESetDeliver(b bool) { n.deliver = b }
func (n *vmNotifier) ENotify(x ENotification) {
	vEmit(evNotify, x.GetEventType(), x.GetOldValue(), x.GetNewValue(), x.GetPosition())
}

// vmNL is a notifying list whose inverse hooks are recorded.
type vmNL struct {
	BasicENotifyingList
	notifier *vmNotifier
	chain    *vmChain
}

// vmChain records what is queued for later delivery.
type vmChain struct{ used bool }

func (c *vmChain) Add(x ENotification) bool {
	vEmit(evQueued, x.GetEventType(), x.GetOldValue(), x.GetNewValue(), x.GetPosition())
	return true
}
func (c *vmChain) Dispatch() { vEmit(evSendAll) }

func (l *vmNL) GetNotifier() ENotifier {
	if l.notifier == nil {
		return nil
	}
	return l.notifier
}

func (l *vmNL) inverseAdd(o any, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseAdd, o)
	if l.chain != nil {
		return l.chain
	}
	return ns
}

func (l *vmNL) inverseRemove(o any, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseRem, o)
	if l.chain != nil {
		return l.chain
	}
	return ns
}

func wfNL(l *vmNL) bool { return l.chain == nil && wfNLC(l) }

func wfNLC(l *vmNL) bool {
	return l.interfaces == any(l) && (!l.isUnique || distinctArr(l.data)) && (l.notifier == nil || wfNotifier(l.notifier))
}

func wfNotifier(n *vmNotifier) bool {
	a, ok := n.adapters.(*immutableEList)
	return ok && a != nil
}

func nlRequired(l *vmNL) bool {
	return l.notifier != nil && l.notifier.deliver && len(l.notifier.adapters.(*immutableEList).data) > 0
}

// nlNotified: from position i on, the trace holds exactly the expected notification
// if one is required and nothing otherwise.
func nlNotified(i int, req bool, t EventType, old, new any, pos int) bool {
	if req {
		return vTraceLen() == i+1 && vEvent(i, evNotify, t, old, new, pos)
	}
	return vTraceLen() == i
}

// @property C02
// @inv nl
func spec_NotifyingList_Add(l *vmNL, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	r := l.Add(x)
	if !r {
		vEnsures("a refused element is not notified", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("appends", insertedAt(l.data, old, old.Len(), x))
	vEnsures("the inverse is told", vEvent(t0, evInverseAdd, x))
	vEnsures("one correct notification", nlNotified(t0+1, req, ADD, nil, x, old.Len()))
}

// @property C02
// @inv nl
func spec_NotifyingList_Insert(l *vmNL, i int, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	var r bool
	p := vCall(func() { r = l.Insert(i, x) })
	if p || !r {
		vEnsures("nothing happened", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("inserts", insertedAt(l.data, old, i, x))
	vEnsures("the inverse is told", vEvent(t0, evInverseAdd, x))
	vEnsures("one correct notification", nlNotified(t0+1, req, ADD, nil, x, i))
}

// @property C02
// @inv nl
func spec_NotifyingList_Set(l *vmNL, i int, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	var r any
	p := vCall(func() { r = l.Set(i, x) })
	if p {
		vEnsures("a panic changes nothing", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("replaces one element", r == old.At(i) && len(l.data) == old.Len() && l.data[i] == x &&
		vForall(0, len(l.data), func(j int) bool { return j == i || l.data[j] == old.At(j) }))
	if r == x {
		vEnsures("an unchanged list is not notified", vTraceLen() == t0)
		return
	}
	vEnsures("the inverses are told", vEvent(t0, evInverseRem, r) && vEvent(t0+1, evInverseAdd, x))
	vEnsures("one correct notification", nlNotified(t0+2, req, SET, r, x, i))
}

// @property C02
// @inv nl
func spec_NotifyingList_RemoveAt(l *vmNL, i int) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	var r any
	p := vCall(func() { r = l.RemoveAt(i) })
	if p {
		vEnsures("a panic changes nothing", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("removes one element", r == old.At(i) && removedRange(l.data, old, i, i+1))
	vEnsures("the inverse is told", vEvent(t0, evInverseRem, r))
	vEnsures("one correct notification", nlNotified(t0+1, req, REMOVE, r, nil, i))
}

// @property C02
// @inv nl
func spec_NotifyingList_Remove(l *vmNL, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	i := l.IndexOf(x)
	r := l.Remove(x)
	if !r {
		vEnsures("nothing happened", i == -1 && vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("removes one element", i >= 0 && removedRange(l.data, old, i, i+1))
	vEnsures("the inverse is told", vEvent(t0, evInverseRem, x))
	vEnsures("one correct notification", nlNotified(t0+1, req, REMOVE, x, nil, i))
}

// @property C02
// @inv nl
func spec_NotifyingList_Move(l *vmNL, from, to int) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	var r any
	p := vCall(func() { r = l.Move(from, to) })
	if p {
		vEnsures("a panic changes nothing", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("moves one element", r == old.At(from) && movedTo(l.data, old, from, to))
	vEnsures("one correct notification", nlNotified(t0, req, MOVE, from, r, to))
}

// nlMany: the event at i notifies a change of several elements; old and new are
// described by the given predicates.
func isNotify(i int, t EventType, pos int) bool {
	return i >= 0 && i < vTraceLen() && vEvKind(i) == evNotify && vEvArg(i, 0) == any(t) && vEvArg(i, 3) == any(pos)
}

// @property C02
// @inv nl clear
func spec_NotifyingList_Clear(l *vmNL) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	l.Clear()
	n := old.Len()
	vEnsures("empties the list", len(l.data) == 0)
	vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(t0+j, evInverseRem, old.At(j)) }))
	if !req {
		vEnsures("not notified", vTraceLen() == t0+n)
		return
	}
	if n == 1 {
		vEnsures("one correct notification", nlNotified(t0+1, true, REMOVE, old.At(0), nil, 0))
		return
	}
	vEnsures("one notification", vTraceLen() == t0+n+1 && isNotify(t0+n, REMOVE_MANY, -1) && vEvArg(t0+n, 2) == nil)
	vals, ok := vEvArg(t0+n, 1).([]any)
	vEnsures("with the removed elements", ok && sameSeq(vals, old))
}

func inv_BasicENotifyingList_doClear_1__clear(oldData []any, k_ int, notifications, old_notifications ENotificationChain) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	return notifications == old_notifications && vTraceLen() == t+k_ && vForall(0, k_, func(j int) bool { return vEvent(t+j, evInverseRem, oldData[j]) })
}

// @property C02
// @inv nl removerange
func spec_NotifyingList_RemoveRange(l *vmNL, from, to int) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	p := vCall(func() { l.RemoveRange(from, to) })
	if p {
		vEnsures("a panic changes nothing", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	n := to - from
	vEnsures("removes the range", removedRange(l.data, old, from, to))
	vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(t0+j, evInverseRem, old.At(from+j)) }))
	if !req || n == 0 {
		vEnsures("not notified", vTraceLen() == t0+n)
		return
	}
	if n == 1 {
		vEnsures("one correct notification", nlNotified(t0+1, true, REMOVE, old.At(from), nil, from))
		return
	}
	vEnsures("one notification", vTraceLen() == t0+n+1 && isNotify(t0+n, REMOVE_MANY, from))
	vals, ok := vEvArg(t0+n, 1).([]any)
	vEnsures("with the removed elements", ok && len(vals) == n && vForall(0, n, func(j int) bool { return vals[j] == old.At(from+j) }))
	ps, ok := vEvArg(t0+n, 2).([]any)
	vEnsures("and their positions", ok && len(ps) == n && vForall(0, n, func(j int) bool { return ps[j] == any(from+j) }))
}

func inv_BasicENotifyingList_doRemoveRange_1__removerange(objects []any, k_ int) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	return vTraceLen() == t+k_ && vForall(0, k_, func(j int) bool { return vEvent(t+j, evInverseRem, objects[j]) })
}

func inv_BasicENotifyingList_doRemoveRange_2__removerange(positions []any, fromIndex int, k_ int) bool {
	return vForall(0, k_, func(j int) bool { return positions[j] == any(fromIndex+j) })
}

// @property C02
// @inv nl addall
func spec_NotifyingList_InsertAll(l *vmNL, i int, c *immutableEList) {
	vRequires(wfNL(l) && !l.isUnique && vSep(l.data, c.data))
	old, arg, req, t0 := vSnap(l.data), vSnap(c.data), nlRequired(l), vTraceLen()
	p := vCall(func() { l.InsertAll(i, c) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if p {
		vEnsures("a panic changes nothing", vTraceLen() == t0 && sameSeq(l.data, old))
		return
	}
	vEnsures("inserts the elements", insertedAll(l.data, old, i, arg))
	nlAddedMany(l, t0, i, arg, req)
}

// @property C02
// @inv nl addall
func spec_NotifyingList_AddAll(l *vmNL, c *immutableEList) {
	vRequires(wfNL(l) && !l.isUnique && vSep(l.data, c.data))
	old, arg, req, t0 := vSnap(l.data), vSnap(c.data), nlRequired(l), vTraceLen()
	l.AddAll(c)
	vEnsures("appends the elements", insertedAll(l.data, old, old.Len(), arg))
	nlAddedMany(l, t0, old.Len(), arg, req)
}

func nlAddedMany(l *vmNL, t0, i int, arg vSeq[any], req bool) {
	n := arg.Len()
	vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(t0+j, evInverseAdd, arg.At(j)) }))
	if !req || n == 0 {
		vEnsures("not notified", vTraceLen() == t0+n)
		return
	}
	if n == 1 {
		vEnsures("one correct notification", nlNotified(t0+1, true, ADD, nil, arg.At(0), i))
		return
	}
	vEnsures("one notification", vTraceLen() == t0+n+1 && isNotify(t0+n, ADD_MANY, i) && vEvArg(t0+n, 1) == nil)
	vals, ok := vEvArg(t0+n, 2).([]any)
	vEnsures("with the added elements", ok && sameSeq(vals, arg))
}

func inv_BasicENotifyingList_doInsertAll_1__addall(it EIterator, l Collection, notifications, old_notifications ENotificationChain) bool {
	li := it.(*listIterator)
	c := l.(*immutableEList)
	t := vOldLoop(func() int { return vTraceLen() })
	k := li.cursor
	return notifications == old_notifications && li.list == EList(c) && k >= 0 && k <= len(c.data) && vTraceLen() == t+k &&
		vForall(0, k, func(j int) bool { return vEvent(t+j, evInverseAdd, c.data[j]) })
}

// When the inverse side produced notifications of its own, the change is queued
// with them and everything is sent at the end.
//
// @property C02
// @inv nl
func spec_NotifyingList_Chained(l *vmNL, op, i int, x any) {
	vRequires(wfNLC(l) && l.chain != nil && !l.isUnique && i >= 0 && i < len(l.data) && l.data[i] != x && vTraceLen() == 0)
	old, req := vSnap(l.data), nlRequired(l)
	k, t, o, n := 1, ADD, any(nil), x
	switch op {
	case 0:
		l.Insert(i, x)
	case 1:
		l.Set(i, x)
		k, t, o = 2, SET, old.At(i)
	case 2:
		l.RemoveAt(i)
		t, o, n = REMOVE, old.At(i), nil
	default:
		l.Add(x)
		i = old.Len()
	}
	if req {
		vEnsures("queued", vTraceLen() == k+2 && vEvent(k, evQueued, t, o, n, i))
		k++
	}
	vEnsures("and sent", vTraceLen() == k+1 && vEvent(k, evSendAll))
}

// The three operations that append to a caller's chain instead of dispatching.
//
// @property C02
// @inv nl
func spec_NotifyingList_AddWithNotification(l *vmNL, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	ch := l.AddWithNotification(x, nil)
	vEnsures("appends", insertedAt(l.data, old, old.Len(), x))
	vEnsures("nothing is sent and no inverse told", vTraceLen() == t0)
	nlChained(t0, ch, req, ADD, nil, x, old.Len())
}

// @property C02
// @inv nl
func spec_NotifyingList_RemoveWithNotification(l *vmNL, x any) {
	vRequires(wfNL(l))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	i := l.IndexOf(x)
	ch := l.RemoveWithNotification(x, nil)
	vEnsures("nothing is sent and no inverse told", vTraceLen() == t0)
	if i < 0 {
		vEnsures("nothing happened", ch == nil && sameSeq(l.data, old))
		return
	}
	vEnsures("removes one element", removedRange(l.data, old, i, i+1))
	nlChained(t0, ch, req, REMOVE, x, nil, i)
}

// @property C02
// @inv nl
func spec_NotifyingList_SetWithNotification(l *vmNL, i int, x any) {
	vRequires(wfNL(l) && i >= 0 && i < len(l.data))
	old, req, t0 := vSnap(l.data), nlRequired(l), vTraceLen()
	ch := l.SetWithNotification(i, x, nil)
	vEnsures("replaces one element", len(l.data) == old.Len() && l.data[i] == x &&
		vForall(0, len(l.data), func(j int) bool { return j == i || l.data[j] == old.At(j) }))
	vEnsures("nothing is sent and no inverse told", vTraceLen() == t0)
	nlChained(t0, ch, req, SET, old.At(i), x, i)
}

// nlChained: the chain sends exactly the expected notification when dispatched.
func nlChained(t0 int, ch ENotificationChain, req bool, t EventType, old, new any, pos int) {
	if !req {
		vEnsures("no chain", ch == nil)
		return
	}
	vEnsures("a chain", ch != nil)
	ch.Dispatch()
	vEnsures("one correct notification", nlNotified(t0, req, t, old, new, pos))
}

func inv_AbstractEList_IndexOf_1__nl(list *AbstractEList, elem any, i int, it EIterator) bool {
	l := list.interfaces.(*vmNL)
	li := it.(*listIterator)
	return li.list == EList(l) && li.cursor == i && i >= 0 && i <= len(l.data) && vForall(0, i, func(j int) bool { return l.data[j] != elem })
}

func vgen_vmNotifier(t *vTape) *vmNotifier {
	n := &vmNotifier{deliver: !t.Bool()}
	if t.Bool() {
		n.adapters = NewImmutableEList(nil)
	} else {
		n.adapters = NewImmutableEList([]any{"adapter"})
	}
	return n
}

func vgen_vmNL(t *vTape) *vmNL {
	l := &vmNL{}
	l.interfaces = l
	l.data = t.Anys(3)
	l.isUnique = t.Bool()
	if !t.Bool() {
		l.notifier = vgen_vmNotifier(t)
	}
	if t.Choose(3) == 1 {
		l.chain = &vmChain{}
	}
	return l
}

func (l *vmNL) vShow() string {
	req := false
	if l.notifier != nil {
		req = nlRequired(l)
	}
	return "notifying list (unique=" + vStr(l.isUnique) + ", observed=" + vStr(req) + ") " + vStr(l.data)
}

// RemoveAll removes exactly the elements of the argument and says so once.
//
// @property C02
// @native the positions found by the nested search need an existential induction
func spec_NotifyingList_RemoveAll(l *vmNL, c *immutableEList) {
	vRequires(wfNL(l) && vSep(l.data, c.data))
	old, arg, req, t0 := vSnap(l.data), vSnap(c.data), nlRequired(l), vTraceLen()
	r := l.RemoveAll(c)
	n := old.Len() - len(l.data)
	vEnsures("keeps exactly the other elements", keptOnly(l.data, old, arg))
	vEnsures("reports a change", r == (n > 0))
	k := 0
	for i := 0; i < old.Len(); i++ {
		if inSeq(arg, old.At(i)) {
			vEnsures("the inverses are told", vEvent(t0+k, evInverseRem, old.At(i)))
			if req && n == 1 {
				vEnsures("one correct notification", nlNotified(t0+1, true, REMOVE, old.At(i), nil, i))
			}
			if req && n > 1 {
				vEnsures("one notification", vTraceLen() == t0+n+1 && vEvKind(t0+n) == evNotify && vEvArg(t0+n, 0) == any(REMOVE_MANY))
				vals := vEvArg(t0+n, 1).([]any)
				ps := vEvArg(t0+n, 2).([]any)
				vEnsures("with the removed elements", len(vals) == n && vals[k] == old.At(i))
				vEnsures("and their positions", len(ps) == n && ps[k] == any(i) && (k > 0 || vEvArg(t0+n, 3) == any(i)))
			}
			k++
		}
	}
	vEnsures("counts", k == n && (req && n > 0 || vTraceLen() == t0+n))
}
