package ecore

import "iter"

// ---- C16: what is kept in a store is what would be kept in memory ------------

const (
	evDidAdd    = 301 // index, object
	evDidSet    = 302 // index, new, old
	evDidRemove = 303 // object
	evDidMove   = 304 // new index, object, old index
	evDidClear  = 305
	evCache     = 306 // element, on
	evResolved  = 307 // proxy
)

type vmSF struct{ EStructuralFeature }

// vmStore is a store that keeps the values of one feature of one object.
type vmStore struct {
	EStore
	owner   EObject
	feature EStructuralFeature
	data    []any
}

func (s *vmStore) mine(o EObject, f EStructuralFeature) {
	vAssert("the store is asked for this feature of this object", o == s.owner && f == s.feature)
}

func (s *vmStore) Get(o EObject, f EStructuralFeature, i int) any {
	s.mine(o, f)
	return s.data[i]
}
func (s *vmStore) Size(o EObject, f EStructuralFeature) int {
	s.mine(o, f)
	return len(s.data)
}
func (s *vmStore) Set(o EObject, f EStructuralFeature, i int, x any, need bool) any {
	s.mine(o, f)
	old := s.data[i]
	s.data[i] = x
	if need {
		return old
	}
	return nil
}
func (s *vmStore) Add(o EObject, f EStructuralFeature, i int, x any) {
	s.mine(o, f)
	s.data = append(append(append([]any{}, s.data[:i]...), x), s.data[i:]...)
}
func (s *vmStore) AddAll(o EObject, f EStructuralFeature, i int, c Collection) {
	s.mine(o, f)
	tail := append([]any{}, s.data[i:]...)
	s.data = append(append(s.data[:i], c.ToArray()...), tail...)
}
func (s *vmStore) Remove(o EObject, f EStructuralFeature, i int, need bool) any {
	s.mine(o, f)
	old := s.data[i]
	copy(s.data[i:], s.data[i+1:])
	s.data = s.data[:len(s.data)-1]
	if need {
		return old
	}
	return nil
}
func (s *vmStore) Move(o EObject, f EStructuralFeature, from, to int, need bool) any {
	s.mine(o, f)
	x := s.data[from]
	if to < from {
		copy(s.data[to+1:], s.data[to:from])
	} else {
		copy(s.data[from:], s.data[from+1:to+1])
	}
	s.data[to] = x
	if need {
		return x
	}
	return nil
}
func (s *vmStore) Clear(o EObject, f EStructuralFeature) {
	s.mine(o, f)
	s.data = []any{}
}
func (s *vmStore) ToArray(o EObject, f EStructuralFeature) []any {
	s.mine(o, f)
	return append([]any{}, s.data...)
}
func (s *vmStore) All(o EObject, f EStructuralFeature) iter.Seq[any] {
	s.mine(o, f)
	return func(yield func(any) bool) {
		for _, x := range s.data {
			if !yield(x) {
				return
			}
		}
	}
}

func (s *vmStore) IndexOf(o EObject, f EStructuralFeature, x any) int {
	s.mine(o, f)
	for i, y := range s.data {
		if x == y {
			return i
		}
	}
	return -1
}
func (s *vmStore) Contains(o EObject, f EStructuralFeature, x any) bool {
	return s.IndexOf(o, f, x) >= 0
}

// vmSL is a list in a store whose hooks are recorded.
type vmSL struct {
	EStoreList
	notifier *vmNotifier
}

func (l *vmSL) GetNotifier() ENotifier {
	if l.notifier == nil {
		return nil
	}
	return l.notifier
}
func (l *vmSL) inverseAdd(o any, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseAdd, o)
	return ns
}
func (l *vmSL) inverseRemove(o any, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseRem, o)
	return ns
}
func (l *vmSL) DidAdd(i int, x any)             { vEmit(evDidAdd, i, x) }
func (l *vmSL) DidSet(i int, x, old any)        { vEmit(evDidSet, i, x, old) }
func (l *vmSL) DidRemove(i int, x any)          { vEmit(evDidRemove, x) }
func (l *vmSL) DidMove(to int, x any, from int) { vEmit(evDidMove, to, x, from) }
func (l *vmSL) DidClear(old []any)              { vEmit(evDidClear) }

func sameArr(a, b []any) bool {
	return len(a) == len(b) && vForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// wfSL: the list is kept in the store, in its own array, or in both.
func wfSL(l *vmSL, st *vmStore) bool {
	return wfSLM(l, st) && !l.isUnique && !l.object && !l.proxies
}

func wfSLM(l *vmSL, st *vmStore) bool {
	return vBorn(l.data) && vBorn(st.data) && l.interfaces == any(l) && (l.notifier == nil || wfNotifier(l.notifier)) && vLockFree(&l.mutex) && slAgree(l, st) && vTraceLen() == 0
}

func slAgree(l *vmSL, st *vmStore) bool {
	if l.store == nil {
		return l.data != nil && l.size == len(l.data) && vSep(l.data, st.data)
	}
	return l.store == EStore(st) && st.owner == l.owner && st.feature == l.feature && l.size == len(st.data) &&
		(l.data != nil) == l.cache && (l.data == nil || sameArr(l.data, st.data) && vSep(l.data, st.data))
}

func slSeq(l *vmSL, st *vmStore) vSeq[any] {
	if l.data != nil {
		return vSnap(l.data)
	}
	return vSnap(st.data)
}

func slRequired(l *vmSL) bool {
	return l.notifier != nil && l.notifier.deliver && len(l.notifier.adapters.(*immutableEList).data) > 0
}

// slKept: the list and its store still hold the same.
func slKept(l *vmSL, st *vmStore, cached bool) {
	vEnsures("the store, the list and its size agree", slAgree(l, st) && (l.data != nil) == cached)
	vEnsures("nothing stays locked", vLockFree(&l.mutex))
}

func slData(l *vmSL, st *vmStore) []any {
	if l.store != nil {
		return st.data
	}
	return l.data
}

// @property C16
// @inv nl
func spec_StoreList_Add(l *vmSL, st *vmStore, x any) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	l.Add(x)
	vEnsures("appends", insertedAt(slData(l, st), old, old.Len(), x))
	slKept(l, st, cached)
	vEnsures("the element is announced", vEvent(0, evDidAdd, old.Len(), x) && vEvent(1, evInverseAdd, x))
	vEnsures("one correct notification", nlNotified(2, req, ADD, nil, x, old.Len()))
}

// @property C16
// @inv nl
func spec_StoreList_Insert(l *vmSL, st *vmStore, i int, x any) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	p := vCall(func() { l.Insert(i, x) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if !p {
		vEnsures("inserts", insertedAt(slData(l, st), old, i, x))
		vEnsures("the element is announced", vEvent(0, evDidAdd, i, x) && vEvent(1, evInverseAdd, x))
		vEnsures("one correct notification", nlNotified(2, req, ADD, nil, x, i))
	}
	slKept(l, st, cached)
}

// @property C16
// @inv nl
func spec_StoreList_Set(l *vmSL, st *vmStore, i int, x any) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	var r any
	p := vCall(func() { r = l.Set(i, x) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	if !p {
		s := slData(l, st)
		vEnsures("replaces one element", r == old.At(i) && len(s) == old.Len() && s[i] == x &&
			vForall(0, len(s), func(j int) bool { return j == i || s[j] == old.At(j) }))
		vEnsures("announced", vEvent(0, evDidSet, i, x, r))
		if r != x {
			vEnsures("the inverses are told", vEvent(1, evInverseRem, r) && vEvent(2, evInverseAdd, x))
			vEnsures("one correct notification", nlNotified(3, req, SET, r, x, i))
		}
	}
	slKept(l, st, cached)
}

// @property C16
// @inv nl
func spec_StoreList_RemoveAt(l *vmSL, st *vmStore, i int) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	var r any
	p := vCall(func() { r = l.RemoveAt(i) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	if !p {
		vEnsures("removes one element", r == old.At(i) && removedRange(slData(l, st), old, i, i+1))
		vEnsures("announced", vEvent(0, evDidRemove, r) && vEvent(1, evInverseRem, r))
		vEnsures("one correct notification", nlNotified(2, req, REMOVE, r, nil, i))
	}
	slKept(l, st, cached)
}

// @property C16
// @inv nl
func spec_StoreList_Move(l *vmSL, st *vmStore, from, to int) {
	vRequires(wfSL(l, st) && to != l.size)
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	var r any
	p := vCall(func() { r = l.Move(from, to) })
	vEnsures("panics exactly outside the bounds", p == (from < 0 || from >= old.Len() || to < 0 || to >= old.Len()))
	if !p {
		vEnsures("moves one element", r == old.At(from) && movedTo(slData(l, st), old, from, to))
		if from != to {
			vEnsures("announced", vEvent(0, evDidMove, to, r, from))
			vEnsures("one correct notification", nlNotified(1, req, MOVE, from, r, to))
		}
	}
	slKept(l, st, cached)
}

// @property C16
// @inv nl clear
func spec_StoreList_Clear(l *vmSL, st *vmStore) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	l.Clear()
	n := old.Len()
	vEnsures("empties the list", len(slData(l, st)) == 0)
	slKept(l, st, cached)
	vEnsures("announced once", vEvent(0, evDidClear))
	vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(1+j, evInverseRem, old.At(j)) }))
	if !req {
		vEnsures("not notified", vTraceLen() == 1+n)
	} else if n == 1 {
		vEnsures("one correct notification", nlNotified(1+n, true, REMOVE, old.At(0), nil, 0))
	} else {
		vEnsures("one notification", vTraceLen() == n+2 && isNotify(1+n, REMOVE_MANY, -1))
		vals, ok := vEvArg(1+n, 1).([]any)
		vEnsures("with the removed elements", ok && sameSeq(vals, old))
	}
}

// @property C16
// @inv nl removerange sl
func spec_StoreList_RemoveRange(l *vmSL, st *vmStore, from, to int) {
	vRequires(wfSL(l, st))
	old, req, cached := slSeq(l, st), slRequired(l), l.data != nil
	p := vCall(func() { l.RemoveRange(from, to) })
	if p {
		vEnsures("panics only on bad bounds", from < 0 || from >= old.Len() || to < from || to > old.Len())
		vEnsures("a panic changes nothing", vTraceLen() == 0 && sameSeq(slData(l, st), old))
		slKept(l, st, cached)
		return
	}
	n := to - from
	vEnsures("removes the range", removedRange(slData(l, st), old, from, to))
	slKept(l, st, cached)
	vEnsures("each element is announced", vForall(0, n, func(j int) bool {
		return cached && vEvent(n-1-j, evDidRemove, old.At(from+j)) || !cached && vEvent(j, evDidRemove, old.At(from+j))
	}))
	vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(n+j, evInverseRem, old.At(from+j)) }))
	if !req || n == 0 {
		vEnsures("not notified", vTraceLen() == 2*n)
	} else if n == 1 {
		vEnsures("one correct notification", nlNotified(2, true, REMOVE, old.At(from), nil, from))
	} else {
		vEnsures("one notification", vTraceLen() == 2*n+1 && isNotify(2*n, REMOVE_MANY, from))
		vals, ok := vEvArg(2*n, 1).([]any)
		vEnsures("with the removed elements", ok && len(vals) == n && vForall(0, n, func(j int) bool { return vals[j] == old.At(from+j) }))
		ps, ok := vEvArg(2*n, 2).([]any)
		vEnsures("and their positions", ok && len(ps) == n && vForall(0, n, func(j int) bool { return ps[j] == any(from+j) }))
	}
}

func slShrunk(st *vmStore, from, k int) bool {
	return vSame(st.data, vOldLoop(func() []any { return st.data[:len(st.data)-k] })) && vForall(0, len(st.data), func(j int) bool {
		if j < from {
			return st.data[j] == vOldLoop(func() any { return st.data[j] })
		}
		return st.data[j] == vOldLoop(func() any { return st.data[j+k] })
	})
}

func inv_EStoreList_performRemoveRange_1__sl(fromIndex, toIndex, i int, result []any, unit_l *vmSL, unit_st *vmStore) bool {
	k := i - fromIndex
	st := unit_st
	t := vOldLoop(func() int { return vTraceLen() })
	return i >= fromIndex && i <= toIndex && slShrunk(st, fromIndex, k) && unit_l.data == nil &&
		len(result) == k && vSep(result, st.data) && vTraceLen() == t+k &&
		vForall(0, k, func(j int) bool {
			return result[j] == vOldLoop(func() any { return st.data[fromIndex+j] }) && vEvent(t+j, evDidRemove, result[j])
		})
}

func inv_EStoreList_performRemoveRange_2__sl(fromIndex, toIndex, i int, result []any, unit_l *vmSL, unit_st *vmStore) bool {
	k := i - fromIndex
	l, st := unit_l, unit_st
	return i >= fromIndex && i <= toIndex && slShrunk(st, fromIndex, k) && vSep(l.data, st.data) && vSep(result, st.data) &&
		vForall(0, len(l.data), func(j int) bool { return l.data[j] == vOldLoop(func() any { return l.data[j] }) }) &&
		vForall(0, len(result), func(j int) bool { return result[j] == vOldLoop(func() any { return result[j] }) })
}

func inv_BasicEList_doRemoveRange_1__sl(objects []any, fromIndex, toIndex, i int) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	k := toIndex - 1 - i
	return i >= fromIndex-1 && i < toIndex && vTraceLen() == t+k &&
		vForall(0, k, func(j int) bool { return vEvent(t+j, evDidRemove, objects[toIndex-1-fromIndex-j]) })
}

// @property C16
// @inv nl addall sl
// @budget 200
func spec_StoreList_InsertAll(l *vmSL, st *vmStore, i int, c *immutableEList) {
	vRequires(wfSL(l, st) && (l.data == nil || l.store == nil))
	slInsertAll(l, st, i, c, false)
}

// @property C16
// @inv nl addall sl
// @budget 300
func spec_StoreList_InsertAllCached(l *vmSL, st *vmStore, i int, c *immutableEList) {
	vRequires(wfSL(l, st) && l.data != nil && l.store != nil)
	slInsertAll(l, st, i, c, false)
}

// @property C16
// @inv nl addall sl
func spec_StoreList_AddAll(l *vmSL, st *vmStore, c *immutableEList) {
	vRequires(wfSL(l, st) && (l.data == nil || l.store == nil))
	slInsertAll(l, st, 0, c, true)
}

func slInsertAll(l *vmSL, st *vmStore, i int, c *immutableEList, last bool) {
	vRequires(vSep(l.data, c.data) && vSep(st.data, c.data) && l.notifier == nil)
	old, arg, cached := slSeq(l, st), vSnap(c.data), l.data != nil
	p := vCall(func() {
		if last {
			l.AddAll(c)
		} else {
			l.InsertAll(i, c)
		}
	})
	if last {
		i = old.Len()
	}
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if !p {
		n := arg.Len()
		vEnsures("inserts the elements", insertedAll(slData(l, st), old, i, arg))
		vEnsures("each element is announced", vForall(0, n, func(j int) bool { return vEvent(j, evDidAdd, i+j, arg.At(j)) }))
		vEnsures("the inverses are told", vForall(0, n, func(j int) bool { return vEvent(n+j, evInverseAdd, arg.At(j)) }) && vTraceLen() == 2*n)
	}
	slKept(l, st, cached)
}

func inv_BasicEList_doInsertAll_1__sl(data []any, index, k_ int) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	return vTraceLen() == t+k_ && vForall(0, k_, func(j int) bool { return vEvent(t+j, evDidAdd, index+j, data[j]) })
}

func inv_EStoreList_performInsertAll_1__sl(index, old_index int, k_ int, unit_c *immutableEList) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	return index == old_index+k_ && vTraceLen() == t+k_ &&
		vForall(0, k_, func(j int) bool { return vEvent(t+j, evDidAdd, old_index+j, unit_c.data[j]) })
}

// What is read is what is kept.
//
// @property C16
// @inv nl
func spec_StoreList_Read(l *vmSL, st *vmStore, i int) {
	vRequires(wfSL(l, st))
	old, cached := slSeq(l, st), l.data != nil
	var r any
	p := vCall(func() { r = l.Get(i) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	vEnsures("the element", p || r == old.At(i))
	vEnsures("counts them", l.Size() == old.Len() && l.Empty() == (old.Len() == 0))
	vEnsures("as an array", sameSeq(l.ToArray(), old))
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

// An element is found where it would be found in memory.
//
// @property C16
// @inv find
func spec_StoreList_IndexOf(l *vmSL, st *vmStore, x any) {
	vRequires(wfSL(l, st))
	old, cached := slSeq(l, st), l.data != nil
	r := l.IndexOf(x)
	vEnsures("first index", r == -1 && !inSeq(old, x) || r >= 0 && r < old.Len() && old.At(r) == x &&
		vForall(0, r, func(i int) bool { return old.At(i) != x }))
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

// @property C16
// @inv find
func spec_StoreList_Contains(l *vmSL, st *vmStore, x any) {
	vRequires(wfSL(l, st))
	old, cached := slSeq(l, st), l.data != nil
	vEnsures("membership", l.Contains(x) == inSeq(old, x))
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

func inv_EStoreList_IndexOf_1__find(list *EStoreList, element any, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return list.data[i] != element })
}

func inv_vmStore_IndexOf_1__find(s *vmStore, x any, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return s.data[i] != x })
}

// Ranging over the list visits its elements in order until the consumer stops.
//
// @property C16
// @inv visit
func spec_StoreList_All(l *vmSL, st *vmStore, stop int) {
	vRequires(wfSL(l, st))
	old, cached := slSeq(l, st), l.data != nil
	got := []any{}
	l.All()(func(x any) bool {
		got = append(append([]any{}, got...), x)
		return len(got) != stop
	})
	vEnsures("visits the elements in order", vForall(0, len(got), func(i int) bool { return got[i] == old.At(i) }))
	vEnsures("stops when asked", stop > 0 && stop <= old.Len() && len(got) == stop || (stop <= 0 || stop > old.Len()) && len(got) == old.Len())
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

func inv_EStoreList_All_1__visit(list *EStoreList, k_ int, got []any, stop int) bool {
	return len(got) == k_ && (stop <= 0 || k_ < stop) && vForall(0, k_, func(j int) bool { return got[j] == list.data[j] })
}

func inv_EStoreList_All_2__visit(i, k_ int, got []any, stop int, unit_st *vmStore) bool {
	return i == k_ && len(got) == k_ && (stop <= 0 || k_ < stop) && vForall(0, k_, func(j int) bool { return got[j] == unit_st.data[j] })
}

// The unresolved view shows what is kept, proxies included, and resolves nothing.
//
// @property C16
func spec_StoreList_Unresolved(l *vmSL, st *vmStore, i int) {
	vRequires(wfSLM(l, st) && i >= 0 && i < l.size)
	old, cached := slSeq(l, st), l.data != nil
	l.object = true
	u := l.GetUnResolvedList()
	if !l.proxies {
		vEnsures("nothing to resolve, so itself", u == EList(&l.EStoreList))
		return
	}
	vEnsures("the element as it is kept", u.Get(i) == old.At(i))
	vEnsures("counts them", u.Size() == old.Len() && !u.Empty())
	vEnsures("as an array", sameSeq(u.ToArray(), old))
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

// @property C16
// @inv unresl
func spec_StoreList_UnresolvedIndexOf(l *vmSL, st *vmStore, x any) {
	vRequires(wfSLM(l, st))
	l.object, l.proxies = true, true
	old, cached := slSeq(l, st), l.data != nil
	r := l.GetUnResolvedList().IndexOf(x)
	vEnsures("where it is kept", r == -1 && !inSeq(old, x) || r >= 0 && r < old.Len() && old.At(r) == x &&
		vForall(0, r, func(i int) bool { return old.At(i) != x }))
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

func inv_AbstractEList_IndexOf_1__unresl(list *AbstractEList, elem any, i int, it EIterator, unit_l *vmSL, unit_st *vmStore) bool {
	li := it.(*listIterator)
	d := unit_st.data
	if unit_l.data != nil {
		d = unit_l.data
	}
	return any(li.list) == list.interfaces && li.cursor == i && i >= 0 && i <= len(d) && vLockFree(&unit_l.mutex) && vForall(0, i, func(j int) bool { return d[j] != elem })
}

// Ranging over the view of a list that is only in its store.
//
// @property C16
// @inv unresv
func spec_StoreList_UnresolvedAll(l *vmSL, st *vmStore, stop int) {
	vRequires(wfSLM(l, st) && l.data == nil)
	l.object, l.proxies = true, true
	old, cached := slSeq(l, st), l.data != nil
	got := []any{}
	l.GetUnResolvedList().All()(func(x any) bool {
		got = append(append([]any{}, got...), x)
		return len(got) != stop
	})
	vEnsures("visits the elements in order", vForall(0, len(got), func(i int) bool { return got[i] == old.At(i) }))
	vEnsures("stops when asked", stop > 0 && stop <= old.Len() && len(got) == stop || (stop <= 0 || stop > old.Len()) && len(got) == old.Len())
	vEnsures("changes nothing", sameSeq(slData(l, st), old) && vTraceLen() == 0)
	slKept(l, st, cached)
}

func inv_vmStore_All_1__unresv(s *vmStore, k_ int, got []any, stop int) bool {
	return len(got) == k_ && (stop <= 0 || k_ < stop) && vForall(0, k_, func(j int) bool { return got[j] == s.data[j] })
}

// vmCP is an element that can keep its values in a cache of its own.
type vmCP struct{ ECacheProvider }

func (c *vmCP) SetCache(on bool) { vEmit(evCache, c, on) }

// Turning the cache on or off keeps what the list holds.
//
// @property C16
// @inv cache
func spec_StoreList_SetCache(l *vmSL, st *vmStore, on bool) {
	vRequires(wfSL(l, st))
	old, was := slSeq(l, st), l.cache
	vRequires(vForall(0, old.Len(), func(j int) bool {
		c, ok := old.At(j).(*vmCP)
		return ok && c != nil
	}))
	l.SetCache(on)
	vEnsures("holds the same", sameSeq(slData(l, st), old))
	slKept(l, st, on || l.store == nil)
	vEnsures("remembers it", l.cache == on)
	if on != was {
		vEnsures("its elements do the same", vTraceLen() == old.Len() &&
			vForall(0, old.Len(), func(j int) bool { return vEvent(j, evCache, old.At(j), on) }))
	} else {
		vEnsures("nothing to do", vTraceLen() == 0)
	}
}

func inv_EStoreList_SetCache_1__cache(data []any, cache bool, k_ int) bool {
	t := vOldLoop(func() int { return vTraceLen() })
	return vTraceLen() == t+k_ && vForall(0, k_, func(j int) bool { return vEvent(t+j, evCache, data[j], cache) })
}

// ---- references ----

// vmSO owns a list of references and resolves proxies.
type vmSO struct {
	EObjectInternal
	to EObject
}

func (o *vmSO) EResolveProxy(x EObject) EObject {
	vEmit(evResolved, x)
	return o.to
}

type vmSC struct{ vmAnyClass }

func (c *vmSC) GetFeatureID(f EStructuralFeature) int { return f.(*vmSRef).id }

type vmSRef struct {
	EReference
	id                              int
	opp                             *vmSRef
	many, contains, resolve, unique bool
	trans                           bool
}

func (f *vmSRef) GetEOpposite() EReference {
	if f.opp == nil {
		return nil
	}
	return f.opp
}
func (f *vmSRef) GetFeatureID() int      { return f.id }
func (f *vmSRef) IsContainment() bool    { return f.contains }
func (f *vmSRef) IsResolveProxies() bool { return f.resolve }
func (f *vmSRef) IsUnsettable() bool     { return false }
func (f *vmSRef) IsUnique() bool         { return f.unique }
func (f *vmSRef) IsMany() bool           { return f.many }
func (f *vmSRef) IsTransient() bool      { return f.trans }

// vmSE is an element that records what the list tells it.
type vmSE struct {
	EObjectInternal
	proxy     bool
	class     *vmSC
	contained bool
}

func (e *vmSE) EIsProxy() bool { return e.proxy }
func (e *vmSE) EClass() EClass { return e.class }
func (e *vmSE) EInternalContainer() EObject {
	if e.contained {
		return e
	}
	return nil
}
func (e *vmSE) EInverseAdd(o EObject, id int, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseAdd, e, o, id)
	return ns
}
func (e *vmSE) EInverseRemove(o EObject, id int, ns ENotificationChain) ENotificationChain {
	vEmit(evInverseRem, e, o, id)
	return ns
}

// A list of references tells the other side what the reference asks for.
//
// @property C16
func spec_StoreList_Inverse(l *EStoreList, st *vmStore, f *vmSRef, e *vmSE, stored, add, other bool) {
	vRequires(vLockFree(&l.mutex) && vTraceLen() == 0 && e.class != nil)
	var s EStore
	if stored {
		st.feature = f
		s = st
	}
	l.Initialize(st.owner, f, s)
	vEnsures("knows its reference", l.object && l.containment == f.contains && l.proxies == f.resolve && l.isUnique == f.unique)
	var x any = e
	if other {
		x = "an attribute"
	}
	var ns ENotificationChain
	if add {
		ns = l.inverseAdd(x, nil)
	} else {
		ns = l.inverseRemove(x, nil)
	}
	k := evInverseRem
	if add {
		k = evInverseAdd
	}
	vEnsures("nothing to send", ns == nil)
	switch {
	case other || f.opp == nil && !f.contains:
		vEnsures("nobody is told", vTraceLen() == 0)
	case f.opp != nil:
		vEnsures("the opposite is told", vTraceLen() == 1 && vEvent(0, k, e, st.owner, f.opp.id))
	default:
		vEnsures("the containment is told", vTraceLen() == 1 && vEvent(0, k, e, st.owner, EOPPOSITE_FEATURE_BASE-f.id))
	}
}

// Reading a proxy resolves it, says so once, and keeps the proxy in the store.
//
// @property C16
func spec_StoreList_GetProxy(l *vmSL, st *vmStore, o *vmSO, e, q *vmSE, i int, known bool) {
	vRequires(wfSLM(l, st) && i >= 0 && i < l.size)
	l.object, l.owner, st.owner, o.to = true, o, o, e
	if l.data != nil {
		l.data[i] = e
	}
	if l.store != nil {
		st.data[i] = e
	}
	if known {
		o.to = q
	}
	req, cached, data := slRequired(l), l.data != nil, vSnap(st.data)
	old := slSeq(l, st)
	r := l.Get(i)
	vEnsures("the store keeps the proxy", l.store == nil || sameSeq(st.data, data))
	vEnsures("nothing stays locked", vLockFree(&l.mutex) && l.size == old.Len())
	if !l.proxies || !e.proxy {
		vEnsures("the element", r == any(e) && vTraceLen() == 0)
		return
	}
	vEnsures("is resolved", r == any(o.to) && vEvent(0, evResolved, e))
	if o.to == EObject(e) {
		vEnsures("nothing known, nothing done", vTraceLen() == 1 && (!cached || sameSeq(l.data, old)))
		return
	}
	if cached {
		vEnsures("is kept", len(l.data) == old.Len() && l.data[i] == any(q) &&
			vForall(0, len(l.data), func(j int) bool { return j == i || l.data[j] == old.At(j) }))
	}
	k := 1
	if l.containment {
		vEnsures("the proxy is let go", vEvent(1, evInverseRem, e))
		k = 2
		if !q.contained {
			vEnsures("what it stood for is taken", vEvent(2, evInverseAdd, q))
			k = 3
		}
	}
	vEnsures("announced once", nlNotified(k, req, RESOLVE, e, q, i))
}

// What a proxy stands for is found where the proxy is kept.
//
// @property C16
// @inv find
func spec_StoreList_FindProxy(l *vmSL, st *vmStore, o *vmSO, to, x *vmSE) {
	vRequires(wfSLM(l, st) && l.data == nil && vForall(0, len(st.data), func(j int) bool {
		e, ok := st.data[j].(*vmSE)
		return ok && e != nil
	}))
	l.object, l.owner, st.owner, o.to = true, o, o, to
	old := slSeq(l, st)
	at := func(j int) bool {
		e := old.At(j).(*vmSE)
		return e == x || l.proxies && e.proxy && to == x
	}
	r := l.IndexOf(x)
	vEnsures("found where it is kept", r == -1 && vForall(0, old.Len(), func(j int) bool { return !at(j) }) || r >= 0 && r < old.Len() && at(r))
	vEnsures("membership", l.Contains(x) == (r >= 0))
	vEnsures("changes nothing", sameSeq(st.data, old))
	slKept(l, st, false)
}

func slNotYet(list *EStoreList, st *vmStore, o *vmSO, element any, n int) bool {
	return vForall(0, n, func(j int) bool {
		e := st.data[j].(*vmSE)
		return any(e) != element && !(list.proxies && e.proxy && any(o.to) == element)
	})
}

func inv_EStoreList_IndexOf_2__find(list *EStoreList, element any, k_ int, unit_st *vmStore) bool {
	return slNotYet(list, unit_st, list.owner.(*vmSO), element, k_)
}

func inv_EStoreList_Contains_1__find(list *EStoreList, element any, k_ int, unit_st *vmStore) bool {
	return slNotYet(list, unit_st, list.owner.(*vmSO), element, k_)
}

// @property C16
func spec_StoreList_LeaveStore(l *vmSL, st *vmStore) {
	vRequires(wfSL(l, st))
	old, hadStore, data := slSeq(l, st), l.store != nil, vSnap(st.data)
	l.SetEStore(nil)
	vEnsures("is in memory", l.store == nil && l.data != nil && l.GetEStore() == nil)
	vEnsures("holds the same", sameSeq(l.data, old) && l.size == old.Len())
	vEnsures("the store is left alone", !hadStore || sameSeq(st.data, data))
	vEnsures("nothing stays locked", vLockFree(&l.mutex) && vTraceLen() == 0)
}

// Another store that holds the same takes over.
//
// @property C16
func spec_StoreList_ChangeStore(l *vmSL, st, to *vmStore) {
	vRequires(wfSL(l, st) && to != st && to.owner == l.owner && to.feature == l.feature && vSep(l.data, to.data) && vSep(st.data, to.data))
	old := slSeq(l, st)
	vRequires(sameSeq(to.data, old) && (l.store != nil || (l.data != nil) == l.cache || !l.cache))
	cache := l.cache
	l.SetEStore(to)
	vEnsures("answers from the new store", l.store == EStore(to) && sameSeq(slData(l, to), old))
	slKept(l, to, cache)
}

// A list starts with what its store holds, and knows what its feature asks for.
//
// @property C16
func spec_StoreList_Initialize(l *vmSL, st *vmStore, stored bool) {
	vRequires(vLockFree(&l.mutex) && st.feature != nil)
	f, ok := st.feature.(*vmSFU)
	vRequires(ok && f != nil)
	if stored {
		l.Initialize(st.owner, f, st)
		vEnsures("holds what the store holds", l.store == EStore(st) && l.data == nil && l.size == len(st.data))
	} else {
		l.Initialize(st.owner, f, nil)
		vEnsures("is empty", l.store == nil && l.data != nil && len(l.data) == 0 && l.size == 0)
	}
	vEnsures("belongs to the feature", l.owner == st.owner && l.feature == EStructuralFeature(f) && l.isUnique == f.unique && !l.cache)
	vEnsures("an attribute has no inverse", !l.object && !l.containment && !l.inverse && !l.opposite && !l.proxies)
}

type vmSFU struct {
	EStructuralFeature
	unique bool
}

func (f *vmSFU) IsUnique() bool { return f.unique }

func vgen_vmSC(t *vTape) *vmSC { return &vmSC{} }
func vgen_vmCP(t *vTape) *vmCP { return &vmCP{} }
func vgen_vmSO(t *vTape) *vmSO { return &vmSO{} }
func vgen_vmSE(t *vTape) *vmSE {
	return &vmSE{proxy: !t.Bool(), class: &vmSC{}, contained: t.Bool()}
}
func vgen_vmSRef(t *vTape) *vmSRef {
	f := &vmSRef{id: t.Choose(3), contains: t.Bool(), resolve: t.Bool(), unique: t.Bool()}
	if t.Bool() {
		f.opp = &vmSRef{id: t.Choose(3)}
	}
	return f
}
func vgen_vmStore(t *vTape) *vmStore {
	st := &vmStore{owner: &vmO{}, feature: &vmSFU{unique: t.Bool()}, data: t.Anys(3)}
	for _, x := range t.objs {
		l, ok := x.(*vmSL)
		if !ok {
			continue
		}
		if first, ok := l.store.(*vmStore); ok {
			st.owner, st.feature, st.data = l.owner, l.feature, append([]any{}, first.data...)
		} else if l.data == nil {
			l.store, l.owner, l.feature, l.size = st, st.owner, st.feature, len(st.data)
			if l.cache {
				l.data = append([]any{}, st.data...)
			}
		}
	}
	return st
}

func vgen_EStoreList(t *vTape) *EStoreList { return &EStoreList{} }

func vgen_vmSL(t *vTape) *vmSL {
	l := &vmSL{}
	l.interfaces = l
	if !t.Bool() {
		l.notifier = vgen_vmNotifier(t)
	}
	l.cache, l.proxies, l.containment = t.Bool(), t.Choose(4) == 1, t.Bool()
	if t.Choose(3) == 1 {
		l.data = t.Anys(3)
		l.size = len(l.data)
	}
	t.Keep(l)
	return l
}

func (l *vmSL) vShow() string {
	return "list in a store (cache=" + vStr(l.cache) + ") " + vStr(l.data)
}

// ---- objects in a store ----

// vmSFO is a feature; what the store holds for it is kept beside it.
type vmSFO struct {
	EStructuralFeature
	trans, many, set bool
	val              any
}

func (f *vmSFO) IsTransient() bool { return f.trans }
func (f *vmSFO) IsMany() bool      { return f.many }

// vmSOC is a class of any number of features.
type vmSOC struct {
	vmAnyClass
	fs []*vmSFO
}

func (c *vmSOC) GetFeatureCount() int                           { return len(c.fs) }
func (c *vmSOC) GetEStructuralFeature(i int) EStructuralFeature { return c.fs[i] }

// vmSOS is the store of one object.
type vmSOS struct {
	EStore
	owner EObject
	asked int
}

func (s *vmSOS) Get(o EObject, f EStructuralFeature, i int) any {
	vAssert("of this object", o == s.owner && i == NO_INDEX)
	return f.(*vmSFO).val
}
func (s *vmSOS) IsSet(o EObject, f EStructuralFeature) bool {
	vAssert("of this object", o == s.owner)
	return f.(*vmSFO).set
}
func (s *vmSOS) Set(o EObject, f EStructuralFeature, i int, v any, need bool) any {
	vAssert("of this object", o == s.owner && i == NO_INDEX)
	x := f.(*vmSFO)
	old := x.val
	x.val, x.set = v, v != nil
	if need {
		return old
	}
	return nil
}
func (s *vmSOS) UnSet(o EObject, f EStructuralFeature) {
	vAssert("of this object", o == s.owner)
	x := f.(*vmSFO)
	x.val, x.set = nil, false
}

func isListAny(x any) bool {
	_, ok := x.(EList)
	return ok
}

// wfSOV: what the object keeps itself for feature f agrees with its store.
func wfSOV(o *EStoreEObjectImpl, f *vmSFO, v any) bool {
	if isListAny(v) || isListAny(f.val) {
		return false
	}
	if o.store == nil || f.trans {
		return !f.set && f.val == nil
	}
	if o.cache {
		return (v == nil || v == f.val) && f.set == (f.val != nil)
	}
	return v == nil && f.set == (f.val != nil)
}

func wfSO(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i int) bool {
	if o.interfaces != any(o) || o.class != EClass(c) || i < 0 || i >= len(c.fs) || !vLockFree(&o.mutex) {
		return false
	}
	if o.store != nil && (o.store != EStore(st) || st.owner != EObject(o)) {
		return false
	}
	f := c.fs[i]
	if f == nil || f.many {
		return false
	}
	if o.properties == nil {
		return wfSOV(o, f, nil)
	}
	return len(o.properties) == len(c.fs) && wfSOV(o, f, o.properties[i])
}

// soValue: what the object holds for feature i.
func soValue(o *EStoreEObjectImpl, f *vmSFO, i int) any {
	if o.properties != nil && o.properties[i] != nil {
		return o.properties[i]
	}
	return f.val
}

// What is set is kept, in the store and in the cache, and is what is read.
//
// @property C16
func spec_StoreObject_Set(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i, j int, v any) {
	vRequires(wfSO(o, c, st, i) && wfSO(o, c, st, j) && c.fs[i] != c.fs[j] && !isListAny(v))
	f, g := c.fs[i], c.fs[j]
	other := soValue(o, g, j)
	o.EDynamicSet(i, v)
	vEnsures("is kept", soValue(o, f, i) == v)
	vEnsures("goes to the store", o.store == nil || f.trans || f.val == v && f.set == (v != nil))
	vEnsures("a transient value does not", o.store != nil && !f.trans || f.val == nil && !f.set)
	vEnsures("the others stay", soValue(o, g, j) == other)
	vEnsures("store and cache agree", wfSO(o, c, st, i) && wfSO(o, c, st, j))
	vEnsures("is read", o.EDynamicGet(i) == v)
	vEnsures("is set", v == nil || o.EDynamicIsSet(i))
	vEnsures("nothing stays locked", vLockFree(&o.mutex))
}

// @property C16
func spec_StoreObject_Get(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i int) {
	vRequires(wfSO(o, c, st, i))
	f := c.fs[i]
	v, val := soValue(o, f, i), f.val
	vEnsures("is set if something is kept", o.EDynamicIsSet(i) == (v != nil))
	vEnsures("what is kept", o.EDynamicGet(i) == v)
	vEnsures("a second time", o.EDynamicGet(i) == v)
	vEnsures("the store is left alone", f.val == val)
	vEnsures("store and cache agree", wfSO(o, c, st, i))
	vEnsures("is cached if asked for", !o.cache || o.store == nil || f.trans || o.properties != nil && o.properties[i] == v)
}

// @property C16
func spec_StoreObject_Unset(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i, j int) {
	vRequires(wfSO(o, c, st, i) && wfSO(o, c, st, j) && c.fs[i] != c.fs[j])
	f, g := c.fs[i], c.fs[j]
	other := soValue(o, g, j)
	o.EDynamicUnset(i)
	vEnsures("is gone", f.val == nil && !f.set && o.EDynamicGet(i) == nil && !o.EDynamicIsSet(i))
	vEnsures("the others stay", soValue(o, g, j) == other)
	vEnsures("store and cache agree", wfSO(o, c, st, i) && wfSO(o, c, st, j))
}

// Turning the cache on or off keeps what is stored.
//
// @property C16
// @inv socache
func spec_StoreObject_SetCache(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i int, on bool) {
	vRequires(wfSO(o, c, st, i) && vTraceLen() == 0)
	f := c.fs[i]
	vRequires(!f.trans && (o.properties == nil || vForall(0, len(o.properties), func(j int) bool {
		p, ok := o.properties[j].(*vmCP)
		return ok && p != nil
	})))
	v := soValue(o, f, i)
	o.SetCache(on)
	vEnsures("keeps what it holds", soValue(o, f, i) == v && o.EDynamicGet(i) == v)
	vEnsures("remembers it", o.cache == on && o.IsCache() == on)
	vEnsures("store and cache agree", wfSO(o, c, st, i))
}

func inv_EStoreEObjectImpl_SetCache_1__socache() bool { return true }

// Leaving the store brings the values home.
//
// @property C16
// @inv soleave
func spec_StoreObject_LeaveStore(o *EStoreEObjectImpl, c *vmSOC, st *vmSOS, i int) {
	vRequires(wfSO(o, c, st, i) && o.store != nil && !o.cache && !c.fs[i].trans)
	vRequires(vForall(0, len(c.fs), func(j int) bool { return c.fs[j] != nil }))
	f := c.fs[i]
	v := soValue(o, f, i)
	o.SetEStore(nil)
	vEnsures("has no store", o.store == nil && o.GetEStore() == nil)
	vEnsures("keeps its values", o.properties != nil && o.properties[i] == v && o.EDynamicGet(i) == v)
	vEnsures("the store is left alone", f.val == v)
}

func inv_EStoreEObjectImpl_SetEStore_1__soleave(o *EStoreEObjectImpl, k_ int, unit_c *vmSOC, unit_i int) bool {
	i, f := unit_i, unit_c.fs[unit_i]
	return len(o.properties) == len(unit_c.fs) && vSame(o.properties, vOldLoop(func() []any { return o.properties })) && (k_ <= i || o.properties[i] == f.val)
}

func vgen_vmSOC(t *vTape) *vmSOC {
	c := &vmSOC{}
	for k := 1 + t.Choose(3); k > 0; k-- {
		c.fs = append(c.fs, &vmSFO{trans: t.Choose(3) == 1, many: t.Choose(6) == 1})
	}
	for _, x := range t.objs {
		if o, ok := x.(*EStoreEObjectImpl); ok {
			o.class = c
		}
	}
	t.Keep(c)
	return c
}

func vgen_EStoreEObjectImpl(t *vTape) *EStoreEObjectImpl {
	o := NewEStoreEObjectImpl(t.Bool())
	t.Keep(o)
	return o
}

func vgen_vmSOS(t *vTape) *vmSOS {
	s := &vmSOS{}
	var o *EStoreEObjectImpl
	for _, x := range t.objs {
		switch x := x.(type) {
		case *EStoreEObjectImpl:
			o = x
		case *vmSOC:
			s.owner = o
			if !t.Bool() {
				o.store = s
				for _, f := range x.fs {
					if !f.trans && t.Bool() {
						f.val, f.set = t.Choose(3), true
					}
				}
			}
			if t.Bool() {
				o.properties = make([]any, len(x.fs))
				for i, f := range x.fs {
					if o.store == nil || f.trans {
						if t.Bool() {
							o.properties[i] = t.Choose(3)
						}
					} else if o.cache && t.Bool() {
						o.properties[i] = f.val
					}
				}
			}
		}
	}
	return s
}

// ---- containers in a store ----

type vmSPC struct {
	vmAnyClass
	f *vmSRef
}

func (c *vmSPC) GetFeatureID(f EStructuralFeature) int {
	if f == EStructuralFeature(c.f) {
		return c.f.id
	}
	return -1
}
func (c *vmSPC) GetEStructuralFeature(id int) EStructuralFeature {
	if id == c.f.id {
		return c.f
	}
	return nil
}

type vmSP struct {
	EObjectInternal
	class *vmSPC
}

func (p *vmSP) EClass() EClass { return p.class }

// vmSCS is a store that knows the container of one object.
type vmSCS struct {
	EStore
	of   EObject
	cont EObject
	feat EStructuralFeature
}

func (s *vmSCS) SetContainer(o, c EObject, f EStructuralFeature) {
	vAssert("of this object", o == s.of)
	s.cont, s.feat = c, f
}
func (s *vmSCS) GetContainer(o EObject) (EObject, EStructuralFeature) {
	vAssert("of this object", o == s.of)
	return s.cont, s.feat
}

// soContained: o's container is p, through p's feature f, as the store puts it.
func soFeatureID(f *vmSRef) int {
	if f.opp != nil {
		return f.opp.id
	}
	return EOPPOSITE_FEATURE_BASE - f.id
}

// The container of an object is told to its store, with the feature it is held by.
//
// @property C16
func spec_StoreObject_Container(o *EStoreEObjectImpl, c *vmSPC, p *vmSP, q *vmSPC, f *vmSRef, st *vmSCS, has, two bool) {
	p.class, q.f = q, f
	if two {
		vRequires(c.f != nil && c.f.id >= 0)
		f.opp, c.f.opp = c.f, f
	} else {
		f.opp = nil
	}
	vRequires(c != q && f.id >= 0 && f.id < 1000 && (!two || c.f != f && c.f.id < 1000) && vLockFree(&o.mutex) && unitializedContainer != nil && unitializedContainer != EObject(p))
	o.interfaces, o.class, o.store, st.of = o, c, st, o
	if !has {
		o.ESetInternalContainer(nil, -1)
		vEnsures("the store is told", st.cont == nil && st.feat == nil)
		vEnsures("has none", o.EInternalContainer() == nil)
		return
	}
	o.ESetInternalContainer(p, soFeatureID(f))
	vEnsures("the store is told", st.cont == EObject(p) && st.feat == EStructuralFeature(f))
	vEnsures("is kept", o.EInternalContainer() == EObject(p) && o.EInternalContainerFeatureID() == soFeatureID(f))
}

// An object that does not know its container asks its store, once.
//
// @property C16
func spec_StoreObject_FindContainer(o *EStoreEObjectImpl, c *vmSPC, p *vmSP, q *vmSPC, f *vmSRef, st *vmSCS, has, two, stored bool) {
	p.class, q.f = q, f
	if two {
		vRequires(c.f != nil && c.f.id >= 0)
		f.opp, c.f.opp = c.f, f
	} else {
		f.opp = nil
	}
	vRequires(c != q && f.id >= 0 && f.id < 1000 && (!two || c.f != f && c.f.id < 1000) && vLockFree(&o.mutex) && unitializedContainer != nil && unitializedContainer != EObject(p))
	o.interfaces, o.class, o.store, st.of = o, c, nil, o
	st.cont, st.feat = nil, nil
	if has {
		st.cont, st.feat = p, f
	}
	o.container = unitializedContainer
	if stored {
		o.store = st
	}
	r, id := o.EInternalContainer(), o.EInternalContainerFeatureID()
	if has && stored {
		vEnsures("finds its container", r == EObject(p) && id == soFeatureID(f))
	} else {
		vEnsures("has none", r == nil)
	}
	st.cont, st.feat = nil, nil
	vEnsures("keeps it", o.EInternalContainer() == r)
}

func vgen_vmSPC(t *vTape) *vmSPC { return &vmSPC{f: vgen_vmSRef(t)} }
func vgen_vmSP(t *vTape) *vmSP   { return &vmSP{} }
func vgen_vmSCS(t *vTape) *vmSCS { return &vmSCS{} }
