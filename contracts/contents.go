package ecore

// ---- contents and cross references as one list ----

// vmSlot is a feature with what the holder stores for it: a list, a list of objects
// with an unresolved view, or a single value.
type vmSlot struct {
	EReference
	many, set, obj bool
	value, stored  any
	list, raw      *immutableEList
	objs           *vmObjs
}

func (f *vmSlot) IsMany() bool { return f.many }

type vmObjs struct {
	EObjectList
	list, raw *immutableEList
}

func (l *vmObjs) Iterator() EIterator      { return l.list.Iterator() }
func (l *vmObjs) GetUnResolvedList() EList { return l.raw }
func (l *vmObjs) Size() int                { return len(l.raw.data) }
func (l *vmObjs) Empty() bool              { return len(l.raw.data) == 0 }

// vmHolder is an object with these features; all is what they hold together (ghost).
type vmHolder struct {
	EObject
	feats *immutableEList
	all   []any
}

func (o *vmHolder) EIsSet(f EStructuralFeature) bool { return f.(*vmSlot).set }
func (o *vmHolder) EGetResolve(f EStructuralFeature, resolve bool) any {
	s := f.(*vmSlot)
	if s.many {
		if s.obj {
			return s.objs
		}
		return s.list
	}
	if resolve {
		return s.value
	}
	return s.stored
}

func slots(l *eContentsList) []any { return l.o.(*vmHolder).feats.data }

func slotLen(s *vmSlot) int {
	if !s.set {
		return 0
	}
	if s.many {
		return len(s.list.data)
	}
	return b2i(s.value != nil)
}

func slotList(l *eContentsList, s *vmSlot) []any {
	if s.obj && !l.resolve {
		return s.raw.data
	}
	return s.list.data
}

func slotValue(l *eContentsList, s *vmSlot) any {
	if l.resolve {
		return s.value
	}
	return s.stored
}

func okSlot(x any) bool {
	s, ok := x.(*vmSlot)
	return ok && s != nil && s.list != nil && s.raw != nil && s.objs != nil && s.objs.list == s.list && s.objs.raw == s.raw &&
		len(s.raw.data) == len(s.list.data) && (s.value == nil) == (s.stored == nil)
}

// upTo: how many elements the first k features hold
func upTo(l *eContentsList, k int) int { return vPure(upTo1(l, k)) }

func upTo1(l *eContentsList, k int) int {
	o := l.o.(*vmHolder)
	return vSum(k, func(i int) int { return vOld(func() int { return slotLen(o.feats.data[i].(*vmSlot)) }) })
}

// contents makes l the contents list of o for the features f.
func contents(l *eContentsList, o *vmHolder) {
	vRequires(o.feats != nil)
	l.o, l.features = o, o.feats
	vRequires(wfContents(l))
}

func wfContents(l *eContentsList) bool {
	f, o := l.o.(*vmHolder).feats, l.o.(*vmHolder)
	return vForall(0, len(f.data), func(i int) bool { return okSlot(f.data[i]) }) && len(o.all) == upTo(l, len(f.data)) &&
		vForall(0, len(f.data), func(i int) bool {
			s := f.data[i].(*vmSlot)
			at := upTo(l, i)
			return at >= 0 && at+slotLen(s) <= len(o.all) && (!s.set || !s.many || concatAt(o.all, at, slotList(l, s))) && (!s.set || s.many || s.value == nil || o.all[at] == slotValue(l, s))
		})
}

// itPos: how many elements the iterator has given
func itPos(it *eContentsListIterator) int { return vPure(itPos1(it)) }

func itPos1(it *eContentsListIterator) int {
	at := upTo(it.l, it.featureCursor)
	if it.values != nil {
		at = upTo(it.l, it.featureCursor-1) + it.values.(*listIterator).cursor
	}
	if it.prepared == 2 {
		return at - 1
	}
	return at
}

func wfIt(it *eContentsListIterator) bool { return vPure(wfIt1(it)) }

func wfIt1(it *eContentsListIterator) bool {
	l := it.l
	all := l.o.(*vmHolder).all
	n := len(slots(l))
	c := it.featureCursor
	p := itPos(it)
	return c >= 0 && c <= n && it.prepared >= 0 && it.prepared <= 2 && p >= 0 && p <= len(all) &&
		(it.prepared != 2 || p < len(all) && it.next == all[p]) &&
		(it.prepared != 1 || p == len(all) && it.values == nil && c == n) &&
		(it.values != nil || it.prepared != 2 || c > 0) &&
		(it.values == nil || vPure(inList(it)))
}

func inList(it *eContentsListIterator) bool {
	l := it.l
	c := it.featureCursor
	v, ok := it.values.(*listIterator)
	return ok && v != nil && c > 0 && v.cursor >= 0 && (it.prepared != 2 || v.cursor > 0) && vPure(inSlot(l, v, slots(l)[c-1].(*vmSlot))) &&
		upTo(l, c) == upTo(l, c-1)+slotLen(slots(l)[c-1].(*vmSlot))
}

func inSlot(l *eContentsList, v *listIterator, s *vmSlot) bool {
	return s.set && s.many && v.cursor <= slotLen(s) && (!s.obj || l.resolve || v.list == EList(s.raw)) && (s.obj && !l.resolve || v.list == EList(s.list))
}

// okIt: the iterator is in a proper state of a proper list.
func okIt(it *eContentsListIterator) {
	l := it.l
	vRequires(l != nil)
	o, ok := l.o.(*vmHolder)
	vRequires(ok && o != nil && o.feats != nil && l.features == EList(o.feats))
	vRequires(wfContents(l) && wfIt(it))
}

// An iterator asked whether there is more answers truly and stays where it is.
//
// @property C07
// @contract eContentsListIterator.HasNext
// @inv cont
func spec_Contents_HasNext(it *eContentsListIterator) bool {
	okIt(it)
	p := itPos(it)
	all := it.l.o.(*vmHolder).all
	vModifies(it.next, it.values, it.prepared, it.featureCursor)
	if v, ok := it.values.(*listIterator); ok && v != nil {
		vModifies(v.cursor)
	}
	more := it.HasNext()
	vEnsures("more", more == (p < len(all)))
	vEnsures("stays", wfIt(it) && itPos(it) == p)
	vEnsures("prepared", it.prepared == 2 == more && it.prepared > 0)
	return more
}

// The next element is the one at the iterator's position; there is none at the end.
//
// @property C07
// @contract eContentsListIterator.Next
// @uses spec_Contents_HasNext
func spec_Contents_Next(it *eContentsListIterator) any {
	okIt(it)
	p := itPos(it)
	all := it.l.o.(*vmHolder).all
	vModifies(it.next, it.values, it.prepared, it.featureCursor)
	if v, ok := it.values.(*listIterator); ok && v != nil {
		vModifies(v.cursor)
	}
	vRequires(p < len(all))
	x := it.Next()
	vEnsures("next", x == all[p] && wfIt(it) && itPos(it) == p+1)
	return x
}

func inv_eContentsListIterator_HasNext_1__cont(it *eContentsListIterator, features EList, resolve bool, o EObject) bool {
	p := vOldLoop(func() int { return itPos(it) })
	c := it.featureCursor
	return features == it.l.features && resolve == it.l.resolve && o == it.l.o && c >= 0 && c <= len(slots(it.l)) && upTo(it.l, c) == p && it.prepared == 0
}

// Everything about a contents list agrees with what its iterator gives.
//
// @property C07
// @uses spec_Contents_HasNext spec_Contents_Next
// @inv conts
func spec_Contents_ToArray(l *eContentsList, o *vmHolder) {
	contents(l, o)
	r := l.ToArray()
	vEnsures("all", len(r) == len(o.all) && vForall(0, len(r), func(i int) bool { return r[i] == o.all[i] }))
}

func inv_eContentsList_ToArray_1__conts(l *eContentsList, it EIterator, arr []any) bool {
	o := l.o.(*vmHolder)
	x := it.(*eContentsListIterator)
	return x.l == l && wfIt(x) && len(arr) == itPos(x) && vForall(0, len(arr), func(i int) bool { return arr[i] == o.all[i] })
}

// @property C07
// @uses spec_Contents_HasNext
func spec_Contents_End(it *eContentsListIterator) {
	okIt(it)
	vRequires(itPos(it) == len(it.l.o.(*vmHolder).all))
	vEnsures("no more", vCall(func() { it.Next() }) && vPure(itPos(it)) == len(it.l.o.(*vmHolder).all))
}

// @property C07
// @uses spec_Contents_HasNext spec_Contents_Next
// @inv conts
func spec_Contents_Search(l *eContentsList, o *vmHolder, x any) {
	contents(l, o)
	n := len(o.all)
	i := l.IndexOf(x)
	vEnsures("first", i >= 0 && i < n && o.all[i] == x && vForall(0, i, func(j int) bool { return o.all[j] != x }) || i == -1 && vForall(0, n, func(j int) bool { return o.all[j] != x }))
}

func inv_eContentsList_IndexOf_1__conts(l *eContentsList, it EIterator, index int, elem any) bool {
	o := l.o.(*vmHolder)
	x := it.(*eContentsListIterator)
	return x.l == l && wfIt(x) && index == itPos(x) && vForall(0, index, func(i int) bool { return o.all[i] != elem })
}

// @property C07
// @uses spec_Contents_HasNext spec_Contents_Next
// @inv conts
func spec_Contents_Contains(l *eContentsList, o *vmHolder, x any) {
	contents(l, o)
	vEnsures("contains", l.Contains(x) == vExists(0, len(o.all), func(j int) bool { return o.all[j] == x }))
}

func inv_eContentsList_Contains_1__conts(l *eContentsList, it EIterator, elem any) bool {
	o := l.o.(*vmHolder)
	x := it.(*eContentsListIterator)
	return x.l == l && wfIt(x) && vForall(0, itPos(x), func(i int) bool { return o.all[i] != elem })
}

// @property C07
// @uses spec_Contents_HasNext spec_Contents_Next
// @inv conts
func spec_Contents_Get(l *eContentsList, o *vmHolder, i int) {
	contents(l, o)
	vRequires(i >= 0 && i < len(o.all))
	vEnsures("get", l.Get(i) == o.all[i])
}

func inv_eContentsList_Get_1__conts(l *eContentsList, it EIterator, k_ int) bool {
	x := it.(*eContentsListIterator)
	return x.l == l && wfIt(x) && itPos(x) == k_
}

// @property C07
// @inv conts
func spec_Contents_Size(l *eContentsList, o *vmHolder) {
	contents(l, o)
	vEnsures("size", l.Size() == len(o.all))
}

func inv_eContentsList_Size_1__conts(l *eContentsList, it EIterator, size int) bool {
	x := it.(*listIterator)
	return x.list == l.features && x.cursor >= 0 && x.cursor <= len(slots(l)) && size == upTo(l, x.cursor)
}

// @property C07
// @inv conts
func spec_Contents_Empty(l *eContentsList, o *vmHolder) {
	contents(l, o)
	vRequires(vForall(0, len(o.feats.data), func(i int) bool {
		return upTo(l, i+1) == upTo(l, i)+slotLen(o.feats.data[i].(*vmSlot)) && upTo(l, i+1) <= len(o.all)
	}))
	vEnsures("empty", l.Empty() == (len(o.all) == 0))
}

func inv_eContentsList_Empty_1__conts(l *eContentsList, it EIterator) bool {
	x := it.(*listIterator)
	return x.list == l.features && x.cursor >= 0 && x.cursor <= len(slots(l)) && upTo(l, x.cursor) == 0
}

// ---- generators for native execution ----

func vgen_vmHolder(t *vTape) *vmHolder {
	o := &vmHolder{}
	resolve := t.Bool()
	var fs []any
	for i, n := 0, t.Choose(5); i < n; i++ {
		s := &vmSlot{many: t.Bool(), set: t.Choose(4) > 0, obj: t.Bool(), list: NewImmutableEList(t.Anys(2)), raw: NewImmutableEList(nil), value: t.Any()}
		s.stored = s.value
		proxies := t.Choose(3) == 0
		if proxies && s.value != nil {
			s.stored = &vmO{}
		}
		for _, x := range s.list.data {
			if proxies {
				x = &vmO{}
			}
			s.raw.data = append(s.raw.data, x)
		}
		s.objs = &vmObjs{list: s.list, raw: s.raw}
		fs = append(fs, s)
		switch {
		case !s.set:
			t.Say("feature %d: not set", i)
		case s.many:
			l := s.list.data
			if s.obj && !resolve {
				l = s.raw.data
			}
			o.all = append(o.all, l...)
			t.Say("feature %d: list %v, object list %v, proxies %v", i, l, s.obj, proxies)
		default:
			t.Say("feature %d: value %v, proxy %v", i, s.value, proxies)
			if s.value != nil {
				if resolve {
					o.all = append(o.all, s.value)
				} else {
					o.all = append(o.all, s.stored)
				}
			}
		}
	}
	o.feats = NewImmutableEList(fs)
	return o
}
func vgen_eContentsList(t *vTape) *eContentsList {
	l := &eContentsList{resolve: t.Bool()}
	t.Say("resolving %v", l.resolve)
	return l
}
func vgen_eContentsListIterator(t *vTape) *eContentsListIterator {
	o := vgen_vmHolder(t)
	l := vgen_eContentsList(t)
	l.o, l.features = o, o.feats
	it := &eContentsListIterator{l: l}
	n := t.Choose(len(o.all) + 1)
	for i := 0; i < n && it.HasNext(); i++ {
		it.Next()
	}
	if t.Bool() {
		it.HasNext()
	}
	t.Say("an iterator after %d elements", n)
	return it
}
