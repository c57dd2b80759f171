package ecore

// ---- C01: the array list is a mathematical sequence -----------------------

func wfBasic(l *BasicEList) bool { return l.interfaces == any(l) }

func distinctArr(s []any) bool {
	return vForall(0, len(s), func(i int) bool {
		return vForall(0, len(s), func(j int) bool { return i == j || s[i] != s[j] })
	})
}

func wfList(l *BasicEList) bool {
	return wfBasic(l) && (!l.isUnique || distinctArr(l.data))
}

// sameSeq: the slice holds exactly the snapshot's elements.
func sameSeq(s []any, q vSeq[any]) bool {
	return len(s) == q.Len() && vForall(0, len(s), func(i int) bool { return s[i] == q.At(i) })
}

// inSeq: x occurs in the snapshot.
func inSeq(q vSeq[any], x any) bool {
	return vExists(0, q.Len(), func(i int) bool { return q.At(i) == x })
}

// insertedAt: s is q with x inserted at index.
func insertedAt(s []any, q vSeq[any], index int, x any) bool {
	return len(s) == q.Len()+1 && vForall(0, len(s), func(i int) bool {
		if i < index {
			return s[i] == q.At(i)
		}
		if i == index {
			return s[i] == x
		}
		return s[i] == q.At(i-1)
	})
}

// removedRange: s is q without [from,to).
func removedRange(s []any, q vSeq[any], from, to int) bool {
	return len(s) == q.Len()-(to-from) && vForall(0, len(s), func(i int) bool {
		if i < from {
			return s[i] == q.At(i)
		}
		return s[i] == q.At(i+(to-from))
	})
}

// movedTo: s is q with the element at from taken out and put back at to.
func movedTo(s []any, q vSeq[any], from, to int) bool {
	return len(s) == q.Len() && vForall(0, len(s), func(i int) bool {
		switch {
		case i == to:
			return s[i] == q.At(from)
		case from < to && i >= from && i < to:
			return s[i] == q.At(i+1)
		case to < from && i > to && i <= from:
			return s[i] == q.At(i-1)
		}
		return s[i] == q.At(i)
	})
}

// @property C01
func spec_BasicEList_Get(l *BasicEList, i int) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	var r any
	p := vCall(func() { r = l.Get(i) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	vEnsures("returns the element", p || r == old.At(i))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

// @property C01
func spec_BasicEList_Size(l *BasicEList) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	n := l.Size()
	e := l.Empty()
	vEnsures("counts the elements", n == old.Len() && e == (n == 0))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

// @property C01
// @inv basic
func spec_BasicEList_Set(l *BasicEList, i int, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	var r any
	p := vCall(func() { r = l.Set(i, x) })
	vEnsures("out of bounds panics", !(i < 0 || i >= old.Len()) || p)
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		vEnsures("panics only for bounds or a duplicate", i < 0 || i >= old.Len() || l.isUnique && inSeq(old, x))
		return
	}
	vEnsures("returns the replaced element", r == old.At(i))
	vEnsures("replaces one element", len(l.data) == old.Len() && l.data[i] == x &&
		vForall(0, len(l.data), func(j int) bool { return j == i || l.data[j] == old.At(j) }))
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
// @inv basic
func spec_BasicEList_Add(l *BasicEList, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	r := l.Add(x)
	vEnsures("refuses exactly duplicates", r == !(l.isUnique && inSeq(old, x)))
	if r {
		vEnsures("appends", insertedAt(l.data, old, old.Len(), x))
	} else {
		vEnsures("refusal changes nothing", sameSeq(l.data, old))
	}
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
// @inv basic
func spec_BasicEList_Insert(l *BasicEList, i int, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	var r bool
	p := vCall(func() { r = l.Insert(i, x) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("refuses exactly duplicates", r == !(l.isUnique && inSeq(old, x)))
	if r {
		vEnsures("inserts", insertedAt(l.data, old, i, x))
	} else {
		vEnsures("refusal changes nothing", sameSeq(l.data, old))
	}
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
func spec_BasicEList_RemoveAt(l *BasicEList, i int) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	var r any
	p := vCall(func() { r = l.RemoveAt(i) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("returns the element", r == old.At(i))
	vEnsures("removes one element", removedRange(l.data, old, i, i+1))
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
func spec_BasicEList_RemoveRange(l *BasicEList, from, to int) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	p := vCall(func() { l.RemoveRange(from, to) })
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		vEnsures("panics only on bad bounds", from < 0 || from >= old.Len() || to < from || to > old.Len())
		return
	}
	vEnsures("removes the range", from >= 0 && from <= to && to <= old.Len() && removedRange(l.data, old, from, to))
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
func spec_BasicEList_Move(l *BasicEList, from, to int) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	var r any
	p := vCall(func() { r = l.Move(from, to) })
	vEnsures("panics exactly outside the bounds", p == (from < 0 || from >= old.Len() || to < 0 || to >= old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("returns the element", r == old.At(from))
	vEnsures("moves one element", movedTo(l.data, old, from, to))
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
// @inv basic
func spec_BasicEList_IndexOf(l *BasicEList, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	r := l.IndexOf(x)
	vEnsures("first index", r == -1 && !inSeq(old, x) || r >= 0 && r < old.Len() && old.At(r) == x &&
		vForall(0, r, func(i int) bool { return old.At(i) != x }))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

func inv_AbstractEList_IndexOf_1__basic(list *AbstractEList, elem any, i int, it EIterator) bool {
	l := list.interfaces.(*BasicEList)
	li := it.(*listIterator)
	return li.list == EList(l) && li.cursor == i && i >= 0 && i <= len(l.data) && vForall(0, i, func(j int) bool { return l.data[j] != elem })
}

func vgen_BasicEList(t *vTape) *BasicEList {
	l := NewBasicEList(t.Anys(4))
	l.isUnique = t.Bool()
	return l
}

// ---- bulk operations ----

func inColl(s []any, x any) bool {
	return vExists(0, len(s), func(i int) bool { return s[i] == x })
}

// appendedNew: s keeps q at the front (before index) and back, and has in between
// exactly the elements of c that are not in q, once each, in their first order.
func insertedNew(s []any, q vSeq[any], index int, c vSeq[any]) bool {
	n := len(s) - q.Len()
	return n >= 0 &&
		vForall(0, index, func(i int) bool { return s[i] == q.At(i) }) &&
		vForall(index, q.Len(), func(i int) bool { return s[i+n] == q.At(i) }) &&
		vForall(0, n, func(i int) bool { return inSeq(c, s[index+i]) && !inSeq(q, s[index+i]) }) &&
		vForall(0, c.Len(), func(i int) bool {
			return inSeq(q, c.At(i)) || vExists(0, n, func(j int) bool { return s[index+j] == c.At(i) })
		}) &&
		vForall(0, n, func(i int) bool {
			return vForall(0, n, func(j int) bool {
				return i >= j || vExists(0, c.Len(), func(p int) bool {
					return c.At(p) == s[index+i] && vForall(0, p+1, func(r int) bool { return c.At(r) != s[index+j] })
				})
			})
		})
}

// insertedAll: s is q with the elements of c inserted at index.
func insertedAll(s []any, q vSeq[any], index int, c vSeq[any]) bool {
	return len(s) == q.Len()+c.Len() &&
		vForall(0, index, func(i int) bool { return s[i] == q.At(i) }) &&
		vForall(0, c.Len(), func(i int) bool { return s[index+i] == c.At(i) }) &&
		vForall(index, q.Len(), func(i int) bool { return s[i+c.Len()] == q.At(i) })
}

func wfSet(s *vmLHS, c []any, k int) bool {
	return s.calls == k && len(s.data) == len(s.pos) && distinctArr(s.data) &&
		vForall(0, len(s.data), func(i int) bool {
			return vTrig(s.pos[i] >= 0 && s.pos[i] < k && c[s.pos[i]] == s.data[i] &&
				vForall(0, s.pos[i], func(j int) bool { return c[j] != s.data[i] }), s.pos[i])
		}) &&
		vForall(0, len(s.data), func(i int) bool {
			return vForall(0, len(s.data), func(j int) bool { return i >= j || s.pos[i] < s.pos[j] })
		})
}

// @property C01
// @inv basic imm
// @bounded 2 the order of the elements that survive the linked hash set needs an existential induction
func spec_BasicEList_AddAllUnique(l *BasicEList, c *immutableEList) {
	vRequires(wfList(l) && l.isUnique && vSep(l.data, c.data))
	old, arg := vSnap(l.data), vSnap(c.data)
	r := l.AddAll(c)
	vEnsures("appends the missing elements", insertedNew(l.data, old, old.Len(), arg))
	vEnsures("reports a change", r == (len(l.data) > old.Len()))
	vEnsures("stays duplicate free", wfList(l))
	vEnsures("does not change the argument", sameSeq(c.data, arg))
}

func inv_AbstractEList_getNonDuplicates_1__imm(collection Collection, it EIterator, hashSet *vmLHS) bool {
	c := collection.(*immutableEList)
	li := it.(*listIterator)
	return li.list == EList(c) && li.cursor >= 0 && li.cursor <= len(c.data) && wfSet(hashSet, c.data, li.cursor) &&
		vForall(0, li.cursor, func(j int) bool { return inColl(hashSet.data, c.data[j]) })
}

func inv_AbstractEList_getNonDuplicates_2__imm(list *AbstractEList, start_collection Collection, it EIterator, hashSet *vmLHS) bool {
	c := start_collection.(*immutableEList)
	l := list.interfaces.(*BasicEList)
	li := it.(*listIterator)
	return li.list == EList(l) && li.cursor >= 0 && li.cursor <= len(l.data) && wfSet(hashSet, c.data, len(c.data)) &&
		vForall(0, len(hashSet.data), func(i int) bool {
			return vForall(0, li.cursor, func(j int) bool { return l.data[j] != hashSet.data[i] })
		}) &&
		vForall(0, len(c.data), func(j int) bool { return inColl(hashSet.data, c.data[j]) || inColl(l.data, c.data[j]) })
}

func inv_AbstractEList_getNonDuplicates_3__imm(list *AbstractEList, start_collection Collection, hashSet *vmLHS, k_ int) bool {
	c := start_collection.(*immutableEList)
	l := list.interfaces.(*BasicEList)
	before := vOldLoop(func() []any { return hashSet.data })
	return wfSet(hashSet, c.data, len(c.data)) &&
		vForall(0, len(hashSet.data), func(i int) bool {
			return inColl(before, hashSet.data[i]) &&
				vForall(0, k_, func(t int) bool { return before[t] != hashSet.data[i] || !inColl(l.data, before[t]) })
		}) &&
		vForall(0, len(c.data), func(j int) bool { return inColl(hashSet.data, c.data[j]) || inColl(l.data, c.data[j]) })
}

func inv_vmLHS_Each_1__imm(s *vmLHS, array []any, k_ int) bool {
	return len(array) == len(s.data) && vForall(0, k_, func(i int) bool { return array[i] == s.data[i] })
}

// @property C01
// @native the order of the elements that survive the linked hash set needs an existential induction
func spec_BasicEList_InsertAllUnique(l *BasicEList, i int, c *immutableEList) {
	vRequires(wfList(l) && l.isUnique && vSep(l.data, c.data))
	old, arg := vSnap(l.data), vSnap(c.data)
	var r bool
	p := vCall(func() { r = l.InsertAll(i, c) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("inserts the missing elements", insertedNew(l.data, old, i, arg))
	vEnsures("reports a change", r == (len(l.data) > old.Len()))
	vEnsures("stays duplicate free", wfList(l))
	vEnsures("does not change the argument", sameSeq(c.data, arg))
}

// @property C01
func spec_BasicEList_AddAll(l *BasicEList, c *BasicEList) {
	vRequires(wfList(l) && !l.isUnique && wfList(c) && (l == c || vSep(l.data, c.data)))
	old, arg := vSnap(l.data), vSnap(c.data)
	same := l == c
	l.AddAll(c)
	vEnsures("appends the elements", insertedAll(l.data, old, old.Len(), arg))
	vEnsures("does not change the argument", same || sameSeq(c.data, arg))
}

// @property C01
func spec_BasicEList_InsertAll(l *BasicEList, i int, c *BasicEList) {
	vRequires(wfList(l) && !l.isUnique && wfList(c) && (l == c || vSep(l.data, c.data)))
	old, arg := vSnap(l.data), vSnap(c.data)
	same := l == c
	p := vCall(func() { l.InsertAll(i, c) })
	vEnsures("panics exactly outside the bounds", p == (i < 0 || i > old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("inserts the elements", insertedAll(l.data, old, i, arg))
	vEnsures("does not change the argument", same || sameSeq(c.data, arg))
}

// @property C01
func spec_BasicEList_AddAllSelf(l *BasicEList) {
	vRequires(wfList(l) && !l.isUnique)
	old := vSnap(l.data)
	l.AddAll(l)
	vEnsures("appends the elements", insertedAll(l.data, old, old.Len(), old))
}

// @property C01
func spec_BasicEList_InsertAllSelf(l *BasicEList, i int) {
	vRequires(wfList(l) && !l.isUnique && i >= 0 && i <= len(l.data))
	old := vSnap(l.data)
	l.InsertAll(i, l)
	vEnsures("inserts the elements", insertedAll(l.data, old, i, old))
}

// @property C01
// @inv basic
func spec_BasicEList_Remove(l *BasicEList, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	k := -1
	if r := l.IndexOf(x); r >= 0 {
		k = r
	}
	r := l.Remove(x)
	vEnsures("reports whether the element was there", r == inSeq(old, x))
	if r {
		vEnsures("removes the first occurrence", k >= 0 && removedRange(l.data, old, k, k+1))
	} else {
		vEnsures("refusal changes nothing", sameSeq(l.data, old))
	}
	vEnsures("stays duplicate free", wfList(l))
}

// @property C01
func spec_BasicEList_Clear(l *BasicEList) {
	vRequires(wfList(l))
	l.Clear()
	vEnsures("removes everything", len(l.data) == 0 && wfList(l))
}

// @property C01
// @inv basic
func spec_BasicEList_Contains(l *BasicEList, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	r := l.Contains(x)
	vEnsures("membership", r == inSeq(old, x))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

// @property C01
// @inv basic
func spec_BasicEList_MoveObject(l *BasicEList, to int, x any) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	from := l.IndexOf(x)
	p := vCall(func() { l.MoveObject(to, x) })
	vEnsures("panics exactly for a missing element or outside the bounds", p == (!inSeq(old, x) || to < 0 || to >= old.Len()))
	if p {
		vEnsures("a panic changes nothing", sameSeq(l.data, old))
		return
	}
	vEnsures("moves one element", movedTo(l.data, old, from, to))
	vEnsures("stays duplicate free", wfList(l))
}

// keptOnly: s is q without the elements of c, in order.
func keptOnly(s []any, q, c vSeq[any]) bool {
	return vForall(0, len(s), func(i int) bool { return inSeq(q, s[i]) && !inSeq(c, s[i]) }) &&
		vForall(0, q.Len(), func(i int) bool { return inSeq(c, q.At(i)) || inColl(s, q.At(i)) })
}

// @property C01
// @inv basic removeall
// @native which elements survive needs an existential induction
func spec_BasicEList_RemoveAll(l *BasicEList, c *immutableEList) {
	vRequires(wfList(l) && vSep(l.data, c.data))
	old, arg := vSnap(l.data), vSnap(c.data)
	r := l.RemoveAll(c)
	vEnsures("keeps exactly the other elements", keptOnly(l.data, old, arg))
	vEnsures("reports a change", r == (len(l.data) != old.Len()))
	vEnsures("stays duplicate free", wfList(l))
	vEnsures("does not change the argument", sameSeq(c.data, arg))
}

func inv_AbstractEList_RemoveAll_1__removeall(list *AbstractEList, i int, modified bool, collection Collection) bool {
	l := list.interfaces.(*BasicEList)
	c := collection.(*immutableEList)
	old := vOldLoop(func() vSeq[any] { return vSnap(l.data) })
	n := len(l.data)
	arg := vOldLoop(func() vSeq[any] { return vSnap(c.data) })
	return wfList(l) && vSep(l.data, c.data) && sameSeq(c.data, arg) && i >= -1 && i < n && n <= old.Len() && i < old.Len() && modified == (n != old.Len()) &&
		vForall(0, i+1, func(j int) bool { return l.data[j] == old.At(j) }) &&
		vForall(i+1, n, func(j int) bool { return !inColl(c.data, l.data[j]) && inSeq(old, l.data[j]) }) &&
		vForall(0, old.Len(), func(j int) bool {
			return vTrig(j <= i || inColl(c.data, old.At(j)) || inColl(l.data, old.At(j)), old.At(j))
		})
}

func inv_immutableEList_IndexOf_1__removeall(l *immutableEList, elem any, k_ int) bool {
	return vForall(0, k_, func(j int) bool { return l.data[j] != elem })
}

// @property C01
func spec_BasicEList_ToArray(l *BasicEList) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	a := l.ToArray()
	vEnsures("the elements", sameSeq(a, old) && sameSeq(l.data, old))
}

// Iterating visits every element once, in order.
//
// @property C01
// @inv iterate
func spec_BasicEList_Iterate(l *BasicEList) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	got := vmIterate(l)
	vEnsures("visits the elements in order", sameSeq(got, old))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

func vmIterate(l EList) []any {
	got := []any{}
	for it := l.Iterator(); it.HasNext(); {
		got = append(append([]any{}, got...), it.Next())
	}
	return got
}

func inv_vmIterate_1__iterate(l EList, it EIterator, got []any) bool {
	b := l.(*BasicEList)
	li := it.(*listIterator)
	return li.list == l && li.cursor == len(got) && len(got) <= len(b.data) &&
		vForall(0, len(got), func(i int) bool { return got[i] == b.data[i] })
}

// Ranging over All visits the elements in order until the consumer stops.
//
// @property C01
// @inv iterate
func spec_BasicEList_All(l *BasicEList, stop int) {
	vRequires(wfList(l))
	old := vSnap(l.data)
	got := []any{}
	l.All()(func(x any) bool {
		got = append(append([]any{}, got...), x)
		return len(got) != stop
	})
	vEnsures("visits the elements in order", vForall(0, len(got), func(i int) bool { return got[i] == old.At(i) }))
	vEnsures("stops when asked", stop > 0 && stop <= old.Len() && len(got) == stop || (stop <= 0 || stop > old.Len()) && len(got) == old.Len())
	vEnsures("changes nothing", sameSeq(l.data, old))
}

func inv_AbstractEList_All_1__iterate(list *AbstractEList, i int, got []any, stop int) bool {
	l := list.interfaces.(*BasicEList)
	return i >= 0 && i <= len(l.data) && len(got) == i && (stop <= 0 || i < stop) &&
		vForall(0, i, func(j int) bool { return got[j] == l.data[j] })
}

// Immutable lists: every mutator panics, reads describe the array.
//
// @property C01
// @inv removeall
func spec_ImmutableEList_Reads(data []any, i int, x any) {
	l := NewImmutableEList(data)
	old := vSnap(data)
	var r any
	p := vCall(func() { r = l.Get(i) })
	vEnsures("get panics exactly outside the bounds", p == (i < 0 || i >= old.Len()))
	vEnsures("get returns the element", p || r == old.At(i))
	n, e, k, h, a := l.Size(), l.Empty(), l.IndexOf(x), l.Contains(x), l.ToArray()
	vEnsures("counts the elements", n == old.Len() && e == (old.Len() == 0))
	vEnsures("first index", k == -1 && !inSeq(old, x) || k >= 0 && k < old.Len() && old.At(k) == x &&
		vForall(0, k, func(i int) bool { return old.At(i) != x }))
	vEnsures("membership", h == (k >= 0))
	vEnsures("the elements", sameSeq(a, old) && sameSeq(l.data, old))
}

// @property C01
func spec_ImmutableEList_Mutators(data []any, i, j int, x any, empty bool) {
	old := vSnap(data)
	l := NewImmutableEList(data)
	var e EList = l
	if empty {
		e = NewEmptyImmutableEList()
	}
	vEnsures("add", vCall(func() { e.Add(x) }))
	vEnsures("addAll", vCall(func() { e.AddAll(l) }))
	vEnsures("insert", vCall(func() { e.Insert(i, x) }))
	vEnsures("insertAll", vCall(func() { e.InsertAll(i, l) }))
	vEnsures("move", vCall(func() { e.Move(i, j) }))
	vEnsures("moveObject", vCall(func() { e.MoveObject(i, x) }))
	vEnsures("set", vCall(func() { e.Set(i, x) }))
	vEnsures("removeAt", vCall(func() { e.RemoveAt(i) }))
	vEnsures("remove", vCall(func() { e.Remove(x) }))
	vEnsures("removeAll", vCall(func() { e.RemoveAll(l) }))
	vEnsures("removeRange", vCall(func() { e.RemoveRange(i, j) }))
	vEnsures("clear", vCall(func() { e.Clear() }))
	vEnsures("changes nothing", sameSeq(l.data, old))
}

func vgen_immutableEList(t *vTape) *immutableEList { return NewImmutableEList(t.Anys(3)) }
