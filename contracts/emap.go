package ecore

// ---- maps: lists of entries with one entry per key ----

func entryAt(l *basicEMapList, i int) *eMapEntryImpl { return l.data[i].(*eMapEntryImpl) }

func okEntry(x any) bool {
	e, ok := x.(*eMapEntryImpl)
	return ok && e != nil
}

// aMap: m is a map kept in list l.
func aMap(m *BasicEMap, l *basicEMapList) {
	m.EList, m.interfaces = l, m
	l.interfaces, l.m, l.isUnique = l, m, true
	vRequires(vLockFree(&m.mapMutex) && vForall(0, len(l.data), func(i int) bool { return okEntry(l.data[i]) }))
}

// mapsTo: key k is that of the entry at i alone (none: of no entry), and the
// look-up table, if there is one, says so.
func mapsTo(m *BasicEMap, l *basicEMapList, k any, i int) bool {
	v, is := m.mapData[k]
	if i < 0 || i >= len(l.data) {
		return (m.mapData == nil || !is) && vForall(0, len(l.data), func(j int) bool { return entryAt(l, j).key != k })
	}
	return entryAt(l, i).key == k && (m.mapData == nil || is && v == entryAt(l, i).value) && vForall(0, len(l.data), func(j int) bool { return j == i || entryAt(l, j).key != k })
}

func entries(l *basicEMapList) bool {
	return vForall(0, len(l.data), func(i int) bool { return okEntry(l.data[i]) })
}

// Every answer about key k is that of its entry; asking changes nothing.
//
// @property C10
// @inv emap
func spec_Map_Get(m *BasicEMap, l *basicEMapList, k any, i int) {
	aMap(m, l)
	vRequires(mapsTo(m, l, k, i))
	old := vSnap(l.data)
	in := i >= 0 && i < len(l.data)
	v := m.GetValue(k)
	vEnsures("value", in && v == entryAt(l, i).value || !in && v == nil)
	vEnsures("contains", m.ContainsKey(k) == in)
	t := m.ToMap()
	x, is := t[k]
	vEnsures("as a map", is == in && (!in || x == entryAt(l, i).value))
	vEnsures("unchanged", sameSeq(l.data, old) && mapsTo(m, l, k, i) && m.mapData != nil && vLockFree(&m.mapMutex))
}

func inv_BasicEMap_initDataMap_1__emap(m *BasicEMap, itEntry EIterator, unit_k any, unit_i int, unit_l *basicEMapList) bool {
	l := unit_l
	it := itEntry.(*listIterator)
	c := it.cursor
	v, is := m.mapData[unit_k]
	return it.list == EList(l) && c >= 0 && c <= len(l.data) && m.mapData != nil &&
		(unit_i >= 0 && unit_i < c && is && v == entryAt(l, unit_i).value || (unit_i < 0 || unit_i >= c) && !is)
}

// Putting a value changes what its key maps to and nothing else.
//
// @property C10
// @inv emap
func spec_Map_Put(m *BasicEMap, l *basicEMapList, key, val any, at int, k any, i int) {
	aMap(m, l)
	vRequires(mapsTo(m, l, key, at) && (k == key || mapsTo(m, l, k, i)))
	n := len(l.data)
	in := at >= 0 && at < n
	old := vSnap(l.data)
	m.Put(key, val)
	vEnsures("entries", entries(l) && vLockFree(&m.mapMutex))
	if in {
		vEnsures("replaced", sameSeq(l.data, old) && mapsTo(m, l, key, at) && entryAt(l, at).value == val)
	} else {
		vEnsures("added", len(l.data) == n+1 && mapsTo(m, l, key, n) && entryAt(l, n).value == val && vForall(0, n, func(j int) bool { return l.data[j] == old.At(j) }))
	}
	if k != key {
		if i < 0 || i >= n {
			i = -1
		}
		vEnsures("other keys", mapsTo(m, l, k, i))
	}
}

func inv_AbstractEList_IndexOf_1__emap(list *AbstractEList, elem any, i int, it EIterator) bool {
	l := list.interfaces.(*basicEMapList)
	x := it.(*listIterator)
	return x.list == EList(l) && x.cursor == i && i >= 0 && i <= len(l.data) && vForall(0, i, func(j int) bool { return l.data[j] != elem })
}

func inv_BasicEMap_getEntryForKey_1__emap(list *AbstractEList, i int, key any) bool {
	l := list.interfaces.(*basicEMapList)
	return i >= 0 && i <= len(l.data) && vForall(0, i, func(j int) bool { return entryAt(l, j).key != key })
}

// @property C10
// @inv emap
func spec_Map_RemoveKey(m *BasicEMap, l *basicEMapList, key any, at int, k any, i int) {
	aMap(m, l)
	vRequires(mapsTo(m, l, key, at) && (k == key || mapsTo(m, l, k, i)) && distinctArr(l.data))
	n := len(l.data)
	in := at >= 0 && at < n
	old := vSnap(l.data)
	var was any
	if in {
		was = entryAt(l, at).value
	}
	v := m.RemoveKey(key)
	vEnsures("removed", v == was && mapsTo(m, l, key, -1) && vLockFree(&m.mapMutex) && entries(l))
	vEnsures("list", in && removedRange(l.data, old, at, at+1) || !in && sameSeq(l.data, old))
	if k != key {
		if i < 0 || i >= n {
			i = -1
		} else if in && i > at {
			i--
		}
		vEnsures("other keys", mapsTo(m, l, k, i))
	}
}

// Operations on the list of entries keep the map in step.
//
// @property C10
func spec_Map_AddEntry(m *BasicEMap, l *basicEMapList, e *eMapEntryImpl, k any, i, where int) {
	aMap(m, l)
	n := len(l.data)
	vRequires(vForall(0, n, func(j int) bool { return entryAt(l, j).key != e.key }) && where >= 0 && where <= n)
	if k != e.key {
		vRequires(mapsTo(m, l, k, i))
	} else {
		vRequires(mapsTo(m, l, k, -1))
	}
	m.Insert(where, e)
	if k == e.key {
		i = where
	} else if i < 0 || i >= n {
		i = -1
	} else if i >= where {
		i++
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

// @property C10
func spec_Map_RemoveEntry(m *BasicEMap, l *basicEMapList, k any, i, where int) {
	aMap(m, l)
	n := len(l.data)
	vRequires(mapsTo(m, l, k, i) && where >= 0 && where < n)
	m.RemoveAt(where)
	switch {
	case i < 0 || i >= n || i == where:
		i = -1
	case i > where:
		i--
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

// @property C10
func spec_Map_SetEntry(m *BasicEMap, l *basicEMapList, e *eMapEntryImpl, k any, i, where int) {
	aMap(m, l)
	n := len(l.data)
	vRequires(where >= 0 && where < n && vForall(0, n, func(j int) bool { return j == where || entryAt(l, j).key != e.key && entryAt(l, j) != e }) && entryAt(l, where) != e)
	vRequires(mapsTo(m, l, k, i))
	m.Set(where, e)
	if k == e.key {
		i = where
	} else if i == where || i < 0 || i >= n {
		i = -1
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

// @property C10
func spec_Map_Clear(m *BasicEMap, l *basicEMapList, k any) {
	aMap(m, l)
	m.Clear()
	vEnsures("empty", len(l.data) == 0 && mapsTo(m, l, k, -1) && m.GetValue(k) == nil && vLockFree(&m.mapMutex))
}

// @property C10
func spec_Map_Move(m *BasicEMap, l *basicEMapList, k any, i, from, to int) {
	aMap(m, l)
	n := len(l.data)
	vRequires(mapsTo(m, l, k, i) && from >= 0 && from < n && to >= 0 && to < n)
	old := vSnap(l.data)
	m.Move(from, to)
	vAssert("moved", movedTo(l.data, old, from, to))
	if i < 0 || i >= n {
		i = -1
	} else if i == from {
		i = to
	} else if from < i && i <= to {
		i--
	} else if to <= i && i < from {
		i++
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

// @property C10
// @inv emap
func spec_Map_ContainsValue(m *BasicEMap, l *basicEMapList, v any) {
	aMap(m, l)
	vEnsures("contains", m.ContainsValue(v) == vExists(0, len(l.data), func(j int) bool { return entryAt(l, j).value == v }))
}

func inv_BasicEMap_ContainsValue_1__emap(it EIterator, value any, unit_l *basicEMapList) bool {
	x := it.(*listIterator)
	return x.list == EList(unit_l) && x.cursor >= 0 && x.cursor <= len(unit_l.data) && vForall(0, x.cursor, func(j int) bool { return entryAt(unit_l, j).value != value })
}

// @property C10
// @inv emap
func spec_Map_RemoveRange(m *BasicEMap, l *basicEMapList, k any, i, from, to int) {
	aMap(m, l)
	n := len(l.data)
	vRequires(mapsTo(m, l, k, i) && from >= 0 && from < n && from <= to && to <= n)
	m.RemoveRange(from, to)
	switch {
	case i < 0 || i >= n || i >= from && i < to:
		i = -1
	case i >= to:
		i -= to - from
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

func inv_BasicEList_doRemoveRange_1__emap(list *BasicEList, objects []any, fromIndex, toIndex, i int, unit_m *BasicEMap, unit_k any, unit_i int) bool {
	m, at := unit_m, unit_i
	v, is := m.mapData[unit_k]
	d := toIndex - fromIndex
	if i < fromIndex-1 || i >= toIndex || !vLockFree(&m.mapMutex) {
		return false
	}
	if m.mapData == nil {
		return true
	}
	switch {
	case at < 0 || at >= len(list.data)+d || at > i && at < toIndex:
		return !is
	case at < fromIndex:
		return is && v == list.data[at].(*eMapEntryImpl).value
	case at < toIndex:
		return is && v == objects[at-fromIndex].(*eMapEntryImpl).value
	}
	return is && v == list.data[at-d].(*eMapEntryImpl).value
}

// Entries added together.
//
// @property C10
// @inv emap
func spec_Map_InsertEntries(m *BasicEMap, l *basicEMapList, c *immutableEList, k any, i, in, where int) {
	aMap(m, l)
	n, d := len(l.data), len(c.data)
	vRequires(vForall(0, d, func(j int) bool { return okEntry(c.data[j]) }) && vSep(l.data, c.data) && where >= 0 && where <= n)
	// the entry of key k is at i in the list, or else at in among the new ones
	isNew := in >= 0 && in < d
	vRequires(mapsTo(m, l, k, i) && vForall(0, d, func(j int) bool { return (c.data[j].(*eMapEntryImpl).key == k) == (j == in) }))
	vRequires(!isNew || i < 0 || i >= n)
	l.doInsertAll(where, c)
	switch {
	case isNew:
		i = where + in
	case i < 0 || i >= n:
		i = -1
	case i >= where:
		i += d
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

// @property C10
// @inv emap
func spec_Map_AddEntries(m *BasicEMap, l *basicEMapList, c *immutableEList, k any, i, in int) {
	aMap(m, l)
	n, d := len(l.data), len(c.data)
	vRequires(vForall(0, d, func(j int) bool { return okEntry(c.data[j]) }) && vSep(l.data, c.data))
	// the entry of key k is at i in the list, or else at in among the new ones
	isNew := in >= 0 && in < d
	vRequires(mapsTo(m, l, k, i) && vForall(0, d, func(j int) bool { return (c.data[j].(*eMapEntryImpl).key == k) == (j == in) }))
	vRequires(!isNew || i < 0 || i >= n)
	l.doAddAll(c)
	switch {
	case isNew:
		i = n + in
	case i < 0 || i >= n:
		i = -1
	}
	vEnsures("every key", mapsTo(m, l, k, i) && entries(l) && vLockFree(&m.mapMutex))
}

func inv_BasicEList_doInsertAll_1__emap(data []any, k_ int, unit_m *BasicEMap, unit_k any, unit_in int) bool {
	return addedTo(unit_m, data, k_, unit_k, unit_in)
}

func inv_BasicEList_doAddAll_1__emap(data []any, k_ int, unit_m *BasicEMap, unit_k any, unit_in int) bool {
	return addedTo(unit_m, data, k_, unit_k, unit_in)
}

func addedTo(m *BasicEMap, data []any, c int, k any, in int) bool {
	v, is := m.mapData[k]
	if in >= 0 && in < c {
		return vLockFree(&m.mapMutex) && (m.mapData == nil || is && v == data[in].(*eMapEntryImpl).value)
	}
	was, had := vOldLoop(func() any { return m.mapData[k] }), vOldLoop(func() bool { _, is := m.mapData[k]; return is })
	return vLockFree(&m.mapMutex) && (m.mapData == nil) == vOldLoop(func() bool { return m.mapData == nil }) && is == had && v == was
}

// A map of objects keeps its look-up table the same way.
//
// @property C10
func spec_Map_OfObjects(m *BasicEObjectMap, l *basicEObjectMapList, e, f *eMapEntryImpl, k any) {
	l.m = m
	vRequires(vLockFree(&m.mapMutex) && m.mapData != nil)
	v, is := m.mapData[k]
	l.DidAdd(0, e)
	x, has := m.mapData[e.key]
	y, had := m.mapData[k]
	vEnsures("added", has && x == e.value && (k == e.key || had == is && y == v))
	l.DidSet(0, f, e)
	x, has = m.mapData[f.key]
	_, old := m.mapData[e.key]
	y, had = m.mapData[k]
	vEnsures("replaced", has && x == f.value && old == (f.key == e.key) && (k == e.key || k == f.key || had == is && y == v))
	l.DidRemove(0, f)
	_, has = m.mapData[f.key]
	y, had = m.mapData[k]
	vEnsures("removed", !has && (k == e.key || k == f.key || had == is && y == v))
	l.DidClear(nil)
	vEnsures("cleared", m.mapData == nil && vLockFree(&m.mapMutex))
}

// @property C10
// @native histories of up to 12 operations on the details of a real annotation
func spec_Map_History(h *vmMapHistory) {
	t := h.t
	m := GetFactory().CreateEAnnotation().GetDetails()
	keys := []string{"a", "b", "c", "d"}
	var ks []string
	vs := map[string]string{}
	for op := 0; op < h.n; op++ {
		k := keys[t.Choose(4)]
		v := keys[t.Choose(4)]
		at := -1
		for i, x := range ks {
			if x == k {
				at = i
			}
		}
		switch t.Choose(6) {
		case 0, 1:
			t.Say("put %s=%s", k, v)
			m.Put(k, v)
			if at < 0 {
				ks = append(ks, k)
			}
			vs[k] = v
		case 2:
			t.Say("remove %s", k)
			r := m.RemoveKey(k)
			if at >= 0 {
				vEnsures("removed", r == any(vs[k]))
				delete(vs, k)
				ks = append(append([]string{}, ks[:at]...), ks[at+1:]...)
			} else {
				vEnsures("nothing removed", r == nil)
			}
		case 3:
			t.Say("look up %s", k)
			m.ContainsKey(k)
		case 4:
			if t.Choose(3) == 0 {
				t.Say("clear")
				m.Clear()
				ks, vs = nil, map[string]string{}
			}
		case 5:
			if n := len(ks); n > 0 {
				i := t.Choose(n)
				t.Say("remove entry %d", i)
				m.RemoveAt(i)
				delete(vs, ks[i])
				ks = append(append([]string{}, ks[:i]...), ks[i+1:]...)
			}
		}
		vEnsures("size", m.Size() == len(ks))
		for i, x := range ks {
			e := m.Get(i).(EMapEntry)
			vEnsures("entries", e.GetKey() == any(x) && e.GetValue() == any(vs[x]))
		}
		if t.Bool() {
			for _, x := range keys {
				w, is := vs[x]
				vEnsures("look-up", m.ContainsKey(x) == is && (is && m.GetValue(x) == any(w) || !is && m.GetValue(x) == nil))
			}
		}
	}
}

type vmMapHistory struct {
	t *vTape
	n int
}

func vgen_vmMapHistory(t *vTape) *vmMapHistory { return &vmMapHistory{t: t, n: 1 + t.Choose(12)} }

// ---- generators for native execution ----

func vgen_eMapEntryImpl(t *vTape) *eMapEntryImpl {
	e := &eMapEntryImpl{key: t.Any(), value: t.Any()}
	t.Say("entry %v = %v", e.key, e.value)
	return e
}
func vgen_BasicEMap(t *vTape) *BasicEMap {
	m := NewBasicEMap()
	n := t.Choose(4)
	have := map[any]bool{}
	for i := 0; i < n; i++ {
		e := vgen_eMapEntryImpl(t)
		if !have[e.key] {
			have[e.key] = true
			m.Add(e)
			t.Keep(e)
		}
	}
	if t.Bool() {
		m.initDataMap()
		t.Say("with a look-up table")
	}
	t.Keep(m)
	t.Keep(vgen_eMapEntryImpl(t))
	return m
}
func vgen_basicEMapList(t *vTape) *basicEMapList {
	for _, x := range t.objs {
		if m, ok := x.(*BasicEMap); ok {
			return m.EList.(*basicEMapList)
		}
	}
	return newBasicEMapList(nil)
}

func vgen_BasicEObjectMap(t *vTape) *BasicEObjectMap {
	m := &BasicEObjectMap{}
	m.mapData = map[any]any{}
	for i := t.Choose(3); i > 0; i-- {
		m.mapData[t.Any()] = t.Any()
	}
	return m
}
func vgen_basicEObjectMapList(t *vTape) *basicEObjectMapList { return &basicEObjectMapList{} }
