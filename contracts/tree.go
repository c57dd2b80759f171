package ecore

// ---- walking a tree of objects ----

// A node of a tree, numbered in the order of the walk: its descendants have the numbers after its own up to end.
type vmNode struct {
	pre, end int
	depth    int
	kids     *vmKids
}

// The children of a node: child i and its descendants have the numbers from at[i] up to at[i+1].
type vmKids struct {
	at    []int
	depth int // that of the parent
	data  []*vmNode
}

func (k *vmKids) to() int { return k.at[len(k.data)] }

// vmWalk is an iterator on children.
type vmWalk struct {
	kids   *vmKids
	cursor int
}

func (w *vmWalk) HasNext() bool { return w.cursor < len(w.kids.data) }
func (w *vmWalk) Next() any {
	r := w.kids.data[w.cursor]
	w.cursor++
	return r
}

func childrenOf(o any) EIterator { return &vmWalk{kids: o.(*vmNode).kids} }

// the number of what the iterator gives next
func (w *vmWalk) pos() int { return w.kids.at[w.cursor] }

func okNode(n *vmNode) bool {
	return n.kids != nil && vBorn(n.kids) && n.pre >= 0 && n.pre < n.end && n.kids.at[0] == n.pre+1 && n.kids.to() == n.end && n.kids.depth == n.depth
}

func okKids(k *vmKids) bool {
	n := len(k.data)
	return len(k.at) == n+1 && vForall(0, n, func(i int) bool { return k.at[i] < k.at[n] }) && vForall(0, n, func(i int) bool {
		c := k.data[i]
		return c != nil && vBorn(c) && c.depth == k.depth+1 && c.pre == k.at[i] && c.end == k.at[i+1] && k.at[i] < k.at[i+1]
	})
}

func trees() bool {
	return vAll(func(n *vmNode) bool { return vTrig(n == nil || !vBorn(n) || okNode(n), n.kids) }) &&
		vAll(func(k *vmKids) bool { return vTrig(k == nil || !vBorn(k) || okKids(k), k.data) })
}

// a place in the walk: the number of the next element
type vmPlace struct{ p int }

func walkAt(it *treeIterator, i int) *vmWalk { return it.data[i].(*vmWalk) }

// okStack: every walk on the stack goes on where those above it end.
func okStack(it *treeIterator, r *vmNode) bool {
	n := len(it.data)
	return vForall(0, n, func(i int) bool {
		w, ok := it.data[i].(*vmWalk)
		return ok && w != nil && w.kids != nil && vBorn(w) && vBorn(w.kids) && w.cursor >= 0 && w.cursor <= len(w.kids.data) && w.kids.to() <= r.end && w.kids.depth == r.depth+i
	}) && (n == 0 || walkAt(it, 0).kids.to() == r.end) &&
		vForall(0, n, func(i int) bool {
			return vTrig(vForall(0, n, func(j int) bool { return vTrig(j != i+1 || walkAt(it, j).kids.to() == walkAt(it, i).pos(), it.data[j]) }), it.data[i])
		})
}

// okWalk: the next element of the walk it has number p.
func okWalk(it *treeIterator, r *vmNode, p int) bool {
	n := len(it.data)
	if it.data == nil {
		return it.root && p == r.pre || !it.root && p == r.pre+1
	}
	return okStack(it, r) && (n == 0 && p == r.end || n > 0 && walkAt(it, n-1).pos() == p && (n == 1 && p == r.end || walkAt(it, n-1).HasNext()))
}

// @property C11
func spec_Tree_HasNext(it *treeIterator, r *vmNode, at *vmPlace) {
	p := at.p
	it.object, it.getChildren = r, childrenOf
	vRequires(trees() && vBorn(r) && okWalk(it, r, p))
	h := it.HasNext()
	vEnsures("more", h == (p < r.end))
	vEnsures("the same place", okWalk(it, r, p))
}

// @property C11
// @inv tree
func spec_Tree_Next(it *treeIterator, r *vmNode, at *vmPlace) {
	p := at.p
	it.object, it.getChildren = r, childrenOf
	vRequires(trees() && vBorn(r) && okWalk(it, r, p) && p < r.end)
	x := it.Next().(*vmNode)
	vEnsures("the next in order", x.pre == p)
	vEnsures("one further", okWalk(it, r, p+1))
}

func inv_treeIterator_Next_1__tree(it *treeIterator, current EIterator, unit_r *vmNode, unit_at *vmPlace) bool {
	n := len(it.data)
	w, ok := current.(*vmWalk)
	return n > 0 && ok && current == it.data[n-1] && w.pos() == unit_at.p+1 && okStack(it, unit_r)
}

// EAllContents walks the contents of the objects it finds.
//
// @property C11
func spec_EAllContents(o *vmTreeObj, x *vmTreeObj) {
	it := newEAllContentsIterator(o)
	vEnsures("from the object, without it", it.object == any(o) && !it.root && it.data == nil)
	w := it.getChildren(x).(*listIterator)
	vEnsures("the contents of each object", w.list == EList(x.contents) && w.cursor == 0)
}

// The contents of a resource are those of its roots.
//
// @property C11
func spec_Resource_AllContents(r *EResourceImpl, l *immutableEList, x *vmTreeObj) {
	r.interfaces, r.contents = r, nil
	r.contents = l
	it := r.GetAllContents().(*treeIterator)
	vEnsures("from the resource, without it", it.object == any(r) && !it.root && it.data == nil)
	w := it.getChildren(r).(*listIterator)
	vEnsures("first the roots", w.list == EList(l) && w.cursor == 0)
	w = it.getChildren(x).(*listIterator)
	vEnsures("then the contents of each object", w.list == EList(x.contents) && w.cursor == 0)
}

type vmTreeObj struct {
	EObject
	contents *immutableEList
}

func (o *vmTreeObj) EContents() EList { return o.contents }

// ---- native generators ----

func growNode(t *vTape, pre, depth int) *vmNode {
	n := &vmNode{pre: pre, depth: depth, kids: &vmKids{depth: depth}}
	at := pre + 1
	k := 0
	if depth < 3 {
		k = t.Choose(4)
	} else if depth < 8 {
		k = t.Choose(2)
	}
	for i := 0; i < k; i++ {
		c := growNode(t, at, depth+1)
		n.kids.at, n.kids.data = append(n.kids.at, at), append(n.kids.data, c)
		at = c.end
	}
	n.kids.at = append(n.kids.at, at)
	n.end = at
	t.Keep(n)
	t.Keep(n.kids)
	return n
}

var vTreeNode *vmNode

func vgen_treeIterator(t *vTape) *treeIterator {
	vTreeNode = growNode(t, 0, 0)
	it := newTreeIterator(vTreeNode, t.Bool(), childrenOf)
	vTreeAt = 0
	if !it.root {
		vTreeAt = 1
	}
	for k := t.Choose(12); k > 0 && it.HasNext(); k-- {
		if vTreeAt = it.Next().(*vmNode).pre + 1; k > 1 && t.Bool() {
			k--
		}
	}
	return it
}

var vTreeAt int

func vgen_vmPlace(t *vTape) *vmPlace     { return &vmPlace{vTreeAt} }
func vgen_vmNode(t *vTape) *vmNode       { return vTreeNode }
func vgen_vmTreeObj(t *vTape) *vmTreeObj { return &vmTreeObj{contents: NewImmutableEList(t.Anys(2))} }
func vgen_EResourceImpl(t *vTape) *EResourceImpl {
	r := NewEResourceImpl()
	r.SetInterfaces(r)
	t.Keep(r)
	return r
}

type vmByClass struct {
	t *vTape
	n int
}

func vgen_vmByClass(t *vTape) *vmByClass { return &vmByClass{t, 1 + t.Choose(8)} }
func (h *vmByClass) vShow() string       { return "a tree of objects of a model" }

// The contents of a class are the objects held by containments of that class, at any depth.
//
// @property C11
// @native models of up to 4 classes and 4 containments, trees of up to 8 objects
func spec_AllContents_ByClass(h *vmByClass) {
	t, f := h.t, GetFactory()
	p := f.CreateEPackage()
	fac := f.CreateEFactory()
	p.SetEFactoryInstance(fac)
	var cs []EClass
	for i := 0; i < 4; i++ {
		c := f.CreateEClass()
		c.SetName(string(rune('A' + i)))
		p.GetEClassifiers().Add(c)
		cs = append(cs, c)
	}
	type ref struct {
		r        EReference
		from, to EClass
		many     bool
	}
	var rs []ref
	for i := 0; i < 4; i++ {
		x := ref{f.CreateEReference(), cs[t.Choose(4)], cs[t.Choose(4)], t.Bool()}
		x.r.SetName(string(rune('a' + i)))
		x.r.SetContainment(true)
		x.r.SetEType(x.to)
		if x.many {
			x.r.SetUpperBound(-1)
		}
		x.from.GetEStructuralFeatures().Add(x.r)
		rs = append(rs, x)
		t.Say("%s.%s: %s, many %v", x.from.GetName(), x.r.GetName(), x.to.GetName(), x.many)
	}
	start, end := cs[0], cs[t.Choose(4)]
	vRequires(start != end)
	objs := []EObject{fac.Create(start)}
	var want []EObject
	for i := 0; i < h.n; i++ {
		k := t.Choose(len(objs))
		o := objs[k]
		j := t.Choose(4)
		for rs[j].from != o.EClass() && j < 3 {
			j++
		}
		x := rs[j]
		if o.EClass() != x.from || !x.many && o.EIsSet(x.r) {
			continue
		}
		c := fac.Create(x.to)
		if x.many {
			o.EGet(x.r).(EList).Add(c)
		} else {
			o.ESet(x.r, c)
		}
		t.Say("object %d is %s of object %d", len(objs), x.r.GetName(), k)
		objs = append(objs, c)
		if x.to == end {
			want = append(want, c)
		}
	}
	t.Say("find the contents of class %s", end.GetName())
	n := 0
	seen := map[any]bool{}
	for it := EAllContentsWithClass(objs[0], end); it.HasNext(); {
		x := it.Next()
		vEnsures("an object of the class, once", x != nil && x.(EObject).EClass() == end && !seen[x])
		for _, o := range want {
			if IsAncestor(o, x.(EObject)) && o != x {
				vEnsures("after what contains it", seen[o])
			}
		}
		seen[x] = true
		n++
	}
	vEnsures("all of them", n == len(want))
}
