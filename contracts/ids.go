package ecore

import "fmt"

// ---- ID managers ----

// an object whose class has an ID attribute (or not), with the identifier it holds
type vmIDObj struct {
	EObject
	cls *vmIDClass
	id  string
}
type vmIDClass struct {
	vmAnyClass
	has bool
	att *vmIDAttr
}
type vmIDAttr struct {
	EAttribute
	typ *vmIDType
}
type vmIDType struct {
	EDataType
	pkg *vmIDPkg
}
type vmIDPkg struct {
	EPackage
	fac *vmIDFac
}
type vmIDFac struct{ EFactory }

func (o *vmIDObj) EClass() EClass                   { return o.cls }
func (o *vmIDObj) EIsSet(f EStructuralFeature) bool { return o.id != "" }
func (o *vmIDObj) EGet(f EStructuralFeature) any    { return o.id }
func (o *vmIDObj) ESet(f EStructuralFeature, v any) {
	o.id = v.(string)
}
func (o *vmIDObj) EUnset(f EStructuralFeature) { o.id = "" }
func (c *vmIDClass) GetEIDAttribute() EAttribute {
	if c.has {
		return c.att
	}
	return nil
}
func (a *vmIDAttr) GetEAttributeType() EDataType              { return a.typ }
func (t *vmIDType) GetEPackage() EPackage                     { return t.pkg }
func (p *vmIDPkg) GetEFactoryInstance() EFactory              { return p.fac }
func (f *vmIDFac) ConvertToString(t EDataType, v any) string  { return v.(string) }
func (f *vmIDFac) CreateFromString(t EDataType, s string) any { return s }

func okIDObj(o *vmIDObj) bool {
	return o.cls != nil && (!o.cls.has || o.cls.att != nil && o.cls.att.typ != nil && o.cls.att.typ.pkg != nil && o.cls.att.typ.pkg.fac != nil)
}

// what is found by an identifier has that identifier
func foundHas(m *EObjectIDManagerImpl, id string) bool {
	o, ok := m.idToObject[id]
	if !ok {
		return true
	}
	i, is := m.objectToID[o]
	return o != nil && id != "" && is && i == id
}

func wfIDs(m *EObjectIDManagerImpl) bool {
	return m.idToObject != nil && m.objectToID != nil && vAll(func(id string) bool { return foundHas(m, id) }) &&
		vAll(func(o EObject) bool { return o == nil || m.objectToID[o] != "" || !hasName(m.objectToID, o) })
}

func hasName(m map[EObject]string, o EObject) bool {
	_, ok := m[o]
	return ok
}
func hasID(m map[EObject]any, o EObject) bool {
	_, ok := m[o]
	return ok
}
func hasObj(m map[any]EObject, i any) bool {
	_, ok := m[i]
	return ok
}
func hasPtr(m map[uintptr]any, p uintptr) bool {
	_, ok := m[p]
	return ok
}

// Registering an object makes it known by its identifier and changes nothing else.
//
// @property C09
func spec_IDs_Register(m *EObjectIDManagerImpl, o, x *vmIDObj, id string) {
	vRequires(wfIDs(m) && okIDObj(o) && okIDObj(x) && x != o)
	of, xid := m.GetEObject(id), m.GetID(x)
	was := m.GetID(o)
	m.Register(o)
	vEnsures("consistent", wfIDs(m))
	vEnsures("other objects", m.GetID(x) == xid)
	if o.cls.has && o.id != "" {
		vEnsures("registered", m.GetID(o) == any(o.id) && m.GetEObject(o.id) == EObject(o))
		vEnsures("other identifiers", id == o.id || of != EObject(o) && m.GetEObject(id) == of || of == EObject(o) && m.GetEObject(id) == nil)
	} else {
		vEnsures("no identifier", m.GetID(o) == was && m.GetEObject(id) == of)
	}
	vEnsures("the object's identifier", m.GetDetachedID(o) == any(o.id) || !o.cls.has && m.GetDetachedID(o) == any(""))
}

// @property C09
func spec_IDs_UnRegister(m *EObjectIDManagerImpl, o, x *vmIDObj, id string) {
	vRequires(wfIDs(m) && x != o)
	of, xid := m.GetEObject(id), m.GetID(x)
	m.UnRegister(o)
	vEnsures("consistent", wfIDs(m))
	vEnsures("forgotten", m.GetID(o) == nil && m.GetEObject(id) != EObject(o))
	vEnsures("others", m.GetID(x) == xid && (of == EObject(o) || m.GetEObject(id) == of))
}

// @property C09
func spec_IDs_SetID(m *EObjectIDManagerImpl, o, x *vmIDObj, id, to string, none, bad bool, other int) {
	vRequires(wfIDs(m) && okIDObj(o) && okIDObj(x) && o.cls.has && x != o)
	of, xid, was, oid := m.GetEObject(id), m.GetID(x), m.GetID(o), o.id
	var err error
	switch {
	case bad:
		err = m.SetID(o, other)
		vEnsures("refused", err != nil && m.GetID(o) == was && m.GetEObject(id) == of && m.GetID(x) == xid && o.id == oid)
		return
	case none:
		to = ""
		err = m.SetID(o, nil)
	default:
		err = m.SetID(o, to)
	}
	vEnsures("consistent", err == nil && wfIDs(m))
	vEnsures("set", o.id == to && (to == "" && m.GetID(o) == nil || to != "" && m.GetID(o) == any(to) && m.GetEObject(to) == EObject(o)))
	vEnsures("other identifiers", id == to && to != "" || of != EObject(o) && m.GetEObject(id) == of || of == EObject(o) && m.GetEObject(id) == nil)
	vEnsures("other objects", m.GetID(x) == xid)
}

// @property C09
func spec_IDs_Clear(m *EObjectIDManagerImpl, o *vmIDObj, id string, other int) {
	vRequires(wfIDs(m))
	vEnsures("no such identifier", m.GetEObject(other) == nil)
	m.Clear()
	vEnsures("nothing", wfIDs(m) && m.GetID(o) == nil && m.GetEObject(id) == nil)
}

// ---- unique IDs ----

type vmIDO struct{ EObject }

func objHas(m *UniqueIDManager[any], o EObject) bool {
	i, ok := m.objectToID[o]
	if !ok {
		return true
	}
	x, is := m.idToObject[i]
	return is && x == o && vUFB("valid", i)
}

func idHas(m *UniqueIDManager[any], i any) bool {
	o, ok := m.idToObject[i]
	if !ok {
		return true
	}
	x, is := m.objectToID[o]
	return is && x == i && o != nil
}

// one object per identifier and one identifier per object
func oneToOne(m *UniqueIDManager[any]) bool {
	return m.idToObject != nil && m.objectToID != nil && m.detachedToID != nil && vApart(m.objectToID, m.idToObject) && vLockFree(&m.mutex) &&
		vAll(func(o EObject) bool { return objHas(m, o) }) && vAll(func(i any) bool { return idHas(m, i) })
}

type vmIDGen struct {
	fresh, conv any
	bad         bool
}

// ids: m takes new identifiers from g and converts with it.
func ids(m *UniqueIDManager[any], g *vmIDGen) {
	m.newID = func() any { return g.fresh }
	m.isValidID = func(i any) bool { return vUFB("valid", i) }
	m.getID = func(a any) (any, error) {
		if g.bad {
			return nil, fmt.Errorf("bad")
		}
		return g.conv, nil
	}
	m.setID = func(i any) { vEmit(1, i) }
	vRequires(oneToOne(m) && !hasObj(m.idToObject, g.fresh) && g.fresh != nil && vUFB("valid", g.fresh))
}

// @property C09
func spec_UniqueID_Register(m *UniqueIDManager[any], g *vmIDGen, o, x *vmIDO, i any) {
	vRequires(x != o)
	ids(m, g)
	was, xid, of := m.GetID(o), m.GetID(x), m.idToObject[i]
	det := m.GetDetachedID(o)
	knew := hasID(m.objectToID, EObject(o))
	hadDet := hasPtr(m.detachedToID, m.getPointer(o))
	usable := hadDet && !hasObj(m.idToObject, det) && vUFB("valid", det)
	invalid := hadDet && !hasObj(m.idToObject, det) && !vUFB("valid", det)
	vRequires(!invalid)
	m.Register(o)
	vEnsures("one to one", oneToOne(m))
	vEnsures("other objects", m.GetID(x) == xid)
	id := m.GetID(o)
	vEnsures("registered", hasID(m.objectToID, EObject(o)) && (!knew || id == was) && (knew || usable && id == det || !usable && id == g.fresh))
	vEnsures("other identifiers", !knew && i == id || m.idToObject[i] == of)
	vEnsures("found", m.idToObject[id] == EObject(o))
}

// @property C09
func spec_UniqueID_UnRegister(m *UniqueIDManager[any], g *vmIDGen, o, x *vmIDO, i any) {
	vRequires(x != o)
	ids(m, g)
	was, xid, of := m.GetID(o), m.GetID(x), m.idToObject[i]
	det, xdet := m.GetDetachedID(o), m.GetDetachedID(x)
	knew := hasID(m.objectToID, EObject(o))
	m.UnRegister(o)
	vEnsures("one to one", oneToOne(m))
	vEnsures("forgotten", m.GetID(o) == nil && !hasID(m.objectToID, EObject(o)))
	vEnsures("others", m.GetID(x) == xid && (of == EObject(o) && m.idToObject[i] == nil || of != EObject(o) && m.idToObject[i] == of))
	vEnsures("remembered", knew && m.GetDetachedID(o) == was || !knew && m.GetDetachedID(o) == det)
	vEnsures("other detached", m.GetDetachedID(x) == xdet)
	m.Register(o)
	vEnsures("the same again", !knew || m.GetID(o) == was && m.idToObject[was] == EObject(o))
}

// @property C09
func spec_UniqueID_SetID(m *UniqueIDManager[any], g *vmIDGen, o, x *vmIDO, i any) {
	vRequires(x != o)
	ids(m, g)
	was, xid, of := m.GetID(o), m.GetID(x), m.idToObject[i]
	knew, xknew := hasID(m.objectToID, EObject(o)), hasID(m.objectToID, EObject(x))
	n := vTraceLen()
	err := m.SetID(o, i)
	vEnsures("one to one", oneToOne(m))
	switch {
	case g.bad:
		vEnsures("refused", err != nil && m.GetID(o) == was && hasID(m.objectToID, EObject(o)) == knew && m.idToObject[i] == of && m.GetID(x) == xid && vTraceLen() == n)
	case vUFB("valid", g.conv):
		vEnsures("set", err == nil && m.GetID(o) == g.conv && hasID(m.objectToID, EObject(o)) && m.GetEObject(i) == EObject(o) && vTraceLen() == n+1 && vEvent(n, 1, g.conv))
		vEnsures("others", (xknew && xid == g.conv && !hasID(m.objectToID, EObject(x))) || (!xknew || xid != g.conv) && m.GetID(x) == xid)
		vEnsures("other identifiers", i == g.conv || of == EObject(o) && m.idToObject[i] == nil || of != EObject(o) && m.idToObject[i] == of)
	default:
		vEnsures("none", err == nil && !hasID(m.objectToID, EObject(o)) && m.GetID(x) == xid)
	}
}

// @property C09
func spec_UniqueID_Clear(m *UniqueIDManager[any], g *vmIDGen, o *vmIDO, i any) {
	ids(m, g)
	m.Clear()
	vEnsures("nothing", oneToOne(m) && m.GetID(o) == nil && m.GetEObject(i) == nil && m.GetDetachedID(o) == nil)
}

// Numbers are never given twice.
//
// @property C09
func spec_IncrementalID_New(a, b, c *vmO, k int64, set bool) {
	vRequires(a != b && b != c && a != c && k >= 0)
	m := NewIncrementalIDManager()
	m.Register(a)
	vEnsures("first", m.GetID(a) == any(int64(0)) && m.GetEObject(int64(0)) == EObject(a))
	if set {
		vEnsures("set", m.SetID(b, k) == nil && m.GetID(b) == any(k) && m.GetEObject(k) == EObject(b))
		vEnsures("taken over", (k == 0) == (m.GetID(a) == nil))
	} else {
		m.UnRegister(a)
		m.Register(b)
		vEnsures("second", m.GetID(b) == any(int64(1)))
	}
	m.Register(c)
	vEnsures("new", m.GetID(c) != nil && m.GetID(c) != m.GetID(a) && m.GetID(c) != m.GetID(b) && m.GetEObject(m.GetID(c)) == EObject(c))
	vEnsures("wrong kind", m.SetID(c, true) != nil && m.GetEObject(true) == nil)
	vEnsures("none", m.SetID(c, nil) == nil && m.GetID(c) == nil)
}

// A new number is above every number given before: j stands for the highest one given (so the counter is
// arbitrary), k for one that is then set.
//
// @property C09
func spec_IncrementalID_Counter(j, k int64) {
	vRequires(j >= 0 && k >= 0)
	m := NewIncrementalIDManager()
	m.setID(j)
	m.setID(k)
	n := m.newID()
	vEnsures("above those given", n > j && n > k)
	vEnsures("and above itself", m.newID() > n && m.isValidID(n) && m.isValidID(k) && !m.isValidID(-1))
}

// ---- generators for native execution ----

var vIDNames = []string{"a", "b", "c", ""}

func vgen_EObjectIDManagerImpl(t *vTape) *EObjectIDManagerImpl {
	m := NewEObjectIDManagerImpl().(*EObjectIDManagerImpl)
	fac := &vmIDFac{}
	for i := 0; i < 3; i++ {
		o := &vmIDObj{id: vIDNames[t.Choose(4)]}
		o.cls = &vmIDClass{has: i < 2 || t.Bool(), att: &vmIDAttr{typ: &vmIDType{pkg: &vmIDPkg{fac: fac}}}}
		if !o.cls.has {
			o.id = ""
		}
		t.Keep(o)
		k := vIDNames[t.Choose(4)]
		if k != "" {
			m.objectToID[o] = k
			if t.Choose(4) > 0 {
				m.idToObject[k] = o
			}
		}
		t.Say("object %d has identifier %q and is known as %q", i, o.id, k)
	}
	return m
}
func vgen_vmIDObj(t *vTape) *vmIDObj {
	var os []*vmIDObj
	for _, x := range t.objs {
		if o, ok := x.(*vmIDObj); ok {
			os = append(os, o)
		}
	}
	i := t.Choose(len(os))
	t.Say("object %d", i)
	return os[i]
}
func vgen_UniqueIDManager(t *vTape) *UniqueIDManager[any] {
	m := NewUniqueIDManager[any](nil, nil, nil, nil)
	for i := 0; i < 3; i++ {
		o := &vmIDO{}
		t.Keep(o)
		if j := t.Choose(5); j < 3 {
			m.objectToID[o] = vIDNames[j]
			m.idToObject[vIDNames[j]] = o
			t.Say("object %d has identifier %q", i, vIDNames[j])
		}
		if j := t.Choose(5); j < 3 {
			m.detachedToID[m.getPointer(o)] = vIDNames[j]
			t.Say("object %d had identifier %q", i, vIDNames[j])
		}
	}
	return m
}
func vgen_vmIDGen(t *vTape) *vmIDGen {
	return &vmIDGen{fresh: []any{"a", "b", "c", "d", 1}[t.Choose(5)], conv: []any{"a", "b", "c", "d", 2}[t.Choose(5)], bad: t.Choose(4) == 0}
}
func vgen_vmIDO(t *vTape) *vmIDO { return t.objs[t.Choose(len(t.objs))].(*vmIDO) }
func vgen_int64(t *vTape) int64  { return int64(t.Choose(5)) }
