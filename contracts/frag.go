package ecore

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- segments: one step from a container to what a feature holds ----

type vmSegFeature struct {
	EStructuralFeature
	name string
	many bool
}

func (f *vmSegFeature) GetName() string { return f.name }
func (f *vmSegFeature) IsMany() bool    { return f.many }

// vmSegClass knows one feature by its name, and perhaps another one.
type vmSegClass struct {
	vmAnyClass
	f, other *vmSegFeature
}

func (c *vmSegClass) GetEStructuralFeatureFromName(name string) EStructuralFeature {
	if name == c.f.name {
		return c.f
	}
	if c.other != nil && name == c.other.name {
		return c.other
	}
	return nil
}

// vmSegOwner holds something in the feature.
type vmSegOwner struct {
	AbstractEObject
	cls         *vmSegClass
	held, other any
}

func (o *vmSegOwner) EClass() EClass { return o.cls }
func (o *vmSegOwner) EGetResolve(f EStructuralFeature, resolve bool) any {
	if resolve {
		panic("the unresolved value is asked")
	}
	if f == EStructuralFeature(o.cls.f) {
		return o.held
	}
	return o.other
}
func (o *vmSegOwner) EInternalContainer() EObject            { return nil }
func (o *vmSegOwner) EInternalContainerFeatureID() int       { return -1 }
func (o *vmSegOwner) EInternalResource() EResource           { return nil }
func (o *vmSegOwner) ESetInternalContainer(c EObject, i int) {}
func (o *vmSegOwner) ESetInternalResource(r EResource)       {}
func (o *vmSegOwner) EDynamicProperties() EDynamicProperties { return nil }
func (o *vmSegOwner) EContents() EList                       { return nil }
func (o *vmSegOwner) ECrossReferences() EList                { return nil }
func (o *vmSegOwner) EIsProxy() bool                         { return false }
func (o *vmSegOwner) EProxyURI() *URI                        { return nil }
func (o *vmSegOwner) ESetProxyURI(uri *URI)                  {}
func (o *vmSegOwner) EBasicHasAdapters() bool                { return false }
func (o *vmSegOwner) EDeliver() bool                         { return false }
func (o *vmSegOwner) EAdapters() EList                       { return nil }

type vmSegObj struct{ EObject }

func inv_immutableEList_IndexOf_1__index(l *immutableEList, elem any, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return l.data[i] != elem })
}

// The segment of an element of a many-valued feature names the feature and the position, whatever the feature's name.
//
// @property C12
// @text a .1 2 @
// @inv index
func spec_Segment_Many(o *vmSegOwner, f *vmSegFeature, x *vmSegObj, l *immutableEList, p int) {
	o.interfaces, o.held = o, l
	f.many = true
	vRequires(o.cls != nil && o.cls.f == f && f != nil && 0 <= p && p < len(l.data) && l.data[p] == any(x) && vForall(0, p, func(i int) bool { return l.data[i] != any(x) }))
	s := o.EURIFragmentSegment(f, x)
	vEnsures("the feature and the position", s == "@"+f.name+"."+strconv.Itoa(p))
	y := o.EObjectForFragmentSegment(s)
	vEnsures("leads back", y == EObject(x))
}

// @property C12
// @text a .1 2 @ .x
func spec_Segment_One(o *vmSegOwner, f *vmSegFeature, x *vmSegObj) {
	vRequires(strings.LastIndex("@"+f.name, ".") == -1 && o.cls != nil && o.cls.f == f)
	o.interfaces, o.held = o, x
	f.many = false
	s := o.EURIFragmentSegment(f, x)
	vEnsures("the feature", s == "@"+f.name)
	y := o.EObjectForFragmentSegment(s)
	vEnsures("leads back", y == EObject(x))
}

// ---- paths ----

// vmLineObj is an object of a tree: its container knows it by its segment.
type vmLineObj struct {
	EObjectInternal
	up    *vmLineObj
	depth int
	seg   string
	kids  map[string]*vmLineObj
	res   EResource
	cls   *vmLineClass
	id    string
}

type vmLineClass struct {
	vmAnyClass
	id *vmLineID
}
type vmLineID struct{ EAttribute }
type vmLineType struct{ EDataType }
type vmLinePkg struct{ EPackage }
type vmLineFac struct{ EFactory }

func (c *vmLineClass) GetEIDAttribute() EAttribute {
	if c.id == nil {
		return nil
	}
	return c.id
}
func (a *vmLineID) GetEAttributeType() EDataType               { return &vmLineType{} }
func (a *vmLineType) GetEPackage() EPackage                    { return &vmLinePkg{} }
func (a *vmLinePkg) GetEFactoryInstance() EFactory             { return &vmLineFac{} }
func (a *vmLineFac) ConvertToString(t EDataType, v any) string { return v.(string) }

func (o *vmLineObj) EClass() EClass                         { return o.cls }
func (o *vmLineObj) EIsSet(f EStructuralFeature) bool       { return o.id != "" }
func (o *vmLineObj) EGet(f EStructuralFeature) any          { return o.id }
func (o *vmLineObj) EContainingFeature() EStructuralFeature { return nil }
func (o *vmLineObj) EInternalResource() EResource           { return o.res }
func (o *vmLineObj) EContainer() EObject {
	if o.up == nil {
		return nil
	}
	return o.up
}
func (o *vmLineObj) EInternalContainer() EObject { return o.EContainer() }
func (o *vmLineObj) EURIFragmentSegment(f EStructuralFeature, x EObject) string {
	return x.(*vmLineObj).seg
}
func (o *vmLineObj) EObjectForFragmentSegment(s string) EObject {
	if k, ok := o.kids[s]; ok && k != nil {
		return k
	}
	return nil
}

// vmLine is an object with its containers, the outermost first.
type vmLine struct{ at []*vmLineObj }

func okLine(l *vmLine) bool {
	n := len(l.at)
	return n > 0 && vForall(0, n, func(i int) bool {
		o := l.at[i]
		return o != nil && o.depth == i && o.cls != nil && (i == 0) == (o.up == nil) && o.seg != "" && !strings.Contains(o.seg, "/")
	}) && vForall(1, n, func(i int) bool { return vTrig(l.at[i].up == l.at[i-1], l.at[i].up) }) &&
		vForall(1, n, func(i int) bool { return vTrig(l.at[i-1].kids[l.at[i].seg] == l.at[i], l.at[i].seg) })
}

// The path of an object without identifier leads back to it.
//
// @property C12
// @inv path index
func spec_Fragment_Path(r *EResourceImpl, line *vmLine, c *immutableEList, p int) {
	n := len(line.at)
	vRequires(okLine(line))
	root, x := line.at[0], line.at[n-1]
	r.interfaces, r.contents, r.objectIDManager = r, nil, nil
	r.contents = c
	vRequires(x.cls.id == nil && vForall(0, n, func(i int) bool { return (line.at[i].res == EResource(r)) == (i == 0) }))
	vRequires(0 <= p && p < len(c.data) && c.data[p] == any(root) && vForall(0, p, func(i int) bool { return c.data[i] != any(root) }))
	s := r.GetURIFragment(x)
	y := r.GetEObject(s)
	vEnsures("leads back", y == EObject(x))
}

func inv_EResourceImpl_GetURIFragment_1__path(internalEObject EObjectInternal, eContainer EObjectInternal, fragmentPath []string, isContained bool, id string, unit_line *vmLine) bool {
	o, ok := internalEObject.(*vmLineObj)
	n := len(unit_line.at) - 1
	if !ok || o == nil || o.depth < 0 || o.depth > n || unit_line.at[o.depth] != o || isContained || id != "" {
		return false
	}
	if o.up == nil && eContainer != nil || o.up != nil && eContainer != EObjectInternal(o.up) {
		return false
	}
	return len(fragmentPath) == n-o.depth && o.depth > 0 && vForall(0, n-o.depth, func(j int) bool { return fragmentPath[j] == unit_line.at[o.depth+1+j].seg })
}

func inv_EResourceImpl_getObjectByPath_1__path(i int, eObject EObject, uriFragmentPath []string, unit_line *vmLine) bool {
	n := len(unit_line.at)
	return i >= 1 && i <= n && len(uriFragmentPath) == n && eObject == EObject(unit_line.at[i-1]) &&
		vForall(1, n, func(j int) bool { return uriFragmentPath[j] == unit_line.at[j].seg })
}

// An object of an unrelated resource has no path.
//
// @property C12
// @inv none
func spec_Fragment_None(r *EResourceImpl, line *vmLine, c *immutableEList) {
	n := len(line.at)
	vRequires(okLine(line))
	x := line.at[n-1]
	r.interfaces, r.contents, r.objectIDManager = r, nil, nil
	r.contents = c
	vRequires(x.cls.id == nil && vForall(0, n, func(i int) bool { return line.at[i].res != EResource(r) }))
	vEnsures("nowhere", r.GetURIFragment(x) == "/-1")
	vEnsures("leads nowhere", r.GetEObject("/-1") == nil)
}

func inv_EResourceImpl_GetURIFragment_1__none(internalEObject EObjectInternal, eContainer EObjectInternal, isContained bool, unit_line *vmLine) bool {
	o, ok := internalEObject.(*vmLineObj)
	if !ok || o == nil || o.depth < 0 || o.depth >= len(unit_line.at) || unit_line.at[o.depth] != o || isContained {
		return false
	}
	return o.up == nil && eContainer == nil || o.up != nil && eContainer == EObjectInternal(o.up)
}

// The path from a container leads back from it.
//
// @property C12
// @inv rel
func spec_Relative_Path(line *vmLine, k int) {
	n := len(line.at)
	vRequires(okLine(line) && 0 <= k && k < n)
	a, x := line.at[k], line.at[n-1]
	s := getRelativeURIFragmentPath(a, x, false)
	y := GetEObject(a, s)
	vEnsures("leads back", y == EObject(x))
}

func inv_getRelativeURIFragmentPath_1__rel(eObject, eContainer EObject, visited map[EObject]struct{}, fragmentPath []string, unit_line *vmLine, unit_k int) bool {
	o, ok := eObject.(*vmLineObj)
	n := len(unit_line.at) - 1
	if !ok || o == nil || o.depth <= unit_k || o.depth > n || unit_line.at[o.depth] != o || eContainer != EObject(o.up) {
		return false
	}
	return len(fragmentPath) == n-o.depth && vForall(0, n-o.depth, func(j int) bool { return fragmentPath[j] == unit_line.at[o.depth+1+j].seg }) &&
		vAll(func(x *vmLineObj) bool {
			_, in := visited[x]
			return vTrig(!in || x.depth > o.depth, x.depth)
		})
}

func inv_GetEObject_1__rel(i int, eObject EObject, segments []string, unit_line *vmLine, unit_k int) bool {
	n := len(unit_line.at)
	return i >= 0 && i+unit_k < n && len(segments) == n-1-unit_k && eObject == EObject(unit_line.at[i+unit_k]) &&
		vForall(0, n-1-unit_k, func(j int) bool { return segments[j] == unit_line.at[j+1+unit_k].seg })
}

// ---- identifiers ----

// An object with an identifier is found by it.
//
// @property C12
// @text a b ? /
func spec_Fragment_ID(r *EResourceImpl, x *vmLineObj) {
	r.interfaces, r.objectIDManager = r, nil
	vRequires(x.cls != nil && x.cls.id != nil && x.id != "")
	vEnsures("the identifier", r.GetURIFragment(x) == x.id)
}

// vmIDs is an identifier manager that gives one object an identifier.
type vmIDs struct {
	EObjectIDManager
	id string
	o  *vmLineObj
}

func (m *vmIDs) GetID(o EObject) any {
	if o == EObject(m.o) {
		return m.id
	}
	return nil
}
func (m *vmIDs) GetEObject(id any) EObject {
	if id == any(m.id) {
		return m.o
	}
	return nil
}

// An object a manager gives an identifier is found by it.
//
// @property C12
// @inv managed
func spec_Fragment_Managed(r *EResourceImpl, m *vmIDs, line *vmLine) {
	n := len(line.at)
	vRequires(okLine(line) && m.id != "" && m.id[0] != '/' && m.id[len(m.id)-1] != '?')
	x := line.at[n-1]
	r.interfaces, r.objectIDManager = r, m
	m.o = x
	vRequires(x.cls.id == nil && line.at[0].res == EResource(r))
	s := r.GetURIFragment(x)
	vEnsures("the identifier", s == m.id)
	y := r.GetEObject(s)
	vEnsures("leads back", y == EObject(x))
}

func inv_EResourceImpl_GetURIFragment_1__managed(internalEObject EObjectInternal, eContainer EObjectInternal, fragmentPath []string, isContained bool, id string, unit_m *vmIDs, unit_line *vmLine) bool {
	o, ok := internalEObject.(*vmLineObj)
	n := len(unit_line.at) - 1
	if !ok || o == nil || o.depth < 0 || o.depth > n || unit_line.at[o.depth] != o || isContained {
		return false
	}
	if o.up == nil && eContainer != nil || o.up != nil && eContainer != EObjectInternal(o.up) {
		return false
	}
	return o.depth > 0 && len(fragmentPath) == 0 && (o.depth == n || id == unit_m.id)
}

// ---- ancestors ----

// @property C12
// @inv anc
func spec_GetAncestor(line *vmLine, c *vmLineClass, k int) {
	n := len(line.at)
	vRequires(okLine(line) && c != nil && -1 <= k && k < n && (k == -1 || line.at[k].cls == c) && vForall(k+1, n, func(i int) bool { return line.at[i].cls != c }))
	y := GetAncestor(line.at[n-1], c)
	if k == -1 {
		vEnsures("none", y == nil)
	} else {
		vEnsures("the nearest", y == EObject(line.at[k]))
	}
}

func inv_GetAncestor_1__anc(eCurrent EObject, unit_line *vmLine, unit_k int) bool {
	o, ok := eCurrent.(*vmLineObj)
	if eCurrent == nil {
		return unit_k == -1
	}
	return ok && o != nil && o.depth >= 0 && o.depth >= unit_k && o.depth < len(unit_line.at) && unit_line.at[o.depth] == o
}

// @property C12
// @inv anc
func spec_IsAncestor(line *vmLine, a *vmLineObj, k int) {
	n := len(line.at)
	vRequires(okLine(line) && a != nil && -1 <= k && k < n && (k == -1 || line.at[k] == a) && vForall(k+1, n, func(i int) bool { return line.at[i] != a }))
	vEnsures("on the line", IsAncestor(a, line.at[n-1]) == (k >= 0))
}

func inv_IsAncestor_1__anc(eCurrent EObject, unit_line *vmLine, unit_k int) bool {
	o, ok := eCurrent.(*vmLineObj)
	if eCurrent == nil {
		return unit_k == -1
	}
	return ok && o != nil && o.depth >= 0 && o.depth >= unit_k && o.depth < len(unit_line.at) && unit_line.at[o.depth] == o
}

// ---- proxies ----

// vmStep is an object that may be a proxy of another one; end is the object reached in the end (ghost).
type vmStep struct {
	EObjectInternal
	uri *URI
	end *vmStep
	res EResource
}

func (s *vmStep) EProxyURI() *URI      { return s.uri }
func (s *vmStep) EResource() EResource { return s.res }

// vmSteps is a resource set that finds what proxies stand for.
type vmSteps struct {
	EResourceSet
	at map[*URI]*vmStep
}

func (rs *vmSteps) GetEObject(uri *URI, load bool) EObject {
	if o, ok := rs.at[uri]; ok && load && o != nil {
		return o
	}
	return nil
}

func okSteps(rs *vmSteps) bool {
	return vAll(func(o *vmStep) bool {
		if o == nil || !vBorn(o) {
			return true
		}
		if o.uri == nil || rs.at[o.uri] == nil || rs.at[o.uri] == o {
			return vTrig(o.end == o, o.end)
		}
		return vTrig(vBorn(rs.at[o.uri]) && o.end == rs.at[o.uri].end, o.end)
	})
}

// Resolving follows proxies to the first object that is none, or that stands for nothing.
//
// @property C12
// @contract ResolveInResourceSet
func spec_Resolve(o *vmStep, rs *vmSteps) EObject {
	vRequires(vBorn(o) && okSteps(rs))
	y := ResolveInResourceSet(o, rs)
	vEnsures("the end", y == EObject(o.end))
	return y
}

type vmStepRes struct {
	EResource
	rs *vmSteps
}

func (r *vmStepRes) GetResourceSet() EResourceSet { return r.rs }

// @property C12
// @uses spec_Resolve
func spec_Resolve_Resource(o *vmStep, r *vmStepRes, rs *vmSteps) {
	vRequires(vBorn(o) && okSteps(rs) && r.rs == rs)
	vEnsures("by resource", ResolveInResource(o, r) == EObject(o.end))
}

// @property C12
// @uses spec_Resolve
func spec_Resolve_Object(o, c *vmStep, r *vmStepRes, rs *vmSteps) {
	vRequires(vBorn(o) && okSteps(rs) && r.rs == rs && c.res == EResource(r))
	vEnsures("by object", ResolveInObject(o, c) == EObject(o.end))
}

// ---- taking an object out ----

const (
	evHeldRemove = 60
	evHeldUnset  = 61
	evRootRemove = 62
)

type vmHeld struct {
	EObjectInternal
	in  *vmHolds
	f   *vmHoldRef
	res *vmHeldRes
}

func (o *vmHeld) EInternalContainer() EObject {
	if o.in == nil {
		return nil
	}
	return o.in
}
func (o *vmHeld) EContainmentFeature() EReference {
	if o.f == nil {
		return nil
	}
	return o.f
}
func (o *vmHeld) EInternalResource() EResource {
	if o.res == nil {
		return nil
	}
	return o.res
}

type vmHoldRef struct {
	EReference
	many bool
}

func (f *vmHoldRef) IsMany() bool { return f.many }

type vmHolds struct {
	EObject
	l *vmHeldList
}

func (c *vmHolds) EGet(f EStructuralFeature) any { return c.l }
func (c *vmHolds) EUnset(f EStructuralFeature)   { vEmit(evHeldUnset, c, f) }

type vmHeldList struct{ EList }

func (l *vmHeldList) Remove(x any) bool {
	vEmit(evHeldRemove, l, x)
	return true
}

type vmHeldRes struct {
	EResource
	l *vmRootList
}
type vmRootList struct{ EList }

func (r *vmHeldRes) GetContents() EList { return r.l }
func (l *vmRootList) Remove(x any) bool {
	vEmit(evRootRemove, l, x)
	return true
}

// Removing an object takes it out of its container and of its resource.
//
// @property C12
func spec_Remove(o *vmHeld) {
	vRequires(vTraceLen() == 0)
	Remove(o)
	n := 0
	if o.in != nil && o.f != nil {
		if o.f.many {
			vEnsures("removed from the list", vEvent(n, evHeldRemove, o.in.l, o))
		} else {
			vEnsures("unset", vEvent(n, evHeldUnset, o.in, o.f))
		}
		n++
	}
	if o.res != nil {
		vEnsures("removed from the resource", vEvent(n, evRootRemove, o.res.l, o))
		n++
	}
	vEnsures("nothing else", vTraceLen() == n)
}

// ---- native generators ----

func vgen_vmSegFeature(t *vTape) *vmSegFeature {
	for _, o := range t.objs {
		if f, ok := o.(*vmSegFeature); ok && t.Choose(4) > 0 {
			return f
		}
	}
	f := &vmSegFeature{name: t.Str(), many: t.Bool()}
	t.Keep(f)
	return f
}

func vgen_vmSegOwner(t *vTape) *vmSegOwner {
	o := &vmSegOwner{cls: &vmSegClass{f: vgen_vmSegFeature(t)}}
	o.interfaces = o
	if t.Bool() {
		o.cls.other = vgen_vmSegFeature(t)
	}
	return o
}

func vgen_vmSegObj(t *vTape) *vmSegObj { o := &vmSegObj{}; t.Keep(o); return o }

func (f *vmSegFeature) vShow() string { return fmt.Sprintf("feature %q many=%v", f.name, f.many) }

func vgen_vmLine(t *vTape) *vmLine {
	l := &vmLine{}
	cls := &vmLineClass{}
	for n := 1 + t.Choose(4); len(l.at) < n; {
		o := &vmLineObj{depth: len(l.at), seg: string(rune('a' + t.Choose(3))), kids: map[string]*vmLineObj{}, cls: cls}
		if o.depth > 0 {
			o.up = l.at[o.depth-1]
			o.up.kids[o.seg] = o
		}
		t.Keep(o)
		l.at = append(l.at, o)
	}
	for _, o := range t.objs {
		if r, ok := o.(*EResourceImpl); ok && t.Choose(8) > 0 {
			l.at[0].res = r
		}
	}
	return l
}

func vgen_vmLineClass(t *vTape) *vmLineClass { return &vmLineClass{} }
func vgen_vmLineObj(t *vTape) *vmLineObj {
	for _, o := range t.objs {
		if l, ok := o.(*vmLineObj); ok && t.Bool() {
			return l
		}
	}
	o := &vmLineObj{cls: &vmLineClass{}, id: t.Str()}
	if t.Bool() {
		o.cls.id = &vmLineID{}
	}
	return o
}

func vgen_vmIDs(t *vTape) *vmIDs { return &vmIDs{id: "id" + t.Str()} }

func vgen_vmStep(t *vTape) *vmStep {
	var all []*vmStep
	for _, o := range t.objs {
		if x, ok := o.(*vmStep); ok {
			all = append(all, x)
		}
	}
	if len(all) > 0 && t.Choose(4) > 0 {
		return all[t.Choose(len(all))]
	}
	o := &vmStep{}
	o.end = o
	if t.Bool() {
		o.uri = &URI{}
		if len(all) > 0 && t.Bool() {
			rs := vStepSet(t)
			x := all[t.Choose(len(all))]
			rs.at[o.uri], o.end = x, x.end
		} else if t.Bool() {
			vStepSet(t).at[o.uri] = o
		}
	}
	t.Keep(o)
	return o
}

func vStepSet(t *vTape) *vmSteps {
	for _, o := range t.objs {
		if rs, ok := o.(*vmSteps); ok {
			return rs
		}
	}
	rs := &vmSteps{at: map[*URI]*vmStep{}}
	t.Keep(rs)
	return rs
}

func vgen_vmSteps(t *vTape) *vmSteps {
	for i := t.Choose(4); i > 0; i-- {
		vgen_vmStep(t)
	}
	return vStepSet(t)
}

func vgen_vmStepRes(t *vTape) *vmStepRes {
	r := &vmStepRes{rs: vStepSet(t)}
	for _, o := range t.objs {
		if x, ok := o.(*vmStep); ok && x.res == nil {
			x.res = r
		}
	}
	return r
}

func vgen_vmHeld(t *vTape) *vmHeld {
	o := &vmHeld{}
	if t.Bool() {
		o.in = &vmHolds{l: &vmHeldList{}}
	}
	if t.Bool() {
		o.f = &vmHoldRef{many: t.Bool()}
	}
	if t.Bool() {
		o.res = &vmHeldRes{l: &vmRootList{}}
	}
	return o
}

// ---- model elements ----

type vmFragWorld struct{ t *vTape }

func vgen_vmFragWorld(t *vTape) *vmFragWorld { return &vmFragWorld{t} }
func (h *vmFragWorld) vShow() string         { return "a resource of model elements" }

// The fragment of a model element leads back to it, whatever the names.
//
// @property C12
// @text a b .1 . @ % %% / 2 v1 ? é +1 %25
// @native packages, classes, annotations and features of any names, up to 10
func spec_Fragment_Elements(h *vmFragWorld) {
	t, f := h.t, GetFactory()
	r := NewEResourceImpl()
	var all []EObject
	var owners []EModelElement
	add := func(o EObject) {
		all = append(all, o)
		if m, ok := o.(EModelElement); ok {
			owners = append(owners, m)
		}
	}
	for i := 1 + t.Choose(2); i > 0; i-- {
		p := f.CreateEPackage()
		p.SetName(t.Str())
		r.GetContents().Add(p)
		add(p)
	}
	for i := t.Choose(10); i > 0; i-- {
		k := t.Choose(len(owners))
		o := owners[k]
		s := t.Str()
		if t.Choose(3) == 0 {
			a := f.CreateEAnnotation()
			a.SetSource(s)
			o.GetEAnnotations().Add(a)
			t.Say("annotation %q of %d is %d", s, k, len(owners))
			add(a)
			if t.Bool() {
				a.GetDetails().Put(s, "x")
				add(a.GetDetails().Get(0).(EObject))
			}
			continue
		}
		switch o := o.(type) {
		case EPackage:
			if t.Bool() {
				c := f.CreateEClass()
				c.SetName(s)
				o.GetEClassifiers().Add(c)
				t.Say("class %q of %d is %d", s, k, len(owners))
				add(c)
			} else {
				q := f.CreateEPackage()
				q.SetName(s)
				o.GetESubPackages().Add(q)
				t.Say("package %q of %d is %d", s, k, len(owners))
				add(q)
			}
		case EClass:
			if t.Bool() {
				c := f.CreateEAttribute()
				c.SetName(s)
				o.GetEStructuralFeatures().Add(c)
				t.Say("attribute %q of %d is %d", s, k, len(owners))
				add(c)
			} else {
				c := f.CreateEOperation()
				c.SetName(s)
				o.GetEOperations().Add(c)
				t.Say("operation %q of %d is %d", s, k, len(owners))
				add(c)
			}
		}
	}
	for i, x := range all {
		s := r.GetURIFragment(x)
		vEnsures(fmt.Sprintf("element %d leads back", i), r.GetEObject(s) == x)
		vEnsures("its own fragment", GetURI(x).Fragment() == s)
	}
	vEnsures("a fragment of nothing", r.GetEObject("?") == nil)
}

// The fragment of an object of a model leads back to it, with or without an identifier.
//
// @property C12
// @native trees of up to 8 objects of a class with an optional identifier, a single and a many-valued containment
func spec_Fragment_Objects(h *vmFragWorld) {
	t, f := h.t, GetFactory()
	p, fac, c := f.CreateEPackage(), f.CreateEFactory(), f.CreateEClass()
	p.SetEFactoryInstance(fac)
	p.GetEClassifiers().Add(c)
	c.SetName("C")
	id := f.CreateEAttribute()
	id.SetName("id")
	id.SetEType(GetPackage().GetEString())
	id.SetID(t.Bool())
	c.GetEStructuralFeatures().Add(id)
	var refs []EReference
	for i := 0; i < 2; i++ {
		x := f.CreateEReference()
		x.SetName([]string{"one1", "many"}[i])
		x.SetContainment(true)
		x.SetEType(c)
		if i == 1 {
			x.SetUpperBound(-1)
		}
		c.GetEStructuralFeatures().Add(x)
		refs = append(refs, x)
	}
	r := NewEResourceImpl()
	if t.Bool() {
		r.SetObjectIDManager(NewEObjectIDManagerImpl())
	} else if t.Bool() {
		r.SetObjectIDManager(NewIncrementalIDManager())
	}
	t.Say("ID attribute %v, manager %T", id.IsID(), r.GetObjectIDManager())
	var all []EObject
	for i := 1 + t.Choose(8); i > 0; i-- {
		o := fac.Create(c)
		mark := ""
		if t.Bool() {
			mark = "#" + string(rune('a'+i))
			if r.GetObjectIDManager() == nil || id.IsID() && !isIncremental(r.GetObjectIDManager()) {
				o.ESet(id, mark)
			}
		}
		if len(all) == 0 || t.Choose(4) == 0 {
			r.GetContents().Add(o)
			t.Say("object %d %s is a root", len(all), mark)
		} else {
			k := t.Choose(len(all))
			if t.Bool() && all[k].EGet(refs[0]) == nil {
				all[k].ESet(refs[0], o)
				t.Say("object %d %s is one of %d", len(all), mark, k)
			} else {
				all[k].EGet(refs[1]).(EList).Add(o)
				t.Say("object %d %s is among many of %d", len(all), mark, k)
			}
		}
		all = append(all, o)
	}
	for i, x := range all {
		s := r.GetURIFragment(x)
		vEnsures(fmt.Sprintf("object %d leads back", i), r.GetEObject(s) == x)
		for j := i; ; {
			rel := getRelativeURIFragmentPath(all[j], x, false)
			vEnsures("from a container", GetEObject(all[j], rel) == x && IsAncestor(all[j], x))
			up := all[j].EContainer()
			if up == nil {
				break
			}
			for j = range all {
				if all[j] == up {
					break
				}
			}
		}
	}
}

func isIncremental(m EObjectIDManager) bool { _, ok := m.(*IncrementalIDManager); return ok }
