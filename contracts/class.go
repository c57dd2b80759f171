package ecore

import "fmt"

// ---- the derived views of a class ----
// Super types, features and operations are stubs with exactly what the views need.

type vmFRef struct {
	EReference
	contain, container, derived bool
	id                          int
	name                        string
}

func (r *vmFRef) IsContainment() bool { return r.contain }
func (r *vmFRef) IsContainer() bool   { return r.container }
func (r *vmFRef) IsDerived() bool     { return r.derived }
func (r *vmFRef) SetFeatureID(id int) { r.id = id }
func (r *vmFRef) GetFeatureID() int   { return r.id }
func (r *vmFRef) GetName() string     { return r.name }

type vmFAttr struct {
	EAttribute
	isID bool
	id   int
	name string
}

func (a *vmFAttr) IsID() bool          { return a.isID }
func (a *vmFAttr) SetFeatureID(id int) { a.id = id }
func (a *vmFAttr) GetFeatureID() int   { return a.id }
func (a *vmFAttr) GetName() string     { return a.name }

type vmOp struct {
	EOperation
	id int
}

func (o *vmOp) SetOperationID(id int) { o.id = id }
func (o *vmOp) GetOperationID() int   { return o.id }
func (o *vmOp) IsOverrideOf(p EOperation) bool {
	q, ok := p.(*vmOp)
	return ok && vUFB("overrides", o, q)
}

// vmSup is a super type with its own views.
type vmSup struct {
	vmAnyClass
	feats, attrs, refs, ops, sups *immutableEList
}

func (s *vmSup) GetEAllStructuralFeatures() EList { return s.feats }
func (s *vmSup) GetEAllAttributes() EList         { return s.attrs }
func (s *vmSup) GetEAllReferences() EList         { return s.refs }
func (s *vmSup) GetEAllOperations() EList         { return s.ops }
func (s *vmSup) GetEAllSuperTypes() EList         { return s.sups }

// vmHier is a class with its super types, features and operations.
type vmHier struct {
	EClassExt
	sup, feat, op *immutableEList
}

func isFRef(x any) bool  { r, ok := x.(*vmFRef); return ok && r != nil }
func isFAttr(x any) bool { r, ok := x.(*vmFAttr); return ok && r != nil }
func isSup(x any) bool {
	r, ok := x.(*vmSup)
	return ok && r != nil && r.feats != nil && r.attrs != nil && r.refs != nil && r.ops != nil && r.sups != nil
}
func isOp(x any) bool { r, ok := x.(*vmOp); return ok && r != nil }

func wfHier(h *vmHier) bool {
	return h.sup != nil && h.feat != nil && h.op != nil &&
		vForall(0, len(h.sup.data), func(i int) bool { return isSup(h.sup.data[i]) }) &&
		vForall(0, len(h.feat.data), func(i int) bool { return isFRef(h.feat.data[i]) || isFAttr(h.feat.data[i]) }) &&
		vForall(0, len(h.op.data), func(i int) bool { return isOp(h.op.data[i]) })
}

func hier(h *vmHier) {
	vRequires(wfHier(h) && vLockFree(&h.mutex))
	h.interfaces = h
	h.eSuperTypes = h.sup
	h.eStructuralFeatures = h.feat
	h.eOperations = h.op
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// segs: how long the views get(0) ... get(k-1) of the super types are together
func segs(h *vmHier, get func(s *vmSup) []any, k int) int {
	return vSum(k, func(i int) int { return vOld(func() int { return len(get(h.sup.data[i].(*vmSup))) }) })
}

// cnt: how many of the first k of s are picked
func cnt(s []any, pick func(x any) bool, k int) int {
	return vSum(k, func(i int) int { return vOld(func() int { return b2i(pick(s[i])) }) })
}

// concatAt: r has s from index at on
func concatAt(r []any, at int, s []any) bool {
	return at >= 0 && at+len(s) <= len(r) && vForall(at, at+len(s), func(p int) bool { return r[p] == vOld(func() any { return s[p-at] }) })
}

// inherits: r starts with the views of the first k super types, in order, which end at segs(k)
func inherits(h *vmHier, r []any, get func(s *vmSup) []any, k int) bool {
	return segs(h, get, k) <= len(r) && vForall(0, k, func(i int) bool {
		s := vOld(func() []any { return get(h.sup.data[i].(*vmSup)) })
		return segs(h, get, i)+len(s) <= segs(h, get, k) && concatAt(r, segs(h, get, i), s)
	})
}

// filters: from index at on, r is the picked ones among the first k of s, in order
func filters(r []any, at int, s []any, pick func(x any) bool, k int) bool {
	return len(r) == at+cnt(s, pick, k) && vForall(0, k, func(i int) bool {
		return !vOld(func() bool { return pick(s[i]) }) || cnt(s, pick, i) >= 0 && cnt(s, pick, i) < cnt(s, pick, k) && r[at+cnt(s, pick, i)] == vOld(func() any { return s[i] })
	})
}

func getRefs(s *vmSup) []any  { return s.refs.data }
func getFeats(s *vmSup) []any { return s.feats.data }
func getAttrs(s *vmSup) []any { return s.attrs.data }
func getOps(s *vmSup) []any   { return s.ops.data }

// All references: those of the super types in order, then the class's own.
//
// @property C06
// @inv class
func spec_Class_AllReferences(h *vmHier) {
	hier(h)
	h.eAllReferences = nil
	n, m := len(h.sup.data), len(h.feat.data)
	r := h.GetEAllReferences().(*immutableEList).data
	vEnsures("inherited first", inherits(h, r, getRefs, n))
	vEnsures("then its own", filters(r, segs(h, getRefs, n), h.feat.data, isFRef, m))
	vEnsures("its own alone", filters(h.GetEReferences().(*immutableEList).data, 0, h.feat.data, isFRef, m))
	vEnsures("kept", vSame(h.GetEAllReferences().(*immutableEList).data, r))
}

func inv_EClassExt_initEAllReferences_1__class(eClass *EClassExt, itClass EIterator, allReferences, references []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allReferences) && len(references) == 0 &&
		len(allReferences) == segs(h, getRefs, k) && inherits(h, allReferences, getRefs, k)
}

func inv_EClassExt_initEAllReferences_2__class(eClass *EClassExt, itFeature EIterator, allReferences, references []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itFeature.(*listIterator)
	k := it.cursor
	n := len(h.sup.data)
	return it.list == EList(h.feat) && k >= 0 && k <= len(h.feat.data) && vFresh(allReferences) && vFresh(references) && vSep(references, allReferences) &&
		filters(references, 0, h.feat.data, isFRef, k) && inherits(h, allReferences, getRefs, n) && filters(allReferences, segs(h, getRefs, n), h.feat.data, isFRef, k)
}

// All features: those of the super types in order, then the class's own, each of which has its index as feature ID.
//
// @property C06
// @inv class
func spec_Class_AllFeatures(h *vmHier) {
	hier(h)
	h.eAllStructuralFeatures = nil
	n, m := len(h.sup.data), len(h.feat.data)
	vRequires(vForall(0, m, func(i int) bool { return vForall(0, i, func(j int) bool { return h.feat.data[i] != h.feat.data[j] }) }))
	r := h.GetEAllStructuralFeatures().(*immutableEList).data
	at := segs(h, getFeats, n)
	vEnsures("inherited first", inherits(h, r, getFeats, n))
	vEnsures("then its own", len(r) == at+m && vForall(0, m, func(i int) bool { return r[at+i] == h.feat.data[i] }))
	vEnsures("IDs", vForall(0, m, func(i int) bool { return h.feat.data[i].(EStructuralFeature).GetFeatureID() == at+i }))
	vEnsures("kept", vSame(h.GetEAllStructuralFeatures().(*immutableEList).data, r))
	vEnsures("older views dropped", h.eCrossReferenceFeatures == nil && h.eContainmentFeatures == nil && h.nameToFeatureMap == nil)
}

func inv_EClassExt_initEAllStructuralFeatures_1__class(eClass *EClassExt, itClass EIterator, allFeatures []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allFeatures) &&
		len(allFeatures) == segs(h, getFeats, k) && inherits(h, allFeatures, getFeats, k)
}

func inv_EClassExt_initEAllStructuralFeatures_2__class(eClass *EClassExt, itFeature EIterator, featureID int, allFeatures []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itFeature.(*listIterator)
	k := it.cursor
	n := len(h.sup.data)
	at := segs(h, getFeats, n)
	return it.list == EList(h.feat) && k >= 0 && k <= len(h.feat.data) && vFresh(allFeatures) && featureID == at+k && len(allFeatures) == at+k &&
		inherits(h, allFeatures, getFeats, n) && vForall(0, k, func(i int) bool {
		return allFeatures[at+i] == h.feat.data[i] && h.feat.data[i].(EStructuralFeature).GetFeatureID() == at+i
	})
}

// All operations: those of the super types in order, then the class's own, each of which has its index as operation ID.
//
// @property C06
// @inv class
func spec_Class_AllOperations(h *vmHier) {
	hier(h)
	h.eAllOperations = nil
	n, m := len(h.sup.data), len(h.op.data)
	vRequires(vForall(0, m, func(i int) bool { return vForall(0, i, func(j int) bool { return h.op.data[i] != h.op.data[j] }) }))
	r := h.GetEAllOperations().(*immutableEList).data
	at := segs(h, getOps, n)
	vEnsures("inherited first", inherits(h, r, getOps, n))
	vEnsures("then its own", len(r) == at+m && vForall(0, m, func(i int) bool { return r[at+i] == h.op.data[i] }))
	vEnsures("IDs", vForall(0, m, func(i int) bool { return h.op.data[i].(*vmOp).id == at+i }))
	vEnsures("kept", vSame(h.GetEAllOperations().(*immutableEList).data, r))
	vEnsures("older views dropped", h.operationToOverrideMap == nil)
}

func inv_EClassExt_initEAllOperations_1__class(eClass *EClassExt, itClass EIterator, allOperations []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allOperations) &&
		len(allOperations) == segs(h, getOps, k) && inherits(h, allOperations, getOps, k)
}

func inv_EClassExt_initEAllOperations_2__class(eClass *EClassExt, itFeature EIterator, operationID int, allOperations []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itFeature.(*listIterator)
	k := it.cursor
	n := len(h.sup.data)
	at := segs(h, getOps, n)
	return it.list == EList(h.op) && k >= 0 && k <= len(h.op.data) && vFresh(allOperations) && operationID == at+k && len(allOperations) == at+k &&
		inherits(h, allOperations, getOps, n) && vForall(0, k, func(i int) bool {
		return allOperations[at+i] == h.op.data[i] && h.op.data[i].(*vmOp).id == at+i
	})
}

// segSups: like segs for the super types' own super types, each followed by the super type itself
func segSups(h *vmHier, k int) int {
	return vSum(k, func(i int) int { return vOld(func() int { return len(h.sup.data[i].(*vmSup).sups.data) + 1 }) })
}

func inheritsSups(h *vmHier, r []any, k int) bool {
	return len(r) == segSups(h, k) && vForall(0, k, func(i int) bool {
		s := vOld(func() []any { return h.sup.data[i].(*vmSup).sups.data })
		at := segSups(h, i)
		return at+len(s) < segSups(h, k) && concatAt(r, at, s) && r[at+len(s)] == h.sup.data[i]
	})
}

// All super types: for each super type in order, its own super types and then the super type.
//
// @property C06
// @inv class
func spec_Class_AllSuperTypes(h *vmHier) {
	hier(h)
	h.eAllSuperTypes = nil
	r := h.GetEAllSuperTypes().(*immutableEList).data
	vEnsures("the super types", inheritsSups(h, r, len(h.sup.data)))
	vEnsures("kept", vSame(h.GetEAllSuperTypes().(*immutableEList).data, r))
}

func inv_EClassExt_initEAllSuperTypes_1__class(eClass *EClassExt, itClass EIterator, allSuperTypes []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allSuperTypes) && inheritsSups(h, allSuperTypes, k)
}

func isIDAttr(x any) bool { a, ok := x.(*vmFAttr); return ok && a != nil && a.isID }

// firstID: the ID attribute is the first one of the list with that mark, if any
func firstID(id EAttribute, r []any) bool {
	if id == nil {
		return vForall(0, len(r), func(i int) bool { return !isIDAttr(r[i]) })
	}
	return vExists(0, len(r), func(i int) bool {
		return isIDAttr(r[i]) && r[i] == any(id) && vForall(0, i, func(j int) bool { return !isIDAttr(r[j]) })
	})
}

func wfAttrs(h *vmHier) bool {
	return vForall(0, len(h.sup.data), func(i int) bool {
		s := h.sup.data[i].(*vmSup).attrs.data
		return vForall(0, len(s), func(j int) bool { return isFAttr(s[j]) })
	})
}

// All attributes: those of the super types in order, then the class's own.
//
// @property C06
// @inv class
func spec_Class_AllAttributes(h *vmHier) {
	hier(h)
	vRequires(wfAttrs(h))
	h.eAllAttributes = nil
	n, m := len(h.sup.data), len(h.feat.data)
	r := h.GetEAllAttributes().(*immutableEList).data
	vEnsures("inherited first", inherits(h, r, getAttrs, n))
	vEnsures("then its own", filters(r, segs(h, getAttrs, n), h.feat.data, isFAttr, m))
	vEnsures("its own alone", filters(h.GetEAttributes().(*immutableEList).data, 0, h.feat.data, isFAttr, m))
	vEnsures("kept", vSame(h.GetEAllAttributes().(*immutableEList).data, r))
}

func inv_EClassExt_initEAllAttributes_1__class(eClass *EClassExt, itClass EIterator, allAttributes, attributes []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allAttributes) && len(attributes) == 0 &&
		len(allAttributes) == segs(h, getAttrs, k) && inherits(h, allAttributes, getAttrs, k)
}

func inv_EClassExt_initEAllAttributes_2__class(eClass *EClassExt, itClass, itAttribute EIterator, allAttributes []any) bool {
	h := eClass.interfaces.(*vmHier)
	k := itClass.(*listIterator).cursor - 1
	it := itAttribute.(*listIterator)
	j := it.cursor
	l := h.sup.data[k].(*vmSup).attrs
	s := vOld(func() []any { return l.data })
	at := segs(h, getAttrs, k)
	return k >= 0 && k < len(h.sup.data) && it.list == EList(l) && j >= 0 && j <= len(s) && vFresh(allAttributes) &&
		len(allAttributes) == at+j && inherits(h, allAttributes, getAttrs, k) &&
		vForall(at, at+j, func(p int) bool { return allAttributes[p] == vOld(func() any { return s[p-at] }) })
}

func inv_EClassExt_initEAllAttributes_3__class(eClass *EClassExt, itFeature EIterator, allAttributes, attributes []any) bool {
	h := eClass.interfaces.(*vmHier)
	it := itFeature.(*listIterator)
	k := it.cursor
	n := len(h.sup.data)
	return it.list == EList(h.feat) && k >= 0 && k <= len(h.feat.data) && vFresh(allAttributes) && vFresh(attributes) && vSep(attributes, allAttributes) &&
		filters(attributes, 0, h.feat.data, isFAttr, k) && inherits(h, allAttributes, getAttrs, n) && filters(allAttributes, segs(h, getAttrs, n), h.feat.data, isFAttr, k)
}

// The ID attribute is the first of all attributes with that mark.
//
// @property C06
// @inv idattr
func spec_Class_IDAttribute(h *vmHier) {
	hier(h)
	vRequires(wfAttrs(h))
	h.eAllAttributes = nil
	vEnsures("the ID attribute", firstID(h.GetEIDAttribute(), h.GetEAllAttributes().(*immutableEList).data))
}

func inv_EClassExt_initEAllAttributes_1__idattr(eClass *EClassExt, itClass EIterator, allAttributes []any, eIDAttribute EAttribute) bool {
	h := eClass.interfaces.(*vmHier)
	it := itClass.(*listIterator)
	k := it.cursor
	return it.list == EList(h.sup) && k >= 0 && k <= len(h.sup.data) && vFresh(allAttributes) && firstID(eIDAttribute, allAttributes)
}

func inv_EClassExt_initEAllAttributes_2__idattr(eClass *EClassExt, itClass, itAttribute EIterator, allAttributes []any, eIDAttribute EAttribute) bool {
	h := eClass.interfaces.(*vmHier)
	k := itClass.(*listIterator).cursor - 1
	it := itAttribute.(*listIterator)
	j := it.cursor
	l := h.sup.data[k].(*vmSup).attrs
	return k >= 0 && k < len(h.sup.data) && it.list == EList(l) && j >= 0 && j <= len(l.data) && vFresh(allAttributes) && firstID(eIDAttribute, allAttributes)
}

func inv_EClassExt_initEAllAttributes_3__idattr(eClass *EClassExt, itFeature EIterator, allAttributes, attributes []any, eIDAttribute EAttribute) bool {
	h := eClass.interfaces.(*vmHier)
	it := itFeature.(*listIterator)
	k := it.cursor
	return it.list == EList(h.feat) && k >= 0 && k <= len(h.feat.data) && vFresh(allAttributes) && vFresh(attributes) && vSep(attributes, allAttributes) &&
		firstID(eIDAttribute, allAttributes)
}

func isContainmentRef(x any) bool { r, ok := x.(*vmFRef); return ok && r != nil && r.contain }
func isCrossRef(x any) bool {
	r, ok := x.(*vmFRef)
	return ok && r != nil && !r.contain && !r.container
}

// All containments and all cross references: the references of that kind among all references, in order.
//
// @property C06
// @inv class
func spec_Class_AllContainments(h *vmHier, refs *immutableEList) {
	hier(h)
	vRequires(refs != nil && vForall(0, len(refs.data), func(i int) bool { return isFRef(refs.data[i]) }))
	h.eAllReferences, h.eAllContainments, h.eAllCrossReferences = refs, nil, nil
	c := h.GetEAllContainments().(*immutableEList).data
	vEnsures("containments", filters(c, 0, refs.data, isContainmentRef, len(refs.data)))
	r := h.GetEAllCrossReferences().(*immutableEList).data
	vEnsures("cross references", filters(r, 0, refs.data, isCrossRef, len(refs.data)))
	vEnsures("kept", vSame(h.GetEAllContainments().(*immutableEList).data, c) && vSame(h.GetEAllCrossReferences().(*immutableEList).data, r))
}

func inv_EClassExt_initEAllContainments_1__class(eClass *EClassExt, itReference EIterator, allContainments []any) bool {
	refs := eClass.eAllReferences.(*immutableEList)
	it := itReference.(*listIterator)
	k := it.cursor
	return it.list == EList(refs) && k >= 0 && k <= len(refs.data) && vFresh(allContainments) && filters(allContainments, 0, refs.data, isContainmentRef, k)
}

func inv_EClassExt_initEAllCrossReferences_1__class(eClass *EClassExt, itReference EIterator, allCrossReferences []any) bool {
	refs := eClass.eAllReferences.(*immutableEList)
	it := itReference.(*listIterator)
	k := it.cursor
	return it.list == EList(refs) && k >= 0 && k <= len(refs.data) && vFresh(allCrossReferences) && filters(allCrossReferences, 0, refs.data, isCrossRef, k)
}

func isOwnContainment(x any) bool { return isContainmentRef(x) && !x.(*vmFRef).derived }
func isOwnCross(x any) bool       { return isCrossRef(x) && !x.(*vmFRef).derived }

// The containments and cross references among all features that are not derived.
//
// @property C06
// @inv class
func spec_Class_OwnContainments(h *vmHier, l *vmViewed) {
	hier(h)
	all := l.all
	vRequires(all != nil && vForall(0, len(all.data), func(i int) bool { return isFeat(all.data[i]) }))
	h.eAllStructuralFeatures, h.eContainmentFeatures, h.eCrossReferenceFeatures = all, nil, nil
	c := h.GetEContainmentFeatures().(*immutableEList).data
	r := h.GetECrossReferenceFeatures().(*immutableEList).data
	vEnsures("containments", filters(c, 0, all.data, isOwnContainment, len(all.data)))
	vEnsures("cross references", filters(r, 0, all.data, isOwnCross, len(all.data)))
}

func inv_EClassExt_initFeaturesSubSet_1__class(eClass *EClassExt, itFeature EIterator, containments, crossReferences []any) bool {
	d := eClass.eAllStructuralFeatures.(*immutableEList)
	it := itFeature.(*listIterator)
	k := it.cursor
	return it.list == EList(d) && k >= 0 && k <= len(d.data) && vFresh(containments) && vFresh(crossReferences) && vSep(containments, crossReferences) &&
		filters(containments, 0, d.data, isOwnContainment, k) && filters(crossReferences, 0, d.data, isOwnCross, k)
}

func fname(x any) string {
	if r, ok := x.(*vmFRef); ok {
		return r.name
	}
	return x.(*vmFAttr).name
}

func isFeat(x any) bool { return isFRef(x) || isFAttr(x) }

// lastNamed: the last of the first k features with that name, or nil when there is none.
func lastNamed(fs []any, k int, name string) any {
	return vFoldBy(k, any(nil), func(acc any, i int, name string) any {
		if vOld(func() bool { return fname(fs[i]) == name }) {
			return vOld(func() any { return fs[i] })
		}
		return acc
	}, name)
}

// Looking a feature up by its name finds the class's own feature before an inherited one of that name.
//
// @property C06
// @inv names
func spec_Class_FeatureByName(h *vmHier, all *immutableEList, name string) {
	hier(h)
	vRequires(all != nil && vForall(0, len(all.data), func(i int) bool { return isFeat(all.data[i]) }))
	h.eAllStructuralFeatures, h.nameToFeatureMap = all, nil
	vEnsures("the last one so named", any(h.GetEStructuralFeatureFromName(name)) == lastNamed(all.data, len(all.data), name))
}

func inv_EClassExt_initNameToFeatureMap_1__names(eClass *EClassExt, itFeature EIterator) bool {
	all := eClass.eAllStructuralFeatures.(*immutableEList)
	it := itFeature.(*listIterator)
	k := it.cursor
	return it.list == EList(all) && k >= 0 && k <= len(all.data) && eClass.nameToFeatureMap != nil &&
		vAll(func(name string) bool { return any(eClass.nameToFeatureMap[name]) == lastNamed(all.data, k, name) })
}

// A feature ID is the index among all features; GetFeatureID finds a feature at or after the ID it has in its own class.
//
// @property C06
// @inv ids
func spec_Class_FeatureIDs(f *vmFRef, l *vmViewed, id int, h *vmHier) {
	hier(h)
	vRequires(l != nil)
	all := l.all
	vRequires(all != nil && f != nil && vForall(0, len(all.data), func(i int) bool { return isFeat(all.data[i]) }))
	h.eAllStructuralFeatures = all
	n := len(all.data)
	vEnsures("count", h.GetFeatureCount() == n)
	g := h.GetEStructuralFeature(id)
	vEnsures("by ID", id < 0 && g == nil || id >= n && g == nil || id >= 0 && id < n && all.data[id] == any(g))
	vRequires(f.id >= -1)
	r := h.GetFeatureID(f)
	vEnsures("ID of", r == -1 && vForall(f.id, n, func(i int) bool { return f.id == -1 || all.data[i] != any(f) }) ||
		r >= f.id && r < n && all.data[r] == any(f) && vForall(f.id, r, func(i int) bool { return all.data[i] != any(f) }))
}

func inv_EClassExt_GetFeatureID_1__ids(feature EStructuralFeature, featureID int, features EList) bool {
	d := features.(*immutableEList).data
	f := feature.(*vmFRef)
	return featureID >= f.id && featureID >= 0 && vForall(f.id, featureID, func(i int) bool { return i < 0 || i >= len(d) || d[i] != any(f) })
}

// @property C06
// @inv ids
func spec_Class_OperationIDs(o *vmOp, l *vmViewed, id int, h *vmHier) {
	hier(h)
	vRequires(l != nil)
	all := l.all
	vRequires(all != nil && o != nil && vForall(0, len(all.data), func(i int) bool { return isOp(all.data[i]) }))
	h.eAllOperations = all
	n := len(all.data)
	vEnsures("count", h.GetOperationCount() == n)
	g := h.GetEOperation(id)
	vEnsures("by ID", id < 0 && g == nil || id >= n && g == nil || id >= 0 && id < n && all.data[id] == any(g))
	vRequires(o.id >= -1)
	r := h.GetOperationID(o)
	vEnsures("ID of", r == -1 && vForall(o.id, n, func(i int) bool { return o.id == -1 || all.data[i] != any(o) }) ||
		r >= o.id && r < n && all.data[r] == any(o) && vForall(o.id, r, func(i int) bool { return all.data[i] != any(o) }))
}

func inv_EClassExt_GetOperationID_1__ids(operation EOperation, operationID int, operations EList) bool {
	d := operations.(*immutableEList).data
	o := operation.(*vmOp)
	return operationID >= o.id && operationID >= 0 && vForall(o.id, operationID, func(i int) bool { return i < 0 || i >= len(d) || d[i] != any(o) })
}

// vmSub is a subclass that records what it is told.
type vmSub struct {
	EClassInternal
	seen int
}

func (s *vmSub) setModified(featureID int) { s.seen = featureID; vEmit(1, s, featureID) }

// A change of the features, operations or super types drops every view it can change, here and in every subclass.
//
// @property C06
// @inv mod
func spec_Class_Invalidate(h *vmHier, id int) {
	hier(h)
	vRequires(vForall(0, len(h.subClasses), func(i int) bool { _, ok := h.subClasses[i].(*vmSub); return ok && h.subClasses[i].(*vmSub) != nil }))
	n := len(h.subClasses)
	subs := vSnap(h.subClasses)
	at := vTraceLen()
	h.setModified(id)
	sup, feat, op := id == ECLASS__ESUPER_TYPES, id == ECLASS__ESTRUCTURAL_FEATURES || id == ECLASS__EREFERENCES, id == ECLASS__EOPERATIONS
	att := id == ECLASS__EATTRIBUTES || id == ECLASS__ESTRUCTURAL_FEATURES || sup
	vEnsures("super types", !sup || h.eAllSuperTypes == nil)
	vEnsures("features", !(sup || feat || att) || h.eAllStructuralFeatures == nil)
	vEnsures("attributes", !att || h.eAllAttributes == nil)
	vEnsures("references", !(sup || feat) || h.eAllReferences == nil && h.eAllContainments == nil && h.eAllCrossReferences == nil)
	vEnsures("operations", !(sup || op) || h.eAllOperations == nil)
	vEnsures("subclasses", vTraceLen() == at+n && vForall(0, n, func(i int) bool { return vEvent(at+i, 1, subs.At(i), id) }))
	vEnsures("unlocked", vLockFree(&h.mutex))
}

func inv_EClassExt_setModified_1__mod(eClass *EClassExt, featureID, k_ int) bool {
	at := vOldLoop(func() int { return vTraceLen() })
	return vTraceLen() == at+k_ && vForall(0, k_, func(i int) bool {
		return vEvent(at+i, 1, vOldLoop(func() any { return eClass.subClasses[i] }), featureID)
	}) && vSame(eClass.subClasses, vOldLoop(func() []EClassInternal { return eClass.subClasses }))
}

// GetOverride gives an operation that overrides the one asked for, if there is a later one that does.
//
// @property C06
// @inv ovr
func spec_Class_Override(h *vmHier, op *vmOp, all *immutableEList) {
	hier(h)
	n := 0
	vRequires(all != nil && op != nil && vForall(0, len(all.data), func(i int) bool { return isOp(all.data[i]) }))
	n = len(all.data)
	h.eAllOperations, h.operationToOverrideMap = all, nil
	r := h.GetOverride(op)
	vEnsures("overrides it", r == nil || isOp(r) && vUFB("overrides", r.(*vmOp), op))
	vEnsures("found", vForall(0, n, func(i int) bool {
		return all.data[i] != any(op) || vForall(i+1, n, func(j int) bool { return !vUFB("overrides", all.data[j].(*vmOp), op) || r != nil })
	}))
}

func ovrMap(m map[EOperation]EOperation) bool {
	return vAll(func(p *vmOp) bool {
		r := m[EOperation(p)]
		return r == nil || isOp(r) && vUFB("overrides", r.(*vmOp), p)
	})
}

func inv_EClassExt_initOperationToOverrideMap_1__ovr(eClass *EClassExt, i, size int) bool {
	d := eClass.eAllOperations.(*immutableEList).data
	m := eClass.operationToOverrideMap
	return i >= 0 && m != nil && size == len(d) && ovrMap(m) && vForall(0, i, func(a int) bool {
		return a >= size || vForall(a+1, size, func(b int) bool { return !vUFB("overrides", d[b].(*vmOp), d[a].(*vmOp)) || m[d[a].(EOperation)] != nil })
	})
}

func inv_EClassExt_initOperationToOverrideMap_2__ovr(eClass *EClassExt, i, j, size int) bool {
	d := eClass.eAllOperations.(*immutableEList).data
	m := eClass.operationToOverrideMap
	return i >= 0 && i < size && j >= i && j < size && m != nil && size == len(d) && ovrMap(m) && vForall(0, i, func(a int) bool {
		return vForall(a+1, size, func(b int) bool { return !vUFB("overrides", d[b].(*vmOp), d[a].(*vmOp)) || m[d[a].(EOperation)] != nil })
	}) && vForall(j+1, size, func(b int) bool { return !vUFB("overrides", d[b].(*vmOp), d[i].(*vmOp)) || m[d[i].(EOperation)] != nil })
}

// vmCls is a class that knows its subclasses.
type vmCls struct {
	ENotifier
	subs []EClassInternal
}

func (s *vmCls) getSubClasses() []EClassInternal     { return s.subs }
func (s *vmCls) setSubClasses(subs []EClassInternal) { s.subs = subs }
func (s *vmCls) setModified(featureID int)           {}

type vmSupN struct {
	ENotification
	kind EventType
	who  *vmCls
	id   int
	o, n any
}

func (n *vmSupN) GetEventType() EventType { return n.kind }
func (n *vmSupN) GetNotifier() ENotifier  { return n.who }
func (n *vmSupN) GetFeatureID() int       { return n.id }
func (n *vmSupN) GetOldValue() any        { return n.o }
func (n *vmSupN) GetNewValue() any        { return n.n }

func isCls(x any) bool { c, ok := x.(*vmCls); return ok && c != nil }

// dropped: the first w is gone from the subclasses
func dropped(now []EClassInternal, old vSeq[EClassInternal], w *vmCls) bool {
	n := old.Len()
	none := vForall(0, n, func(i int) bool { return old.At(i) != EClassInternal(w) })
	if none {
		return len(now) == n && vForall(0, n, func(i int) bool { return now[i] == old.At(i) })
	}
	return len(now) == n-1 && vExists(0, n, func(i int) bool {
		return old.At(i) == EClassInternal(w) && vForall(0, i, func(j int) bool { return old.At(j) != EClassInternal(w) && now[j] == old.At(j) }) &&
			vForall(i, n-1, func(j int) bool { return now[j] == old.At(j+1) })
	})
}

func appended(now []EClassInternal, old vSeq[EClassInternal], w *vmCls) bool {
	n := old.Len()
	return len(now) == n+1 && now[n] == EClassInternal(w) && vForall(0, n, func(i int) bool { return now[i] == old.At(i) })
}

// A class knows its direct subclasses: adding or removing a super type is recorded in the super type.
//
// @property C06
// @inv sub
func spec_Class_Subclasses(a *eSuperAdapter, o, n *vmCls, ev *vmSupN) {
	vRequires(a != nil && a.class != nil && len(a.class.subClasses) == 0 && vLockFree(&a.class.mutex) && ev != nil && ev.who != nil)
	vRequires(ev.id == ECLASS__ESUPER_TYPES && (ev.kind == ADD || ev.kind == REMOVE || ev.kind == SET || ev.kind == RESOLVE))
	vRequires((ev.o == nil || o != nil && ev.o == any(o)) && (ev.n == nil || n != nil && ev.n == any(n)) && (o == nil || n == nil || o != n && vSep(o.subs, n.subs)))
	var os, ns vSeq[EClassInternal]
	if o != nil {
		os = vSnap(o.subs)
	}
	if n != nil {
		ns = vSnap(n.subs)
	}
	a.NotifyChanged(ev)
	vEnsures("the old super type forgets it", ev.o == nil || ev.kind == ADD || dropped(o.subs, os, ev.who))
	vEnsures("the new super type knows it", ev.n == nil || ev.kind == REMOVE || appended(n.subs, ns, ev.who))
	vEnsures("views dropped", a.class.eAllSuperTypes == nil && a.class.eAllStructuralFeatures == nil && a.class.eAllReferences == nil && a.class.eAllAttributes == nil && a.class.eAllOperations == nil)
}

func inv_eSuperAdapter_NotifyChanged_1__sub(subClasses []EClassInternal, eNotifier EClassInternal, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return subClasses[i] != eNotifier })
}

func inv_eSuperAdapter_NotifyChanged_3__sub(subClasses []EClassInternal, eNotifier EClassInternal, k_ int) bool {
	return vForall(0, k_, func(i int) bool { return subClasses[i] != eNotifier })
}

// ---- executed stand-ins ----

func vgen_vmFRef(t *vTape) *vmFRef {
	r := &vmFRef{contain: t.Bool(), container: t.Choose(4) == 3, derived: t.Choose(4) == 3, id: t.Choose(4) - 1, name: t.Str()}
	t.Keep(r)
	return r
}
func vgen_vmFAttr(t *vTape) *vmFAttr {
	return &vmFAttr{isID: t.Choose(3) == 2, id: -1, name: t.Str()}
}
func vgen_vmOp(t *vTape) *vmOp {
	o := &vmOp{id: t.Choose(4) - 1}
	t.Keep(o)
	return o
}

func genFeats(t *vTape, max int) []any {
	var r []any
	for i := t.Choose(max + 1); i > 0; i-- {
		if t.Bool() {
			r = append(r, vgen_vmFRef(t))
		} else {
			r = append(r, vgen_vmFAttr(t))
		}
	}
	return r
}

// vmViewed is a view of a class.
type vmViewed struct{ all *immutableEList }

func vgen_vmViewed(t *vTape) *vmViewed {
	var x any = &vmFRef{contain: t.Bool()}
	if len(t.objs) > 0 && !isHier(t.objs[0]) {
		x = t.objs[0]
	}
	r := []any{}
	for i := t.Choose(4); i > 0; i-- {
		switch x.(type) {
		case *vmFRef:
			r = append(r, []any{x, vgen_vmFRef(t), vgen_vmFAttr(t)}[t.Choose(3)])
		default:
			r = append(r, []any{x, vgen_vmOp(t)}[t.Choose(2)])
		}
	}
	return &vmViewed{&immutableEList{data: r}}
}

func isHier(x any) bool { _, ok := x.(*vmHier); return ok }

func genSome[T any](t *vTape, max int, gen func(t *vTape) T) *immutableEList {
	var r []any
	for i := t.Choose(max + 1); i > 0; i-- {
		r = append(r, gen(t))
	}
	return &immutableEList{data: r}
}

func vgen_vmSup(t *vTape) *vmSup {
	s := &vmSup{feats: &immutableEList{data: genFeats(t, 2)}, ops: genSome(t, 2, vgen_vmOp), sups: &immutableEList{data: t.Anys(2)}}
	s.attrs = genSome(t, 2, vgen_vmFAttr)
	s.refs = genSome(t, 2, vgen_vmFRef)
	return s
}

func vgen_vmHier(t *vTape) *vmHier {
	h := &vmHier{sup: genSome(t, 3, vgen_vmSup), feat: &immutableEList{data: genFeats(t, 3)}, op: genSome(t, 3, vgen_vmOp)}
	if n := t.Choose(3); n > 0 {
		h.subClasses = append(h.subClasses, &vmSub{}, &vmSub{})[:n]
	}
	some := &immutableEList{}
	h.eAllAttributes, h.eAllReferences, h.eAllStructuralFeatures, h.eAllOperations, h.eAllSuperTypes = some, some, some, some, some
	h.eAllContainments, h.eAllCrossReferences = some, some
	t.Keep(h)
	return h
}

func vgen_vmCls(t *vTape) *vmCls {
	c := &vmCls{}
	for i := t.Choose(4); i > 0; i-- {
		c.subs = append(c.subs, &vmCls{})
	}
	t.Keep(c)
	return c
}

func vgen_vmSupN(t *vTape) *vmSupN {
	n := &vmSupN{kind: []EventType{ADD, REMOVE, SET, RESOLVE}[t.Choose(4)], id: ECLASS__ESUPER_TYPES, who: &vmCls{}}
	var cs []*vmCls
	for _, o := range t.objs {
		if c, ok := o.(*vmCls); ok {
			cs = append(cs, c)
		}
	}
	if len(cs) == 2 {
		if t.Bool() {
			n.o = cs[0]
		}
		if t.Bool() {
			n.n = cs[1]
		}
		for i := t.Choose(3); i > 0; i-- {
			cs[0].subs = append([]EClassInternal{n.who, &vmCls{}}[:i], cs[0].subs...)
		}
	}
	return n
}

func vgen_eSuperAdapter(t *vTape) *eSuperAdapter { return &eSuperAdapter{class: &EClassExt{}} }

// vmClasses is a history of changes to a small hierarchy of real classes.
type vmClasses struct {
	t *vTape
	n int
}

func vgen_vmClasses(t *vTape) *vmClasses { return &vmClasses{t: t, n: 1 + t.Choose(14)} }
func (h *vmClasses) vShow() string       { return "a history of changes to a hierarchy of classes" }

func catViews(c EClass, own func(c EClass) []any) []any {
	var r []any
	for _, s := range c.GetESuperTypes().ToArray() {
		r = append(r, catViews(s.(EClass), own)...)
	}
	return append(r, own(c)...)
}

func pickAny(s []any, p func(x any) bool) []any {
	var r []any
	for _, x := range s {
		if p(x) {
			r = append(r, x)
		}
	}
	return r
}

func eqAny(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func allSups(c EClass) []any {
	var r []any
	for _, s := range c.GetESuperTypes().ToArray() {
		r = append(append(r, allSups(s.(EClass))...), s)
	}
	return r
}

func ownFeats(c EClass) []any { return c.GetEStructuralFeatures().ToArray() }
func ownOps(c EClass) []any   { return c.GetEOperations().ToArray() }
func isRealRef(x any) bool    { _, ok := x.(EReference); return ok }
func isRealAttr(x any) bool   { _, ok := x.(EAttribute); return ok }

// checkClass compares the views of a class with what they are defined to be.
func checkClass(c EClass, classes []EClass) string {
	feats := catViews(c, ownFeats)
	refs, attrs, ops := pickAny(feats, isRealRef), pickAny(feats, isRealAttr), catViews(c, ownOps)
	cont := func(x any) bool { return x.(EReference).IsContainment() }
	cross := func(x any) bool { return !x.(EReference).IsContainment() && !x.(EReference).IsContainer() }
	own := func(s []any) []any { return pickAny(s, func(x any) bool { return !x.(EReference).IsDerived() }) }
	ownRefs := pickAny(ownFeats(c), isRealRef)
	name := c.GetName() + "."
	for _, v := range []struct {
		name      string
		got, want []any
	}{
		{"EAllStructuralFeatures", c.GetEAllStructuralFeatures().ToArray(), feats},
		{"EAllReferences", c.GetEAllReferences().ToArray(), refs},
		{"EAllAttributes", c.GetEAllAttributes().ToArray(), attrs},
		{"EAllOperations", c.GetEAllOperations().ToArray(), ops},
		{"EAllContainments", c.GetEAllContainments().ToArray(), pickAny(refs, cont)},
		{"EAllCrossReferences", c.GetEAllCrossReferences().ToArray(), pickAny(refs, cross)},
		{"EAllSuperTypes", c.GetEAllSuperTypes().ToArray(), allSups(c)},
		{"EReferences", c.GetEReferences().ToArray(), ownRefs},
		{"EAttributes", c.GetEAttributes().ToArray(), pickAny(ownFeats(c), isRealAttr)},
		{"EContainmentFeatures", c.GetEContainmentFeatures().ToArray(), own(pickAny(refs, cont))},
		{"ECrossReferenceFeatures", c.GetECrossReferenceFeatures().ToArray(), own(pickAny(refs, cross))},
	} {
		if !eqAny(v.got, v.want) {
			return fmt.Sprintf("%s%s has %d elements or another order; it should have %d", name, v.name, len(v.got), len(v.want))
		}
	}
	for i, f := range ownFeats(c) {
		if id := f.(EStructuralFeature).GetFeatureID(); id != len(feats)-len(ownFeats(c))+i {
			return fmt.Sprintf("%sown feature %d has ID %d", name, i, id)
		}
	}
	for i, o := range ownOps(c) {
		if id := o.(EOperation).GetOperationID(); id != len(ops)-len(ownOps(c))+i {
			return fmt.Sprintf("%sown operation %d has ID %d", name, i, id)
		}
	}
	for i, f := range feats {
		if c.GetEStructuralFeature(i) != f {
			return fmt.Sprintf("%sGetEStructuralFeature(%d) is another feature", name, i)
		}
		n := f.(EStructuralFeature).GetName()
		var last any
		for _, g := range feats {
			if g.(EStructuralFeature).GetName() == n {
				last = g
			}
		}
		if any(c.GetEStructuralFeatureFromName(n)) != last {
			return fmt.Sprintf("%sGetEStructuralFeatureFromName(%q) is another feature", name, n)
		}
	}
	var id any
	for _, a := range attrs {
		if a.(EAttribute).IsID() {
			id = a
			break
		}
	}
	if got := c.GetEIDAttribute(); got != id && !(got == nil && id == nil) {
		return name + "EIDAttribute is another attribute"
	}
	for _, o := range classes {
		is := o == c
		for _, s := range allSups(c) {
			is = is || s == any(o)
		}
		if o.IsSuperTypeOf(c) != is {
			return fmt.Sprintf("%s.IsSuperTypeOf(%s) is %v", o.GetName(), c.GetName(), !is)
		}
	}
	return ""
}

// The views are right after any history of changes to the super types, features and operations of any class.
//
// @property C06
// @native histories of up to 14 changes on up to 4 classes
func spec_Class_History(h *vmClasses) {
	t := h.t
	f := GetFactory()
	var cs []EClass
	for i := 2 + t.Choose(3); i > 0; i-- {
		c := f.CreateEClass()
		c.SetName(string(rune('A' + len(cs))))
		cs = append(cs, c)
	}
	names := []string{"a", "b", "c"}
	feat := func() EStructuralFeature {
		if t.Bool() {
			a := f.CreateEAttribute()
			a.SetName(names[t.Choose(3)])
			a.SetID(t.Choose(3) == 0)
			return a
		}
		r := f.CreateEReference()
		r.SetName(names[t.Choose(3)])
		r.SetContainment(t.Bool())
		r.SetDerived(t.Choose(4) == 0)
		return r
	}
	var log []string
	for k := 0; k < h.n; k++ {
		ci := t.Choose(len(cs))
		c := cs[ci]
		var l EList
		var what string
		var mk func() any
		switch t.Choose(3) {
		case 0:
			l, what = c.GetEStructuralFeatures(), "features"
			mk = func() any { return feat() }
		case 1:
			l, what = c.GetEOperations(), "operations"
			mk = func() any { return f.CreateEOperation() }
		default:
			l, what = c.GetESuperTypes(), "super types"
			mk = func() any { // only classes before it, so that there is no cycle
				if ci == 0 {
					return nil
				}
				return cs[t.Choose(ci)]
			}
		}
		n := l.Size()
		op := t.Choose(6)
		x := mk()
		if x == nil {
			continue
		}
		switch {
		case op == 1 && n > 0:
			log = append(log, fmt.Sprintf("%s: remove from its %s", c.GetName(), what))
			l.RemoveAt(t.Choose(n))
		case op == 2 && n > 0 && !l.Contains(x):
			log = append(log, fmt.Sprintf("%s: replace one of its %s", c.GetName(), what))
			l.Set(t.Choose(n), x)
		case op == 3 && n > 1:
			log = append(log, fmt.Sprintf("%s: move one of its %s", c.GetName(), what))
			l.MoveObject(t.Choose(n), l.Get(t.Choose(n)))
		case op == 4 && n > 0 && t.Choose(3) == 0:
			log = append(log, fmt.Sprintf("%s: clear its %s", c.GetName(), what))
			l.Clear()
		case op == 5:
			y := mk()
			log = append(log, fmt.Sprintf("%s: add two to its %s", c.GetName(), what))
			l.AddAll(NewImmutableEList([]any{x, y}))
		default:
			log = append(log, fmt.Sprintf("%s: add to its %s", c.GetName(), what))
			l.Insert(t.Choose(n+1), x)
		}
		for i := t.Choose(3); i > 0; i-- {
			cs[t.Choose(len(cs))].GetEAllCrossReferences()
		}
		if t.Choose(2) == 0 || k == h.n-1 {
			for _, c := range cs {
				if bad := checkClass(c, cs); bad != "" {
					for _, l := range log {
						t.Say("%s", l)
					}
					t.Say("then %s", bad)
					vEnsures("views", false)
				}
			}
		}
		vEnsures("views", true)
	}
}
