From b7c457cbb0205d9331d3f2fe73fbbebdeea6e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 01/32] fix: moving an object to a position outside a list no
 longer corrupts it

---
 ecore/basicelist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..bfc9961 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "strconv"
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -105,6 +107,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 }
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	object := list.data[oldIndex]
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
-- 
2.43.0


From b092d8d3270bce1f43f0ca705a19442b45a1b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 02/32] fix: AddAll/InsertAll no longer let duplicates into a
 unique list

---
 ecore/abstractelist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..c2b70b9 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,8 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		// iterate over a copy: removing while iterating skips elements
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From 82b13c36e40fc83648048cc348445ebf3c4f5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 03/32] fix: doAddAll reports the positions of the added
 elements

---
 ecore/basicelist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index bfc9961..c834d90 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -74,11 +74,12 @@ func (list *BasicEList) doAdd(e any) {
 
 func (list *BasicEList) doAddAll(collection Collection) bool {
 	data := collection.ToArray()
+	size := len(list.data)
 	list.data = append(list.data, data...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
-		listCallbacks.DidAdd(i, element)
+		listCallbacks.DidAdd(size+i, element)
 	}
 	listCallbacks.DidChange()
 	return len(data) != 0
-- 
2.43.0


From 90b28bfabc58a6413d2e6a0bf39e80fef8cd8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 04/32] fix: inserting a collection neither writes to its array
 nor misreports elements when inserting a list into itself

---
 ecore/basicelist.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index c834d90..6ffa50d 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -96,14 +96,16 @@ func (list *BasicEList) doInsert(index int, e any) {
 }
 
 func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
-	data := collection.ToArray()
-	list.data = append(list.data[:index], append(data, list.data[index:]...)...)
+	// copy the elements: the collection may share its array with the list
+	data := append([]any{}, collection.ToArray()...)
+	tail := append([]any{}, list.data[index:]...)
+	list.data = append(append(list.data[:index], data...), tail...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
 		listCallbacks.DidAdd(i+index, element)
-		listCallbacks.DidChange()
 	}
+	listCallbacks.DidChange()
 	return len(data) != 0
 }
 
-- 
2.43.0


From 1abba132d458503f56f2253ec74d27e144df4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 05/32] fix: merging a removal into a removal of several
 elements keeps every position

---
 ecore/abstractnotification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..833a172 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -113,7 +113,7 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index <= len(positions) {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
-- 
2.43.0


From de346197a4505d18c6dc3db390e846a3bd5a16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 06/32] fix: a removal following a clear of the same list no
 longer panics when merged

---
 ecore/abstractnotification.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index 833a172..04c7ab4 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -89,8 +89,12 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 		case REMOVE:
 			if eNotif.GetNotifier() == eOther.GetNotifier() &&
 				eNotif.GetFeatureID() == eOther.GetFeatureID() {
+				positions, hasPositions := notif.newValue.([]any)
+				if !hasPositions {
+					// the list was cleared: there are no positions to extend
+					return false
+				}
 				notificationPosition := eOther.GetPosition()
-				positions := notif.newValue.([]any)
 				newPositions := []any{}
 
 				index := 0
-- 
2.43.0


From 27c966b196d107b367da97ca950eab5a8a835947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 07/32] fix: clearing the adapters of a notifier unsets their
 target

---
 ecore/abstractenotifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index 8046305..a501b99 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -65,6 +65,12 @@ func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	adapter.UnSetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidClear(oldObjects []any) {
+	for i, elem := range oldObjects {
+		l.DidRemove(i, elem)
+	}
+}
+
 type AbstractENotifier struct {
 	interfaces any
 }
-- 
2.43.0


From bc657b0502bfaa449f5e42c3df6f5c9e7c7c2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 08/32] fix: replacing an adapter of a notifier moves the
 target

---
 ecore/abstractenotifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index a501b99..f60f596 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -65,6 +65,13 @@ func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	adapter.UnSetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidSet(index int, newElem any, oldElem any) {
+	if newElem != oldElem {
+		l.DidRemove(index, oldElem)
+		l.DidAdd(index, newElem)
+	}
+}
+
 func (l *notifierAdapterList) DidClear(oldObjects []any) {
 	for i, elem := range oldObjects {
 		l.DidRemove(i, elem)
-- 
2.43.0


From 64a23073ac063cbe0f6137d4a349141a0f2f98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 09/32] fix: setting a many-valued feature of a dynamic object
 replaces the content of its list

---
 ecore/abstracteobject.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..f131281 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -440,6 +440,12 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		} else if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, newValue, newValue, NO_INDEX))
 		}
+	} else if c, isCollection := newValue.(Collection); isCollection && dynamicFeature.IsMany() {
+		if list, _ := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList); list != nil && list != newValue {
+			elements := NewImmutableEList(c.ToArray())
+			list.Clear()
+			list.AddAll(elements)
+		}
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-- 
2.43.0


From ae4a4253d011fedd3d4bce327307f716cca4227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 10/32] fix: a many-valued feature of a dynamic object keeps
 the elements of a collection that shrinks as it is assigned

---
 ecore/abstracteobject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index f131281..83f6e13 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -442,7 +442,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		}
 	} else if c, isCollection := newValue.(Collection); isCollection && dynamicFeature.IsMany() {
 		if list, _ := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList); list != nil && list != newValue {
-			elements := NewImmutableEList(c.ToArray())
+			elements := NewImmutableEList(append([]any{}, c.ToArray()...))
 			list.Clear()
 			list.AddAll(elements)
 		}
-- 
2.43.0


From 3267e781b5aba6a26b9fe44202d143fd85061158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 11/32] fix: reset the cached eAllCrossReferences of a class
 when its features or super types change

---
 ecore/eclass_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..d3db33d 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -442,6 +442,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EATTRIBUTES:
 		eClass.eAllAttributes = nil
 		eClass.eAllStructuralFeatures = nil
@@ -450,6 +451,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllReferences = nil
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EOPERATIONS:
 		eClass.eAllOperations = nil
 		eClass.eAllContainments = nil
@@ -460,6 +462,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	}
 	for _, s := range eClass.subClasses {
 		s.setModified(featureID)
-- 
2.43.0


From da552b7b84767bd3dcdd07ab256e8f526329be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 12/32] fix: keep every stored field of a compact object when
 its container changes

---
 ecore/compacteobject_container.go | 2 +-
 ecore/compacteobject_impl.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/compacteobject_container.go b/ecore/compacteobject_container.go
index d06ae9b..08cea3d 100644
--- a/ecore/compacteobject_container.go
+++ b/ecore/compacteobject_container.go
@@ -16,7 +16,7 @@ type CompactEObjectContainer struct {
 
 func (o *CompactEObjectContainer) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
 	o.container = newContainer
-	o.flags = newContainerFeatureID<<16 | (o.flags & 0x00FF)
+	o.flags = newContainerFeatureID<<16 | (o.flags & 0xFFFF)
 }
 
 func (o *CompactEObjectContainer) EInternalContainer() EObject {
diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index 153ab97..e6f728b 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -230,7 +230,7 @@ func (o *CompactEObjectImpl) ECrossReferences() EList {
 // ESetContainer ...
 func (o *CompactEObjectImpl) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
 	o.setField(container_flag, newContainer)
-	o.flags = newContainerFeatureID<<16 | (o.flags & 0x00FF)
+	o.flags = newContainerFeatureID<<16 | (o.flags & 0xFFFF)
 }
 
 func (o *CompactEObjectImpl) EInternalContainer() EObject {
-- 
2.43.0


From 175c05db3b7b8160d0671fb024fea79510bd2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 13/32] fix: a compact object whose proxy URI is set to nil is
 no proxy

---
 ecore/compacteobject_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index e6f728b..d0bcccd 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -202,7 +202,11 @@ func (o *CompactEObjectImpl) EProxyURI() *URI {
 
 // ESetProxyURI ...
 func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
-	o.setField(proxy_flag, uri)
+	if uri == nil {
+		o.setField(proxy_flag, nil)
+	} else {
+		o.setField(proxy_flag, uri)
+	}
 }
 
 // EContents ...
-- 
2.43.0


From 05317f764c30c77cba03695a5f85e3511dbd42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 14/32] fix: the contained objects of a compact object include
 those of inherited features

---
 ecore/eclass_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index d3db33d..0eafd97 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -241,7 +241,7 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	if eClass.eContainmentFeatures == nil {
 		containments := []any{}
 		crossReferences := []any{}
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
 			ref, isRef := itFeature.Next().(EReference)
 			if isRef {
 				if ref.IsContainment() {
-- 
2.43.0


From 586a2c66f8d2a43712cdf802b8b2e79c59f056f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 15/32] fix: an object identifier leads to an object that has
 it, after identifiers are reused

Setting or registering an identifier another object had, then unregistering
that object, made the identifier lead to nothing; and a detached identifier
given to another object in between was taken from it again.
---
 ecore/eobjectidmanager_impl.go | 7 +++++--
 ecore/uniqueidmanager.go       | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..9998051 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -33,6 +33,7 @@ func (m *EObjectIDManagerImpl) Clear() {
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
+		m.UnRegister(eObject)
 		m.idToObject[id] = eObject
 		m.objectToID[eObject] = id
 	}
@@ -52,7 +53,7 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 			delete(m.objectToID, eObject)
 		}
 
-		if len(oldID) > 0 {
+		if len(oldID) > 0 && m.idToObject[oldID] == eObject {
 			delete(m.idToObject, oldID)
 		}
 
@@ -66,7 +67,9 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 
 func (m *EObjectIDManagerImpl) UnRegister(eObject EObject) {
 	if id, isPresent := m.objectToID[eObject]; isPresent {
-		delete(m.idToObject, id)
+		if m.idToObject[id] == eObject {
+			delete(m.idToObject, id)
+		}
 		delete(m.objectToID, eObject)
 	}
 }
diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..2c0eec0 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -47,6 +47,9 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 	}
 
 	if m.isValidID(newID) {
+		if oldObject, isOldObject := m.idToObject[newID]; isOldObject {
+			delete(m.objectToID, oldObject)
+		}
 		m.setID(newID)
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
@@ -66,7 +69,8 @@ func (m *UniqueIDManager[ID]) Register(eObject EObject) {
 		newID, isOldID := m.detachedToID[ptr]
 		if isOldID {
 			delete(m.detachedToID, ptr)
-		} else {
+		}
+		if _, isUsed := m.idToObject[newID]; !isOldID || isUsed {
 			newID = m.newID()
 		}
 		m.setObjectID(eObject, newID)
-- 
2.43.0


From e68d2fab8a01139e8b70a1d244b9e076bdc3bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 16/32] fix: the authority of a URI is made of its own
 components, wherever they occur in its text

---
 ecore/uri.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..f2e2c3a 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -284,18 +284,21 @@ func (uri *URI) Authority() string {
 	if len(uri.host) == 0 {
 		return ""
 	}
-	hostIndex := strings.Index(uri.rawURI, uri.host)
-	var first int
-	if len(uri.username) > 0 {
-		first = strings.Index(uri.rawURI, uri.username)
-	} else {
-		first = hostIndex
+	var s strings.Builder
+	if len(uri.username) > 0 || len(uri.password) > 0 {
+		s.WriteString(uri.username)
+		if len(uri.password) > 0 {
+			s.WriteRune(':')
+			s.WriteString(uri.password)
+		}
+		s.WriteRune('@')
 	}
-	last := hostIndex + len(uri.host)
+	s.WriteString(uri.host)
 	if len(uri.port) > 0 {
-		last += len(uri.port) + 1
+		s.WriteRune(':')
+		s.WriteString(uri.port)
 	}
-	return uri.rawURI[first:last]
+	return s.String()
 }
 
 func (uri *URI) String() string {
-- 
2.43.0


From f303a9546547f9f97509073f498718416c4e1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 17/32] fix: a reference that is at most a fragment resolves to
 the base document

---
 ecore/uri.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index f2e2c3a..486216a 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -328,20 +328,20 @@ func (uri *URI) Normalize() *URI {
 }
 
 func (uri *URI) Resolve(ref *URI) *URI {
-	// check if opaque first
-	if ref.IsOpaque() || uri.IsOpaque() {
-		return ref
-	}
-
 	// Reference to current document (lone fragment)
 	refAuthority := ref.Authority()
-	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.fragment) != 0 && len(ref.query) == 0 {
-		if len(uri.fragment) == 0 && ref.fragment == uri.fragment {
+	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.query) == 0 {
+		if ref.fragment == uri.fragment {
 			return uri
 		}
 		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, ref.fragment)
 	}
 
+	// check if opaque
+	if ref.IsOpaque() || uri.IsOpaque() {
+		return ref
+	}
+
 	// ref is absolute
 	if len(ref.scheme) != 0 {
 		return ref
-- 
2.43.0


From 43b465f211adac41db9b0fe89e32dda1e971e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 18/32] fix: searching contents by class goes on after a
 reference that holds nothing

---
 ecore/eallcontents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..6f4e745 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -244,8 +244,8 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 				return eObject
 			}
 
-		} else {
-			// pop data from the stack
+		} else if d.transition == nil {
+			// no more transitions : pop data from the stack
 			it.data = it.data[:len(it.data)-1]
 		}
 	}
-- 
2.43.0


From fd3ed9428a5dc56133e99958edf46e074427298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 19/32] fix: searching contents by class follows every
 containment that leads to the class

---
 ecore/eallcontents.go | 101 ++++++++++++++++--------------------------
 1 file changed, 39 insertions(+), 62 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index 6f4e745..1aa3632 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "slices"
+
 type eAllContentIterator = treeIterator
 
 func newEAllContentsIterator(object EObject) *eAllContentIterator {
@@ -25,16 +27,6 @@ func (ts transitions) addTransition(transition *transition) transitions {
 	return append(ts, transition)
 }
 
-func (ts transitions) removeTransition(transition *transition) transitions {
-	for i, t := range ts {
-		if t == transition || *t == *transition {
-			ts[i] = ts[len(ts)-1]
-			return ts[:len(ts)-1]
-		}
-	}
-	return ts
-}
-
 type EClassTransitionsTable struct {
 	transitionsMap map[EClass]transitions
 	endSet         map[EClass]struct{}
@@ -47,28 +39,10 @@ func newEClassTransitionsTable() *EClassTransitionsTable {
 	}
 }
 
-func (table *EClassTransitionsTable) union(other *EClassTransitionsTable) *EClassTransitionsTable {
-	for _, transitions := range other.transitionsMap {
-		for _, transition := range transitions {
-			table.addTransition(transition)
-		}
-	}
-	for eClass := range other.endSet {
-		table.setIsEnd(eClass)
-	}
-	return table
-}
-
 func (table *EClassTransitionsTable) addTransition(t *transition) {
 	table.transitionsMap[t.source] = table.transitionsMap[t.source].addTransition(t)
 }
 
-func (table *EClassTransitionsTable) removeTransition(t *transition) {
-	if tableTransitions, isTransitions := table.transitionsMap[t.source]; isTransitions {
-		table.transitionsMap[t.source] = tableTransitions.removeTransition(t)
-	}
-}
-
 func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition {
 	if tableTransitions, isTransitions := table.transitionsMap[eClass]; isTransitions {
 		return tableTransitions
@@ -93,47 +67,50 @@ func (table *EClassTransitionsTable) isEnd(eClass EClass) bool {
 func NewEClassTransitionsTable(startClass EClass, endClass EClass) *EClassTransitionsTable {
 	resultTable := newEClassTransitionsTable()
 	if startClass != endClass {
-		computeTransitionTableForState(startClass, endClass, newEClassTransitionsTable(), resultTable)
-	}
-	return resultTable
-}
-
-func computeTransitionTableForState(eClass EClass, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
-		reference, _ := itFeature.Next().(EReference)
-		if reference != nil {
-			computeTransitionTableForReference(eClass, reference, endClass, currentTable, resultTable)
+		reachableTable := newEClassTransitionsTable()
+		computeReachableTransitions(startClass, reachableTable)
+		// classes with a transition that leads to the end class
+		leadingClasses := map[EClass]struct{}{}
+		isLeading := func(t *transition) bool {
+			_, isLeading := leadingClasses[t.target]
+			return isLeading || t.target == endClass
+		}
+		for isModified := true; isModified; {
+			isModified = false
+			for eClass, transitions := range reachableTable.transitionsMap {
+				if _, isClass := leadingClasses[eClass]; !isClass && slices.ContainsFunc(transitions, isLeading) {
+					leadingClasses[eClass] = struct{}{}
+					isModified = true
+				}
+			}
+		}
+		// keep transitions that lead to the end class
+		for _, transitions := range reachableTable.transitionsMap {
+			for _, transition := range transitions {
+				if isLeading(transition) {
+					resultTable.addTransition(transition)
+				}
+				if transition.target == endClass {
+					resultTable.setIsEnd(endClass)
+				}
+			}
 		}
 	}
+	return resultTable
 }
 
-func computeTransitionTableForReference(sourceClass EClass, reference EReference, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	targetClass := reference.GetEReferenceType()
-	transition := &transition{source: sourceClass, target: targetClass, reference: reference}
-
-	if targetClass == endClass {
-		// end
-		// add current to result table
-		resultTable.setIsEnd(targetClass)
-		resultTable.union(currentTable)
-		resultTable.addTransition(transition)
+func computeReachableTransitions(eClass EClass, table *EClassTransitionsTable) {
+	if table.contains(eClass) {
+		return
 	}
-
-	if currentTable.contains(targetClass) {
-		// cycle
-		// check if target is in result and add the current
-		// transition table to keep track of this cycle
-		if resultTable.contains(targetClass) {
-			resultTable.union(currentTable)
-			resultTable.addTransition(transition)
+	table.transitionsMap[eClass] = nil
+	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
+		if reference, _ := itFeature.Next().(EReference); reference != nil {
+			target := reference.GetEReferenceType()
+			table.addTransition(&transition{source: eClass, target: target, reference: reference})
+			computeReachableTransitions(target, table)
 		}
-		return
 	}
-
-	currentTable.addTransition(transition)
-	computeTransitionTableForState(targetClass, endClass, currentTable, resultTable)
-	currentTable.removeTransition(transition)
-
 }
 
 type data struct {
-- 
2.43.0


From feff618609a6143fecd3852c97ce37095509a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 20/32] fix: the fragment of an annotation without count no
 longer panics

---
 ecore/emodelelement_ext.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..847e8db 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,8 +51,9 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
-					if index == len(uriFragmentSegment)-1 || hasCount {
+					isLast := index == len(uriFragmentSegment)-1
+					hasCount = !isLast && uriFragmentSegment[index+1] == '.'
+					if isLast || hasCount {
 
 						// DecodeResource all encoded characters.
 						source := ""
-- 
2.43.0


From 24fe704b2a4e12b18c602b77b7f717b10a5f949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 21/32] fix: the name in a fragment segment is decoded before
 it is compared

---
 ecore/emodelelement_ext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 847e8db..2008a79 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -106,8 +106,8 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 
 			if name == "%" {
 				name = ""
-			} else {
-				name = url.PathEscape(name)
+			} else if decoded, err := url.PathUnescape(name); err == nil {
+				name = decoded
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
-- 
2.43.0


From 45ad9a6d3b1f47adab099f2f7b8b2cac1afe7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 22/32] fix: a name that looks like a feature or has a trailing
 number is kept apart in a fragment segment

---
 ecore/emodelelement_ext.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 2008a79..931d9ce 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -151,7 +151,13 @@ func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFe
 		} else {
 			name = url.PathEscape(name)
 		}
-		if count > 0 {
+		// A first '@' introduces a feature.
+		if name[0] == '@' {
+			name = "%40" + name[1:]
+		}
+		// A trailing number is read as a count.
+		_, err := strconv.Atoi(name[strings.LastIndex(name, ".")+1:])
+		if count > 0 || err == nil && strings.Contains(name, ".") {
 			return name + "." + fmt.Sprintf("%d", count)
 		}
 		return name
-- 
2.43.0


From 83fa2d27784563002caad836d615521d6406c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 23/32] fix: a fragment that is a lone question mark no longer
 panics

---
 ecore/eresource_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..f429b36 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -243,7 +243,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index != -1 {
 				id = uriFragment[:index]
 			}
 		}
-- 
2.43.0


From 09c0f522fc300ffcf5c441e2e4ef5b440e2a4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 24/32] fix: a relative fragment path that is empty or leads
 nowhere no longer panics

---
 ecore/ecoreutils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..abd16cb 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -94,10 +94,13 @@ func getRelativeURIFragmentPath(ancestor EObject, descendant EObject, _ bool) st
 }
 
 func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
+	if len(relativeFragmentPath) == 0 {
+		return rootEObject
+	}
 	segments := strings.Split(relativeFragmentPath, "/")
-	eObject := rootEObject.(EObjectInternal)
+	eObject := rootEObject
 	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+		eObject = eObject.(EObjectInternal).EObjectForFragmentSegment(segments[i])
 	}
 	return eObject
 }
-- 
2.43.0


From ab8dbbbee539b94b29451fd3b3f4927033a1d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 25/32] fix: unsetting a many-valued feature of a dynamic
 object empties its list

---
 ecore/abstracteobject.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 83f6e13..d409cc3 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -586,7 +586,9 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != nil {
+		if list, isList := oldValue.(EList); isList && dynamicFeature.IsMany() {
+			list.Clear()
+		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
 
@@ -627,6 +629,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		}
 	} else {
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
+		if list, isList := oldValue.(EList); isList && dynamicFeature.IsMany() {
+			list.Clear()
+			return
+		}
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, nil, NO_INDEX))
-- 
2.43.0


From df77a6a350a3c3d12139159d2aa262e29b1c119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 26/32] fix: a many-valued feature of a dynamic object is set
 only if its list is not empty

---
 ecore/abstracteobject.go        | 10 ++++++++++
 ecore/dynamiceobject_impl.go    |  2 +-
 ecore/estoreeobject_impl.go     |  2 +-
 ecore/reflectiveeobject_impl.go |  2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d409cc3..5fd7b85 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -542,6 +542,16 @@ func (o *AbstractEObject) eDynamicPropertiesIsSet(properties EDynamicProperties,
 	}
 }
 
+// eDynamicValueIsSet returns true if a dynamic feature that holds a value is set.
+// The list of a many-valued feature is created on demand: the feature is set if it is not empty
+func (o *AbstractEObject) eDynamicValueIsSet(value any, dynamicFeatureID int) bool {
+	if list, isList := value.(EList); isList {
+		featureID := o.AsEObjectInternal().EStaticFeatureCount() + dynamicFeatureID
+		return !o.AsEObject().EClass().GetEStructuralFeature(featureID).IsMany() || !list.Empty()
+	}
+	return value != nil
+}
+
 // EUnset ...
 func (o *AbstractEObject) EUnset(feature EStructuralFeature) {
 	featureID := o.AsEObjectInternal().EFeatureID(feature)
diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index bbae8dd..220f370 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -70,7 +70,7 @@ func (o *DynamicEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *DynamicEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.properties[dynamicFeatureID] != nil
+	return o.eDynamicValueIsSet(o.properties[dynamicFeatureID], dynamicFeatureID)
 }
 
 func (o *DynamicEObjectImpl) EFeatureID(feature EStructuralFeature) int {
diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..414cb1f 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -181,7 +181,7 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	defer o.mutex.Unlock()
 
 	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return true
+		return o.eDynamicValueIsSet(o.properties[dynamicFeatureID], dynamicFeatureID)
 	}
 	if store := o.AsEStoreEObject().GetEStore(); store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 6e0a256..15d97f6 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -57,7 +57,7 @@ func (o *ReflectiveEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.getProperties()[dynamicFeatureID] != nil
+	return o.eDynamicValueIsSet(o.getProperties()[dynamicFeatureID], dynamicFeatureID)
 }
 
 func (o *ReflectiveEObjectImpl) getProperties() []any {
-- 
2.43.0


From 476fe0044b09188b20467794c84400ee3907888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 27/32] fix: comparing objects includes their inherited
 features and leaves out their container, as copying does

---
 ecore/deepequal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..e386c59 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,8 +84,8 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
-		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !IsContainer(eFeature) && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
 			return false
-- 
2.43.0


From 22a2a5dd65536b45ce979b3d8fd19552daef0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 28/32] fix: copying objects includes their inherited
 references

---
 ecore/deepcopy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..708a62f 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -90,7 +90,7 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 
 func (dC *deepCopy) copyReferences() {
 	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
-- 
2.43.0


From b91aa3e2e6f759d60894a032497d49305c57abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 29/32] fix: declaring a namespace prefix after leaving an
 element that declared one panicked or lost the declaration

---
 ecore/xmlnamespaces.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/xmlnamespaces.go b/ecore/xmlnamespaces.go
index 3ffae10..c018405 100644
--- a/ecore/xmlnamespaces.go
+++ b/ecore/xmlnamespaces.go
@@ -53,7 +53,7 @@ func (n *xmlNamespaces) declarePrefix(prefix string, uri string) bool {
 	if n.namespacesSize > len(n.namespaces) {
 		n.namespaces = append(n.namespaces, pair{prefix, uri})
 	} else {
-		n.namespaces[n.namespacesSize] = pair{prefix, uri}
+		n.namespaces[n.namespacesSize-1] = pair{prefix, uri}
 	}
 	return false
 }
-- 
2.43.0


From 99f417b7d7479254822741ccdc330ab7e5804ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 30/32] fix: reading or writing a third namespace with the same
 prefix never returned

---
 ecore/xmldecoder.go | 2 +-
 ecore/xmlencoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..0abc9bc 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -283,7 +283,7 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
 		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)] {
 			index++
 		}
 		prefix += "_" + fmt.Sprintf("%d", index)
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..64e0693 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -719,7 +719,7 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
 				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)] {
 					index++
 				}
 				nsPrefix += "_" + fmt.Sprintf("%d", index)
-- 
2.43.0


From 81b16eadda94b831bf9526903d848585e13054bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 31/32] fix: a content adapter that is part of another adapter
 recognizes itself

---
 ecore/econtentadapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..00f135e 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -119,7 +119,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
@@ -178,12 +178,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
-- 
2.43.0


From 980bfdda4cb90fa9945ddf89568d6ed3918f0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:20 +0000
Subject: [PATCH 32/32] fix: removing a range from a list kept in a store
 announced the elements removed so far instead of each

---
 ecore/estorelist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..4b0f35b 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -324,7 +324,7 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+				listCallbacks.DidRemove(fromIndex, object)
 			}
 			listCallbacks.DidChange()
 		} else {
-- 
2.43.0

