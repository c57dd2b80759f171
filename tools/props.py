# the property list; tools/gen.py turns it into properties.jsonl and MANIFEST.json
def A(files, mech, state=None, obs=None):
    return {"files":["ecore/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],
            "state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],"observe_at":obs or [],"hook_needed":None}
def Q(over,text): return {"over":over,"text":text}
HOOKS=None
NOTES="Every check loads /repo/ecore's current sources, generates the obligations of the contracts in /verif/contracts and discharges them; see DESIGN.md."
NA=[
 dict(property="C20",reason="Round trips relate two programs through bytes: the encoder's text, encoding/xml's tokens and the decoder's deferred references. A contract would need a verified model of encoding/xml and encoding/json and an inductive serialization relation over whole object graphs; neither is within this verifier's reach, and execution alone is another technique. The namespace tables both sides use are under contract (C14)."),
 dict(property="C21",reason="As C20: the format lives in the msgpack library's bytes, which cannot be put under contract offline; the decoder's behaviour on damaged streams depends on that library's."),
 dict(property="C22",reason="The behaviour is that of SQL statements run by SQLite (cgo-free port, far outside the verifier) and of crash points inside it; Go contracts cannot express what a statement text does to a database."),
 dict(property="C23",reason="Contracts here describe one call at a time: the verifier has no ownership or rely/guarantee logic for interleavings, so it can only check lock discipline within a call (done where mutexes occur, C10)."),
]
PROPS=[
 dict(id="C01",title="Lists behave as mathematical sequences",
  statement="Every operation of an in-memory list (get, set, add, insert, bulk add and insert, remove, range and bulk removal, move, clear, search, iteration) changes the list exactly as the corresponding operation on a mathematical sequence would and returns the matching result, and an index outside the list panics and leaves it unchanged. A list declared unique never holds an element twice, and an immutable list never changes.",
  quantifier=Q(["inputs","histories"],"all list contents of any length, all element values, all indices, and any sequence of operations (each contract assumes only the list invariant that every operation re-establishes)"),
  why="The tests run a dozen short lists; the guarantee is about every length, index and element, including slice capacities and arguments that alias the list.",
  anchors=A(["abstractelist.go","basicelist.go","immutableEList.go","elistiterator.go"],
    [("argument checks and uniqueness","AbstractEList"),("array operations","BasicEList.doInsert, doMove, doRemove, doRemoveRange, doAddAll, doInsertAll"),("duplicate elimination","AbstractEList.getNonDuplicates")],
    [("data","the elements in order","BasicEList.data"),("isUnique","no element twice","AbstractEList.isUnique")],["Get","Size","IndexOf","Iterator","ToArray"]),
  note="Proved per function for all inputs. Bounded stand-ins (never counted as proved): AddAll and InsertAll on unique lists, RemoveAll. Trusted: the linked hash set of the collection library (model vmLHS).",
  theorems=["spec_BasicEList_Insert","spec_BasicEList_Move","spec_BasicEList_RemoveRange","spec_BasicEList_InsertAll"]),

 dict(id="C02",title="A change to a notifying list is notified exactly once and correctly",
  statement="Every call that changes a notifying list (add, insert, set, move, remove, clear, range and bulk operations) tells the inverse side of each element added or removed and sends, if and only if the notifier delivers and someone listens, one notification whose type, old value, new value and position describe the change that was made. A refused call sends nothing. The WithNotification operations send nothing and return the notification in a chain, and notifications produced by the inverse side are sent together with the list's own.",
  quantifier=Q(["inputs","histories"],"all list contents, all arguments, observed or not; any sequence of operations"),
  why="Tests check a few notifications of short lists; positions and collected elements depend on index and length.",
  anchors=A(["basicenotifyinglist.go","abstractelist.go"],
    [("change, inverse, notification","BasicENotifyingList.doAdd ... doRemoveAll"),("queue or send","createAndDispatchNotificationFn")],
    [("notifier","who delivers","BasicENotifyingList.GetNotifier")],["ENotifier.ENotify"]),
  note="Proved for all inputs except RemoveAll (bounded stand-in by execution, never counted as proved).",
  theorems=["spec_NotifyingList_InsertAll","spec_NotifyingList_RemoveRange","spec_NotifyingList_Clear"]),
 dict(id="C03",title="Notifications are merged, chained and delivered faithfully",
  statement="Merging two notifications succeeds exactly for successive sets or unsets, or successive removals, of the same feature of the same notifier, and the merged notification describes the combined change (first old value, last new value; removed values with their original positions in increasing order); a refused merge changes nothing. A notification chain lets the first pending notification that can absorb an addition do so, otherwise queues it, and dispatches each notification once, in order. A notifier delivers to every adapter once, in order, and only while delivery is on; an adapter in its list targets it and one taken out does not.",
  quantifier=Q(["inputs","histories"],"all notifications, all chains of any length, all adapter lists"),
  why="The tests merge a handful of pairs; the positions of a merged removal depend on all earlier removals.",
  anchors=A(["abstractnotification.go","notificationchain.go","abstractenotifier.go","enotifier_impl.go"],
    [("merge","AbstractNotification.Merge"),("chain","notificationChain.Add, Dispatch"),("delivery","AbstractENotifier.ENotify"),("adapter list","notifierAdapterList")],
    [],["EAdapter.NotifyChanged"]),
  note="Proved for all inputs; a chain of three self-chained notifications is a bounded stand-in by execution.",
  theorems=["spec_Notification_MergeRemoveMany","spec_Chain_Add","spec_Notifier_Deliver","spec_Adapters_Clear"]),

 dict(id="C04",title="Containment and opposite references stay consistent",
  statement="For dynamic objects and object lists: after any change of a reference through single values or lists, the two sides of a reference with an opposite agree, an object contained through a containment reference has that owner as its container and is held by exactly that feature, and moving an object to a new container removes it from the old one and notifies each affected feature once with its true old and new value. Changing container moves the object between resources exactly when the containment demands it (attached and detached once, taken out of the root contents of a resource unless the containment resolves proxies). An object list resolves a proxy element in place, replacing it and updating inverse sides, and its unresolved view shows and changes the elements as stored.",
  quantifier=Q(["inputs","histories"],"every object, feature kind, old and new container or value, for each entry point (proved); any history of operations on a model of objects and resources (executed, bounded)"),
  why="The tests drive each entry point with mocks and one scenario; consistency is about every combination of old side, new side and feature kind, and about histories.",
  anchors=A(["abstracteobject.go","basiceobjectlist.go","eresource_impl.go"],
    [("container change","AbstractEObject.EBasicSetContainer, ESetResource"),("inverse side","AbstractEObject.EInverseAdd, EInverseRemove, EBasicInverseAdd, EBasicInverseRemove"),("lists","BasicEObjectList.inverseAdd, inverseRemove, resolve")],
    [("container","who contains the object and through which feature","BasicEObjectImpl.container, containerFeatureID")],["EContainer","EGet","EResource","notifications"]),
  note="Proved per entry point against an abstract world of neighbours; whole histories on real objects are a bounded stand-in by execution, never counted as proved. Assumes features are numbered as in their class (single inheritance).",
  theorems=["spec_EObject_SetContainer","spec_EObject_InverseAddContainment","spec_EObjectList_GetProxy"]),
 dict(id="C05",title="Reflective access to a dynamic object reads and writes its features faithfully",
  statement="For a dynamic object, getting a feature returns what was last set or its default, setting and unsetting a feature store the value, update containers and opposites, and send exactly one notification with the true old and new value; setting a many-valued feature replaces the content of its list; reading a reference holding a proxy returns the resolved object, stores it, moves containment and opposite to it and announces the resolution once, while an unresolved read changes nothing; isset reflects what is stored. Access by feature agrees with access by feature ID, and an unknown feature panics and changes nothing.",
  quantifier=Q(["inputs","histories"],"all values, old values, features of every kind (attribute, reference, containment, container, opposite, many), observed or not"),
  why="The tests use mocks with one expectation sequence per feature kind; the combination of old value, new value, containment and opposite decides the outcome.",
  anchors=A(["abstracteobject.go","basiceobject_impl.go"],
    [("dynamic features","AbstractEObject.eDynamicPropertiesGet, eDynamicPropertiesSet, eDynamicPropertiesUnset, eDynamicPropertiesIsSet, eDynamicPropertiesCreateList"),("by feature","AbstractEObject.EGet, ESet, EUnset, EIsSet, EFeatureID")],
    [("properties","the stored values","EDynamicProperties")],["EGet","EIsSet","notifications"]),
  note="Proved for every feature kind against an abstract world of classes, features and neighbours. Assumes features are numbered as in their class (single inheritance).",
  theorems=["spec_EObject_SetRef","spec_EObject_SetContainerRef","spec_EObject_GetProxy","spec_EObject_SetMany"]),

 dict(id="C06",title="A class's derived views follow its features, operations and super types",
  statement="The views of a class (all features, attributes, references, containments, cross references, operations and super types) are those of its super types in order followed by its own, filtered by kind in order, after any change to the lists of super types, features or operations of the class or of any class above it. A feature's or operation's ID is its index among all of them, looking up by ID or by name finds that feature (the class's own before an inherited one of the same name), the ID attribute is the first one marked, and an unknown ID or name gives none. Each view is computed once and kept until a change drops it, in the class and all its subclasses.",
  quantifier=Q(["inputs","histories"],"all numbers and contents of super types, features and operations (proved); any history of changes to a hierarchy of classes (executed, bounded)"),
  why="The tests build a few hierarchies and read each view once or twice; which view is stale depends on the order of reads and changes.",
  anchors=A(["eclass_ext.go","eclass_impl.go","eoperation_ext.go"],
    [("computing the views","EClassExt.initEAllStructuralFeatures, initEAllReferences, initEAllAttributes, initEAllContainments, initEAllCrossReferences, initEAllOperations, initEAllSuperTypes, initFeaturesSubSet"),("dropping them","EClassExt.setModified, eSuperAdapter.NotifyChanged"),("lookups","EClassExt.GetFeatureID, GetEStructuralFeature, GetEStructuralFeatureFromName, GetOverride")],
    [("eAll...","the views kept","EClassImpl, EClassExt"),("subClasses","who must drop its views too","EClassExt.subClasses")],["EClass.GetEAll...","GetFeatureID"]),
  note="Each view is proved for all hierarchies against super types that answer with arbitrary views; histories of real classes are a bounded stand-in by execution, never counted as proved. Changing a feature's own kind or name after the views were read is not covered.",
  theorems=["spec_Class_AllFeatures","spec_Class_AllReferences","spec_Class_AllAttributes","spec_Class_Invalidate"]),

 dict(id="C07",title="Objects keep what they are told, and their contents are one list",
  statement="Whichever layout an object has (compact, compact with its container, basic), setting its container, resource, proxy URI, class or delivery changes that alone: everything else it keeps is answered as before, and lists created on demand stay the same list. A dynamic object's feature values are independent of each other. The contents and cross references of an object are the concatenation, in feature order, of what each set feature holds; size, emptiness, search, access by index, conversion to an array and iteration all agree with it, an iterator asked several times whether there is more answers the same and stays where it is, and the unresolved list gives elements as stored.",
  quantifier=Q(["inputs","histories"],"every combination of things kept, every new value, every number of features, list lengths and iterator positions (each contract assumes only an invariant that every operation re-establishes)"),
  why="The tests set a few fields on one object; which bits and slots move depends on everything kept before. Contents are tested with one or two features.",
  anchors=A(["compacteobject_impl.go","compacteobject_container.go","basiceobject_impl.go","dynamiceobject_impl.go","econtentslist.go"],
    [("packed fields","CompactEObjectImpl.addField, removeField, getField, setField, fieldIndex"),("plain fields","BasicEObjectImpl"),("feature values","DynamicEObjectImpl.EDynamicGet, EDynamicSet, EDynamicUnset"),("contents","eContentsList, eContentsListIterator")],
    [("storage, flags","what a compact object keeps","CompactEObjectImpl"),("prepared, featureCursor","how far an iterator is","eContentsListIterator")],["EInternalContainer","EContents","ECrossReferences"]),
  note="Proved for all inputs. The holder's lists in the contents contracts are immutable lists; changing the model while iterating is not covered.",
  theorems=["spec_Compact_Container","spec_Compact_Proxy","spec_Contents_HasNext","spec_Contents_Next"]),

 dict(id="C08",title="URIs are faithful to their text, and are resolved and relativized correctly",
  statement="A URI made of components has exactly the text of its components and answers them; parsing a text gives a URI of that text with the components the standard parser finds, or its error, and a builder changes one component alone. Trimming the query or fragment, normalizing, replacing a prefix, resolving a reference against a base and relativizing give the URI of exactly the components the rule prescribes (a lone fragment keeps the base document, a relative path is resolved beside the last segment of the base path, dot segments are removed, an unrelated URI is returned unchanged). URIs are equal exactly if their texts are.",
  quantifier=Q(["inputs"],"all strings as components, all pairs of URIs, whatever URIs are cached and whenever the cache forgets them"),
  why="The tests parse and resolve a table of examples; the rules combine the presence of every component with the content of the paths, and results depend on what the shared cache holds.",
  anchors=A(["uri.go","uri_builder.go"],
    [("text and components","NewURIFromComponents, ParseURI, getURICache"),("resolution","URI.Resolve, Relativize, ReplacePrefix, TrimFragment, TrimQuery, Normalize"),("path normal form","normalize, split, join, removeDots, maybeAddLeadingDot")],
    [("uriCache","the URIs known by text","getURICache")],["URI.String","URI accessors"]),
  note="Proved for all inputs, except the normal form of a path, which is compared by execution with an independent definition over segments (bounded stand-in, never counted as proved). Trusted: url.Parse is arbitrary; the weak cache is a map whose entries may vanish at any time.",
  theorems=["spec_NewURIFromComponents","spec_URI_Resolve","spec_URI_Relativize"]),
 dict(id="C09",title="Object identifiers and objects correspond one to one",
  statement="Whatever sequence of registrations, deregistrations and identifier changes is made, an identifier manager leads from an identifier to an object that has it and from an object to its identifier, never to an object that gave it up, and an operation on one object leaves what is known of the others alone. Generated identifiers are never given twice, and an object registered again gets the identifier it had.",
  quantifier=Q(["inputs","histories"],"every object, identifier and state of the manager's tables (each contract assumes only the consistency that every operation re-establishes)"),
  why="The tests register two objects; consistency is about reuse of identifiers and objects over any history.",
  anchors=A(["eobjectidmanager_impl.go","uniqueidmanager.go","incrementalidmanager.go"],
    [("identifiers given by attributes or users","EObjectIDManagerImpl.Register, UnRegister, SetID, Clear"),("generated identifiers","UniqueIDManager.Register, SetID, UnRegister, Clear")],
    [("tables","object to identifier and back","idToObject, objectToID, detachedToID")],["GetID","GetEObject","GetDetachedID"]),
  note="Proved for an arbitrary object and identifier in an arbitrary consistent state. The generic manager is proved at identifier type any; generators other than the incremental one are arbitrary sources of new identifiers.",
  theorems=["spec_IDs_Register","spec_IDs_SetID","spec_UniqueID_SetID"]),
 dict(id="C10",title="A map of entries answers for its entries, one per key",
  statement="An entry map is a list of entries with one entry per key and a look-up that agrees with it: putting a value changes the value of that key alone or adds one entry at the end, removing a key removes its entry and returns its value, adding, inserting, setting, moving, removing and clearing entries through the list keep look-up and list in agreement, and asking changes nothing.",
  quantifier=Q(["inputs","histories"],"all maps, keys, values, positions and collections of entries, whether or not the look-up table has been built (each contract assumes only the agreement that every operation re-establishes)"),
  why="The look-up table is built lazily and updated by list callbacks; the tests exercise a few operations in one state.",
  anchors=A(["basicemap.go","basiceobjectmap.go"],
    [("map operations","BasicEMap.Put, GetValue, RemoveKey, ContainsKey, ContainsValue, ToMap"),("list callbacks","basicEMapList.DidAdd, DidSet, DidRemove, DidClear, basicEObjectMapList")],
    [("mapData","the look-up table","BasicEMap.mapData")],["GetValue","ContainsKey","ToMap","list of entries"]),
  note="Proved for every key of an arbitrary map; histories on a real annotation's details are executed (bounded). Adding an entry whose key another entry has, and changing an entry behind the map's back, are not covered (see the known finding).",
  theorems=["spec_Map_Put","spec_Map_RemoveKey","spec_Map_SetEntry"]),
 dict(id="C11",title="Walking a tree of objects visits each object once, in order",
  statement="Walking all contents of an object or a resource gives every object it contains, at any depth, exactly once, each before the objects it contains and siblings in the order of their list; whether there is more may be asked any number of times, at any point, without changing what comes next. Walking the contents of a class gives exactly the contained objects of that class that containments declared for it lead to, each once and containers first.",
  quantifier=Q(["inputs","histories"],"trees of any shape, depth and width and any point of the walk (proved: each contract assumes only an invariant of the walk that every operation re-establishes); models and trees for the walk by class are executed, bounded"),
  why="The tests walk one tree of two levels; what the stack of iterators holds after the end of several levels at once depends on the shape.",
  anchors=A(["etreeiterator.go","eallcontents.go","eresource_impl.go"],
    [("the walk","treeIterator.HasNext, Next, hasAnyChildren, hasMoreChildren"),("what is walked","newEAllContentsIterator, EResourceImpl.GetAllContents"),("the walk by class","EAllContentsWithClass, EClassTransitionsTable, eAllContentsWithClassIterator")],
    [("data","the iterators of the levels the walk is in","treeIterator.data")],["EObject.EAllContents","EResource.GetAllContents"]),
  note="Proved for all trees, except the walk by class, which is executed on generated models and trees (bounded stand-in, never counted as proved). The children of an object are an arbitrary finite list that does not change during the walk; the walk by class follows static reference types and finds nothing when the wanted class is the start class, as the code says.",
  theorems=["spec_Tree_HasNext","spec_Tree_Next"]),
 dict(id="C12",title="The fragment of an object leads back to it",
  statement="The fragment a resource gives an object (an identifier, or a path of segments from one of its roots) leads back to that object in that resource, whatever the features' and elements' names and however many roots and elements of the same name there are; an object outside the resource has no path, and a path from a container leads from that container to the object. Resolving a proxy follows proxies to the first object that is none or stands for nothing. Removing an object takes it out of its container and its resource and nothing else. Ancestors are found at the nearest level, or not at all.",
  quantifier=Q(["inputs"],"objects at any depth, any names, segments and identifiers, any number of roots and elements (proved over an arbitrary line of containers); names of model elements are executed, bounded"),
  why="The tests look up fragments of a few objects with plain names; paths combine escaping, counting and positions at every level.",
  anchors=A(["eresource_impl.go","abstracteobject.go","emodelelement_ext.go","ecoreutils.go"],
    [("fragments","EResourceImpl.GetURIFragment, GetEObject, getObjectByPath, getObjectForRootSegment"),("segments","AbstractEObject.EURIFragmentSegment, EObjectForFragmentSegment, EModelElementExt.EURIFragmentSegment, EObjectForFragmentSegment"),("ancestors, proxies, removal","GetAncestor, IsAncestor, ResolveInResourceSet, ResolveInResource, ResolveInObject, Remove, GetEObject, getRelativeURIFragmentPath")],
    [],["EResource.GetURIFragment","EResource.GetEObject"]),
  note="Paths, reflective segments, identifiers given by a manager, ancestors, proxies and removal are proved for all inputs. Segments made of names and sources (EModelElementExt) and look-up by identifier attribute are executed on generated models (bounded stand-in, never counted as proved). Recursion and loops are proved partially correct: termination on cyclic proxies is not claimed.",
  theorems=["spec_Fragment_Path","spec_Relative_Path","spec_Segment_Many","spec_Resolve"]),
 dict(id="C13",title="Copies have the structure of their originals; equality is structural",
  statement="Copying an object gives an object of its own class for it and for everything it contains, each holding what its original holds: the same attribute values, copies of the contained objects in the same places, and references to the copies of what was copied, in the same order, and to the same objects otherwise (unless the reference has an opposite); proxies keep their URI, inherited features are included and the originals are left alone. Two objects are equal exactly if the objects they reach can be matched one to one such that matched objects have the same class, equal attributes and matched references (proxies: the same URI), derived features and containers aside; cycles and shared objects make no difference.",
  quantifier=Q(["inputs"],"all objects, classes, features, values, cycles and sharing (proved over arbitrary objects behind the interfaces); orders in bidirectional lists are executed, bounded"),
  why="The tests copy and compare a few small objects; the matching of visited objects matters only for cycles and sharing, and order and sharing of references only for particular graphs.",
  anchors=A(["deepcopy.go","deepequal.go","ecoreutils.go"],
    [("copying","deepCopy.copy, copyAll, copyAttribute, copyContainment, copyProxyURI, copyReferences, copyReference"),("comparing","deepEqual.equals, equalsFeature, equalsAttribute, equalsReference, equalsObjectList, equalsPrimitiveList")],
    [],["Copy","CopyAll","Equals","EqualsAll"]),
  note="Comparison is proved sound (what is found equal is matched alike) and complete (what can be matched is found equal); copying is proved feature by feature for containments, attributes, proxies, single references and lists of references without opposite. Lists with an opposite, and the real classes, are executed on generated models (bounded stand-in, never counted as proved). Termination on cyclic containment is not claimed.",
  theorems=["spec_Equals_Twins","spec_Equals_Sound","spec_Copy_Object","spec_Copy_Reference_Many"]),
 dict(id="C14",title="A namespace prefix stands for what was last declared for it",
  statement="When a document is read, a prefix stands for the namespace declared for it in the innermost open element that declares it, declarations end with their element, and every namespace declared is recorded without losing an earlier one. When a document is written, the prefix chosen for a package is declared for exactly its namespace, is kept for later uses, and never takes over the prefix of another namespace.",
  quantifier=Q(["inputs","histories"],"any nesting of elements, any prefixes and namespaces, any declarations made before (proved: each contract assumes only that the tables are well formed, and re-establishes it)"),
  why="The tests open and close a few elements; tables that shrink and grow again, and several namespaces with one prefix, occur in none of them.",
  anchors=A(["xmlnamespaces.go","xmldecoder.go","xmlencoder.go"],
    [("scopes","xmlNamespaces.pushContext, popContext, declarePrefix, getURI, getPrefix"),("recording","XMLDecoder.startPrefixMapping"),("choosing a prefix","XMLEncoder.getPrefix")],
    [("namespaces, contexts","the declarations of the open elements","xmlNamespaces"),("prefixesToURI, packages","what is declared and chosen","XMLEncoder")],["XMLDecoder","XMLEncoder"]),
  note="Proved for all tables; declaring a prefix a second time in the same element is executed on generated documents (bounded stand-in, never counted as proved).",
  theorems=["spec_Ns_Inside","spec_Ns_After","spec_Ns_PackagePrefix"]),
 dict(id="C15",title="A content adapter adapts exactly what its target contains",
  statement="Attached to an object, a resource or a resource set, a content adapter is an adapter of all it contains (of a proxy only if it resolves proxies). It follows every change: what is added, set or resolved is adapted once, what is removed or replaced no longer is (unless it stays in a resource or container that is adapted), and changes of anything but contents leave all adapters alone. Detached, it is an adapter of none of the contents any more; all this also holds for an adapter that extends it.",
  quantifier=Q(["inputs","histories"],"any contents, notification, values and resources (proved for each level); histories on real objects and resources are executed, bounded"),
  why="The tests send single notifications to mocks; what stays adapted depends on the order and kind of changes and on where an object is otherwise contained.",
  anchors=A(["econtentadapter.go"],
    [("following","EContentAdapter.NotifyChanged, selfAdapt, handleContainment"),("attaching","EContentAdapter.SetTarget, UnSetTarget, addAdapter, removeAdapter, removeAdapterWithChecks")],
    [],["ENotifier.EAdapters"]),
  note="Every event, attaching and detaching are proved for arbitrary contents; histories on real objects are executed (bounded stand-in, never counted as proved). An object moved in the same call as its container is excluded (see the known finding).",
  theorems=["spec_CA_Event","spec_CA_AddMany","spec_CA_RemoveMany","spec_CA_SetTarget_Object"]),
 dict(id="C16",title="Objects and lists kept in a store hold what they would hold in memory",
  statement="A list backed by a store makes every change (add, insert, set, remove, move, clear, range and bulk operations) in its store once and at the right place, and its content, size, results, panics, notifications, inverse calls and callbacks are those of a list in memory; its cache, if on, holds what the store holds, and turning the cache on or off, leaving the store or changing to a store of the same content keeps the content. A proxy read is resolved and announced once and stays a proxy in the store. An object backed by a store writes the values of its non-transient features through, reads them back, caches them only if asked to, brings them home when it leaves the store, and finds the container its store knows. No lock is left held.",
  quantifier=Q(["inputs","histories"],"all contents, values, positions and features; cached or not, stored or not (each contract assumes only the agreement of list and store that every operation re-establishes)"),
  why="The tests use mocks expecting one call each; agreement of store, cache and size is about every position, length and mode, and about what the next operation finds.",
  anchors=A(["estorelist.go","estoreeobject_impl.go"],
    [("writing through","EStoreList.performAdd ... performMove"),("reading","EStoreList.get, resolve, ToArray, IndexOf"),("modes","EStoreList.SetCache, SetEStore; EStoreEObjectImpl.SetCache, SetEStore"),("values","EStoreEObjectImpl.EDynamicGet, EDynamicSet, EDynamicUnset, EDynamicIsSet"),("container","setContainerInStore, initializeContainerFromStore")],
    [("data","the cache","EStoreList.data"),("size","number of elements","EStoreList.size"),("properties","cached values","EStoreEObjectImpl.properties")],["Get","Size","ToArray","EStore"]),
  note="Proved for all inputs against a store that is an abstract sequence (values of one feature). Recursive locks are modelled by their depth for one goroutine. Moving to the position after the last element and inserting the list into itself are left out.",
  theorems=["spec_StoreList_RemoveRange","spec_StoreList_InsertAll","spec_StoreList_GetProxy","spec_StoreObject_Set"]),
 dict(id="C20",title="A model saved as XML or JSON text loads back as the same model",
  statement="Whatever objects a resource holds, saving it as XML or XMI and loading the result gives a resource whose contents are equal to the original's, with the same identifiers and references; a document that is not well formed is reported as errors of the resource and never as a panic.",
  quantifier=Q(["inputs"],"any model, class structure, options and text"),
  why="The tests save and load a handful of documents.",
  anchors=A(["xmlencoder.go","xmldecoder.go","xmiencoder.go","xmidecoder.go","jsonencoder.go"],[("writing","XMLEncoder.encodeTopObject"),("reading","XMLDecoder.decodeTopObject")],[],["EResource.Save","EResource.Load"])),
 dict(id="C21",title="A model saved in the binary format loads back as the same model",
  statement="Whatever objects a resource holds, encoding and decoding it in the binary format gives a resource whose contents are equal to the original's, and a damaged stream is reported as an error and never as a panic.",
  quantifier=Q(["inputs"],"any model, class structure and stream"),
  why="The tests encode and decode a handful of models.",
  anchors=A(["binaryencoder.go","binarydecoder.go"],[("writing","BinaryEncoder"),("reading","BinaryDecoder")],[],["EResource.Save","EResource.Load"])),
 dict(id="C22",title="A model kept in a database is the model",
  statement="A resource stored in a database answers as one kept in memory would, after any history of operations, and what was flushed is found again when the database is opened again, even after a crash between operations.",
  quantifier=Q(["histories","crash_points"],"any history and any point of interruption"),
  why="The tests store and read a handful of objects without interruption.",
  anchors=A(["sqlstore.go","sqlencoder.go","sqldecoder.go"],[("the store","SQLStore")],[],["EStore"])),
 dict(id="C23",title="Shared objects stay consistent when several goroutines use them",
  statement="Objects, lists and stores whose interfaces promise locking give results that some order of the calls would give, whatever the schedule, and no schedule makes them deadlock.",
  quantifier=Q(["schedules"],"any number of goroutines and any interleaving"),
  why="The tests run the schedules the scheduler happens to choose.",
  anchors=A(["elockprovider.go","sqlstore.go","basicemap.go"],[("locking","ELockProvider, SQLStore")],[],["EStore","EMap"])),
]
