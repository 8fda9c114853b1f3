#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as python so the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Collections behave as sequences, unique ones never hold duplicates",
 "After any sequence of operations a list contains exactly the elements, in exactly the order, that the same operations produce on an abstract sequence, and every operation returns what the abstract sequence returns. A list declared unique never contains the same element twice. An operation refused because its position is out of range leaves the list unchanged.",
 ["histories","inputs"],"every sequence of list operations (add, insert, bulk add/insert, set, move, remove, range/bulk removal, clear) with every index and argument, on plain, unique, notifying, value and object lists, through the list and through its read-only and unresolved views",
 "unit tests exercise each operation once or twice from hand-made lists; combinations (bulk insertion overlapping existing elements, moves to the ends, removal through a view) are an unbounded history space",
 ["ecore/abstractelist.go","ecore/basicelist.go","ecore/basicenotifyinglist.go","ecore/basicedatatypelist.go","ecore/basiceobjectlist.go","ecore/immutableEList.go","ecore/delegatingelist.go"],
 [("uniqueness filter and index checks","ecore/abstractelist.go AbstractEList.Add/Insert/AddAll/Set/Move"),("array storage","ecore/basicelist.go doInsert/doMove/doRemoveRange")],
 [("data","current elements","ecore/basicelist.go BasicEList.data")],["Get, Size, ToArray, IndexOf, Contains, iteration, returned values"])

p("C02","Containment: one container per object, and both ends always agree",
 "After any sequence of edits, an object is held by a containment feature (single or many-valued) of another object exactly when that object reports it as its container through that same feature, so every object has at most one container and one position. Putting an object in a new place removes it from its previous one, and removing, replacing, clearing or unsetting detaches exactly the objects taken out.",
 ["histories"],"every history of sets, unsets, list edits and container assignments over any objects, for containment features with and without an opposite, single and many valued",
 "the two ends are updated by different code paths (set, unset, list inverse, container assignment, move between containers and resources); tests check single steps of a few of the combinations",
 ["ecore/abstracteobject.go","ecore/basiceobjectlist.go","ecore/basicenotifyinglist.go","ecore/basiceobject_impl.go","ecore/compacteobject_impl.go","ecore/compacteobject_container.go","ecore/ecoreutils.go"],
 [("inverse handling","ecore/abstracteobject.go EInverseAdd/EInverseRemove/EBasicSetContainer"),("list inverse handling","ecore/basicenotifyinglist.go, ecore/basiceobjectlist.go inverseAdd/inverseRemove")],
 [("container","container and feature id of an object","ecore/basiceobject_impl.go, ecore/compacteobject_impl.go"),("feature values","properties or fields","ecore/dynamiceobject_impl.go, generated *_impl.go")],
 ["EContainer, EContainingFeature, EContainmentFeature, EContents, EGet"])

p("C03","Opposite references are always mutually consistent",
 "For every pair of opposite references, an object is among the values of one end exactly when the owner is among the values of the other end, after every edit made through either end. Displacing a value at a single-valued end releases the displaced partner's end as well. No partner appears twice in a many-valued end.",
 ["histories"],"every history of edits through either end, for one-to-one, one-to-many and many-to-many opposites, contained or not",
 "a displaced partner, a self reference or a bulk edit touches up to four objects through two implementations; tests fix one or two objects",
 ["ecore/abstracteobject.go","ecore/basiceobjectlist.go","ecore/basicenotifyinglist.go","ecore/estoreeobject_impl.go","ecore/estorelist.go"],
 [("inverse handling","ecore/abstracteobject.go eDynamicPropertiesSet/InverseAdd/InverseRemove"),("list inverse handling","ecore/basicenotifyinglist.go")],
 [("feature values","properties of both ends","ecore/dynamiceobject_impl.go")],["EGet on both ends"])

p("C04","Change notifications replay to the observed state",
 "An observer that starts from a feature's state and applies the notifications it receives, in order and nothing else, always obtains the feature's actual state: each notification names the right feature, old value, new value and position, and no change is missed or reported twice. Edits grouped in one bulk operation or merged together describe the same change as their parts. Nothing is delivered while delivery is switched off.",
 ["histories"],"every history of edits on any attribute, reference or collection with observers attached, including bulk removals, moves, replacements, opposite updates and merging of notifications",
 "tests assert single notifications on mocks; that the stream as a whole replays to the state is a property of all histories",
 ["ecore/basicenotifyinglist.go","ecore/abstractnotification.go","ecore/notificationchain.go","ecore/abstractenotifier.go","ecore/abstracteobject.go"],
 [("notification creation","ecore/basicenotifyinglist.go createAndAddNotification; ecore/abstracteobject.go"),("merging","ecore/abstractnotification.go Merge; ecore/notificationchain.go Add")],
 None,["EAdapter.NotifyChanged: event type, feature, old/new value, position"])

p("C05","A content observer watches exactly the tree under its target",
 "A content observer attached to an object, a resource or a resource set is attached to exactly the target and everything currently contained below it, no more and no less and once each, after any sequence of edits. It therefore receives every later change made anywhere in that tree and none from objects that left it. Detaching it from the target removes it from the whole tree.",
 ["histories"],"every history of additions, removals, moves, replacements, clears and container changes below (or out of, or into) an observed tree, for object, resource and resource-set targets",
 "tests add or remove one child; leaving one observer behind or adding one twice needs particular combinations such as moves inside the tree or bulk edits",
 ["ecore/econtentadapter.go","ecore/abstractenotifier.go","ecore/abstracteadapter.go"],
 [("propagation","ecore/econtentadapter.go NotifyChanged/handleContainment")],None,["EAdapters of every object, received notifications"])

p("C06","Resource membership follows containment, and load state follows contents",
 "An object belongs to a resource exactly when it, or the nearest ancestor placed directly in a resource, is among that resource's contents; each object is a direct content of at most one resource. Every object entering or leaving a resource, by any edit, is reported to the resource's listeners exactly once, so attached minus detached is always the set of members. Unloading empties the resource and leaves none of the former objects attached to it.",
 ["histories"],"every history of edits on contents lists and on containment features across several resources, and of load, unload and reload",
 "resource membership changes from several code paths (contents list, container change, cross-resource moves); tests cover isolated steps with mocks",
 ["ecore/eresource_impl.go","ecore/abstracteobject.go","ecore/eresourceset_impl.go"],
 [("attach/detach","ecore/eresource_impl.go Attached/Detached, resourceContents"),("membership","ecore/abstracteobject.go ESetResource, EBasicSetContainer, EResource")],
 [("contents","direct contents","ecore/eresource_impl.go"),("internal resource","direct resource of an object","ecore/basiceobject_impl.go")],
 ["EResource, GetContents, IsLoaded, resource listeners"])

p("C07","Object identifiers are a bijection and are never reused",
 "At every moment an identifier manager maps each registered object to one identifier and that identifier back to that object, no two registered objects share an identifier, and unregistered objects are not found by it. An automatically assigned identifier is never given to another object, an object that leaves and comes back keeps its identifier, and clearing forgets everything. The managers that assign identifiers themselves keep this also when used from several goroutines at once.",
 ["histories","schedules"],"every history of register, unregister, assign, clear and resource edits, and every interleaving of concurrent callers",
 "tests register two or three objects once; collisions need histories mixing explicit ids, re-registration, clears and concurrency",
 ["ecore/uniqueidmanager.go","ecore/eobjectidmanager_impl.go","ecore/eresource_impl.go"],
 [("id maps","ecore/uniqueidmanager.go Register/UnRegister/SetID"),("attribute ids","ecore/eobjectidmanager_impl.go")],
 [("objectToID, idToObject, detachedToID","maps","ecore/uniqueidmanager.go")],["GetID, GetEObject, GetDetachedID"])

p("C08","Every object's address in its resource leads back to it",
 "For every object of a resource, the address computed for it is resolved by the resource to the same object, after any sequence of edits, whether addresses are positions, names or identifiers. Distinct objects have distinct addresses. An address of an object that is no longer there, or that never existed, resolves to nothing rather than to a wrong object or a failure.",
 ["histories","inputs"],"every tree shape reachable by edits (several roots, single and many features, nested metamodel elements with equal, empty or special names, annotations) and every stale address",
 "tests resolve a few fixed addresses in fixed files",
 ["ecore/eresource_impl.go","ecore/abstracteobject.go","ecore/emodelelement_ext.go","ecore/ecoreutils.go"],
 [("fragments","ecore/eresource_impl.go GetURIFragment/GetEObject"),("segments","ecore/abstracteobject.go EURIFragmentSegment/EObjectForFragmentSegment; ecore/emodelelement_ext.go")],
 None,["EResource.GetURIFragment, EResource.GetEObject, EResourceSet.GetEObject, GetURI"])

p("C09","Proxies resolve in place to the addressed object, or stay as they are",
 "Reading a proxy-resolving reference whose value is a proxy yields the object at the proxy's address when that address can be resolved, loading its resource if needed; the real object replaces the proxy at the same position, exactly once, and observers are told. When the address cannot be resolved the proxy stays in place. Reading without resolution never loads or changes anything.",
 ["histories","inputs","fault_sequences"],"every reference kind (single, many, containment), every position, resolvable and unresolvable addresses, targets becoming available later, and repeated reads through every read path",
 "tests resolve one proxy through mocks",
 ["ecore/abstracteobject.go","ecore/basiceobjectlist.go","ecore/ecoreutils.go","ecore/eresourceset_impl.go","ecore/econtentslist.go"],
 [("resolution","ecore/ecoreutils.go ResolveInObject/ResolveInResource/ResolveInResourceSet"),("in-place replacement","ecore/basiceobjectlist.go resolve; ecore/abstracteobject.go eDynamicPropertiesGet")],
 None,["EGet, EGetResolve, Get, iteration, EContents, notifications of type RESOLVE"])

p("C10","Derived views of a class always match its current definition",
 "After any edit of a metamodel, every derived view of a class (all super types, features, attributes, references, containments, cross references, operations, identifying attribute, lookup by name, lookup by number, super-type tests) equals what a fresh computation over the current super types and features gives. Feature numbers of a class are exactly its positions in the list of all its features. Lookup of classifiers in a package likewise follows its current classifiers.",
 ["histories"],"every history of adding, removing, moving, renaming and retyping features, operations, super types (at any depth, including shared ancestors) and classifiers, interleaved with reads of any view",
 "each view is cached and invalidated separately; tests read each view once after one edit, so a stale combination of read and edit goes unseen",
 ["ecore/eclass_ext.go","ecore/epackage_ext.go","ecore/eclass_impl.go","ecore/ereference_ext.go","ecore/eattribute_ext.go","ecore/eenum_ext.go"],
 [("caches","ecore/eclass_ext.go initEAll*"),("invalidation","ecore/eclass_ext.go setModified, eSuperAdapter")],
 [("eAll*","cached views","ecore/eclass_impl.go")],["GetEAll* and lookups of EClass, GetEClassifier of EPackage"])

p("C11","Maps keep one entry per key and all their views agree",
 "After any sequence of operations a map holds at most one entry per key, and lookup by key, membership tests, the list of entries and the exported dictionary all describe the same key/value pairs, namely those an abstract dictionary would hold: putting a value for an existing key replaces the value of its entry, which keeps its place, removing a key removes its entry and gives its value, and an entry that is an object is in one map at most. The list operations used on a map add entries whose keys are not in it.",
 ["histories"],"every history mixing key operations (put, remove key, lookups) with list operations on the entries (add, remove, set, move, clear, bulk) and with the feature operations (set, unset), entries moving between maps",
 "tests perform a few puts and removals; the lookup table is built lazily and updated separately from the entries list, so staleness depends on the order of reads and edits",
 ["ecore/basicemap.go","ecore/basiceobjectmap.go","ecore/immutableemap.go","ecore/estoremap.go"],
 [("lookup table maintenance","ecore/basicemap.go DidAdd/DidRemove/initDataMap")],
 [("mapData","key to entry value","ecore/basicemap.go")],["GetValue, ContainsKey, ContainsValue, ToMap, Get, Size"])

p("C12","A deep copy is isomorphic to its source and independent of it",
 "Copying an object (or several) yields new objects of the same classes with the same attribute values and the same containment tree in the same order; references between copied objects point to the copies and references leading outside the copied set point to the same outside objects, in the same order (a reference with an opposite cannot lead outside: the outside object is left out of the copy). The source is unchanged, and later edits of either do not show in the other.",
 ["inputs","histories"],"every model graph: inherited features, attributes single and many, references inside and outside the copied set, opposites, cycles, several roots, followed by any edits",
 "tests copy three fixed small models",
 ["ecore/deepcopy.go","ecore/ecoreutils.go"],
 [("copier","ecore/deepcopy.go copy/copyReferences")],None,["Copy, CopyAll and reads of the result"])

p("C13","Deep equality holds exactly for isomorphic object graphs",
 "Two objects are deep-equal exactly when their classes, attribute values (and whether these are set), contained trees and references correspond one to one, an object in both graphs corresponding to itself and a proxy to a proxy for the same uri; any single difference at any depth, in any feature including inherited ones, makes them unequal. The container of an object is not a part of it. Deep equality is reflexive, symmetric and, for graphs without common objects, transitive; a copy equals its original as long as neither is edited; comparing changes nothing.",
 ["inputs"],"every pair of model graphs, in particular graphs differing in one feature at any depth, in the order of a collection, in reference targets or in an unset value",
 "tests compare hand-made pairs differing in one top-level attribute",
 ["ecore/deepequal.go","ecore/ecoreutils.go"],
 [("pairing","ecore/deepequal.go equals")],None,["Equals, EqualsAll"])

p("C14","Content traversals visit every object of the tree exactly once",
 "Traversing the contents of an object visits each object below it exactly once, parents before their children, children in feature and list order, and nothing else; traversing a resource does the same for each of its direct contents in order (an object that is both contained and directly in the resource is met at both places). A traversal restricted to a class visits exactly the visited objects that are instances of it or of its sub classes. The direct contents and cross references of an object list exactly the values of its containment and of its non-containment references respectively.",
 ["inputs","histories"],"every tree shape over any class hierarchy (inherited features, empty and unset features, many and single), after any edits",
 "tests traverse a handful of fixed trees",
 ["ecore/etreeiterator.go","ecore/eallcontents.go","ecore/econtentslist.go","ecore/eresource_impl.go","ecore/eresourceset_impl.go"],
 [("tree iterator","ecore/etreeiterator.go"),("class filter","ecore/eallcontents.go EClassTransitionsTable"),("contents list","ecore/econtentslist.go")],
 None,["EAllContents, EContents, ECrossReferences, GetAllContents, class-filtered traversal"])

p("C15","Saving as XML and loading back preserves the model",
 "A model saved as XML (or XMI) without errors and loaded into an empty resource gives a model with the same roots, classes, containment tree and order, attribute values, set or unset state, references (inside the document and to other documents) and, when asked for, identifiers; loading reports no error. A model the format has no place for (several roots in an XML document, a reference to an object of no document) is reported when it is saved. Saving the loaded model again produces the same document. Decoding a document's root object on its own or loading a document after other documents in the same resource set gives the same result, except that an object decoded on its own reports references within its document that cannot be resolved before it is in a resource.",
 ["inputs","configurations"],"every model over classes with all feature kinds, every string value that XML can carry (escapes, spaces, line breaks, non-ASCII), forward and backward references, cross-document references, and each save/load option",
 "tests round-trip a few fixed files",
 ["ecore/xmlencoder.go","ecore/xmldecoder.go","ecore/xmlstring.go","ecore/xmlnamespaces.go","ecore/xmiencoder.go","ecore/xmidecoder.go","ecore/extendedmetadata.go","ecore/efactory_ext.go"],
 [("encoder","ecore/xmlencoder.go"),("decoder","ecore/xmldecoder.go")],None,["SaveWithWriter/LoadWithReader, GetErrors"])

p("C16","Saving as binary and loading back preserves the model",
 "A model saved in the binary format without errors and loaded into an empty resource gives a model with the same roots, classes, containment tree and order, attribute values of every supported type, references (inside the document and to other documents), proxies and, when asked for, identifiers; loading reports no error. Encoding is deterministic for a given model.",
 ["inputs","configurations"],"every model over classes with all feature kinds, opposites decoded in either order, shared and cross-document targets, all value types and option combinations",
 "tests round-trip a few fixed files",
 ["ecore/binaryencoder.go","ecore/binarydecoder.go","ecore/binarycodec.go"],
 [("encoder","ecore/binaryencoder.go"),("decoder","ecore/binarydecoder.go decodeObject/decodeObjects")],None,["SaveWithWriter/LoadWithReader, GetErrors"])

p("C17","Saving as a database file and loading back preserves the model",
 "A model saved as a database file without errors and loaded into an empty resource gives a model with the same roots and order, classes, containment tree and order, attribute values, references (inside the document and to other documents) and, when asked for, identifiers; loading reports no error. A value the format has no place for (an object contained across documents, a table name used twice) is reported when it is saved.",
 ["inputs","configurations"],"every model over classes with all feature kinds, all value types, references in both directions, several classes and packages, every identifier configuration",
 "tests round-trip a few fixed files",
 ["ecore/sqlencoder.go","ecore/sqldecoder.go","ecore/sqlschema.go","ecore/sqlcodec.go","ecore/sqlbase.go"],
 [("encoder","ecore/sqlencoder.go"),("decoder","ecore/sqldecoder.go"),("schema","ecore/sqlschema.go")],None,["SaveWithWriter/LoadWithReader, GetErrors, database content"])

p("C18","Incomplete documents are reported, never taken for complete ones",
 "Loading a document cut short at any point reports at least one error on the resource and terminates normally; it never silently yields a shorter model without an error (in the text formats no byte at all is the document of an empty model). An error while reading the input is reported likewise, and an error while writing is reported on the resource being saved.",
 ["crash_points","fault_sequences"],"every truncation point of every saved document, every position of a read or write failure, for each format",
 "tests load only complete documents",
 ["ecore/xmldecoder.go","ecore/binarydecoder.go","ecore/binaryencoder.go","ecore/xmlencoder.go","ecore/xmlstring.go","ecore/eresource_impl.go","ecore/ediagnostic_impl.go"],
 [("error propagation","ecore/binarydecoder.go decode*; ecore/xmldecoder.go decodeTopObject; ecore/eresource_impl.go")],None,["GetErrors after Load/Save, absence of panic"])

p("C19","Store-backed objects behave like in-memory objects",
 "An object whose values live in a store answers every operation, returns every value and emits every notification exactly as the same object held in memory would after the same operations, whether its caching is enabled, disabled or switched in between. With caching disabled the store always holds the object's current values. Replacing or clearing the cache never changes what is observed.",
 ["histories","configurations"],"every history of edits on attributes, lists, maps and references of store-backed objects, in each cache mode and across switches",
 "tests drive mocks of the store with one call each",
 ["ecore/estoreeobject_impl.go","ecore/estorelist.go","ecore/estoremap.go","ecore/estore.go"],
 [("cache handling","ecore/estoreeobject_impl.go"),("list","ecore/estorelist.go")],
 [("data/size","cached list","ecore/estorelist.go")],["EGet, list operations, EStore content, notifications"])

p("C20","The database store keeps values and order, and they survive reopening",
 "After any sequence of operations on a database store, every read (value, size, membership, index, whole list, container, roots) returns what an abstract store holding the same values in the same order would return. Once the store has been waited on or closed, opening the database again, with the same or another store, gives the same values in the same order.",
 ["histories"],"every history of set, unset, add, insert at any position, bulk insert, remove, move and clear on single and many-valued attributes and references, with waiting, closing and reopening at any point",
 "tests apply one operation to a prepared file; ordering is kept through stored index keys that are computed from their neighbours, so faults show only after particular sequences of insertions and moves",
 ["ecore/sqlstore.go","ecore/sqlbase.go","ecore/sqlschema.go"],
 [("index computation","ecore/sqlstore.go getInsertIdx, doAdd, doMove"),("pending operations","ecore/sqlstore.go operations")],
 [("idx column","stored ordering key","ecore/sqlschema.go")],["EStore API of SQLStore, database content"])

p("C21","Database store operations take effect in the order they were issued",
 "Writes to the database store run in the background, yet every read returns the effects of exactly the writes issued before it, for any number of callers and objects; no write is lost, applied twice or reordered with another operation on the same object and feature. Waiting, for an object or for everything, returns only when the operations issued before have been applied. A failed operation reports its error and does not disturb other objects.",
 ["schedules","histories","fault_sequences"],"every interleaving of callers and background workers, any mix of reads, writes, waits and closes over several objects and features",
 "tests issue one operation at a time and wait for it",
 ["ecore/sqlstore.go","ecore/sqlbase.go"],
 [("operation dependencies","ecore/sqlstore.go scheduleOperation/registerOperation"),("query scheduling","ecore/sqlbase.go executeSqlite")],
 [("objectOperations","pending operations per object and feature","ecore/sqlstore.go"),("queries","pending queries","ecore/sqlbase.go")],
 ["results of concurrent calls, database content after waiting"])

p("C22","URI resolution, relativization and normalization are consistent",
 "Resolving against a base the result of relativizing a target against it gives back the (normalized) target; resolution follows the standard rules for relative references, and normalization is idempotent and never changes what a path denotes. Building a URI from the components of a parsed URI gives an equal URI, equal text means equal URIs, and components never leak into each other.",
 ["inputs"],"every base and reference URI built from any scheme, authority, path of ordinary, empty, dot and dot-dot segments, query and fragment",
 "tests list a few dozen examples",
 ["ecore/uri.go"],
 [("resolve/relativize","ecore/uri.go Resolve, Relativize, normalize, resolvePath"),("construction","ecore/uri.go NewURIFromComponents, ParseURI")],None,["URI API"])

p("C23","A resource set gives one resource per address, through every alias",
 "Within a resource set, looking up an address always yields the resource whose address is equal after normalization by the configured URI mappings (the mapping of the longest matching prefix applies, again and again; mappings are not circular), or the resource that holds the package registered for the address, creating at most one resource for it and loading it on demand only; two lookups of equal addresses give the same resource until it is removed or readdressed. Removing, adding or readdressing resources is reflected by the next lookup. Registry lookups fall back to the enclosing registry and are overridden by local entries.",
 ["histories","configurations"],"every history of create, lookup (with and without loading), add, remove, readdress and mapping changes over any addresses and aliases, and every combination of local and delegated registrations",
 "tests look up one or two resources; the lookup cache and alias mappings make results depend on history",
 ["ecore/eresourceset_impl.go","ecore/euriconverter_impl.go","ecore/epackageregistry_impl.go","ecore/ecodecregistry_impl.go","ecore/eresource_impl.go"],
 [("lookup","ecore/eresourceset_impl.go GetResource"),("mapping","ecore/euriconverter_impl.go Normalize"),("delegation","ecore/epackageregistry_impl.go, ecore/ecodecregistry_impl.go")],
 [("uriResourceMap","lookup cache","ecore/eresourceset_impl.go")],["GetResource, GetEObject, registries"])

p("C24","Acknowledged database writes survive a crash",
 "If the process is killed at any moment, reopening the database shows, for every object and feature, the effect of a prefix of the operations issued on it, including at least every operation issued before the last completed wait. The reopened database is consistent and can be used further.",
 ["crash_points"],"every kill point during any sequence of writes and waits",
 "no test kills a process",
 ["ecore/sqlstore.go","ecore/sqlbase.go","ecore/sqlschema.go"],
 [("WaitOperations/Close","ecore/sqlstore.go"),("transactions","ecore/sqlbase.go executeSqlite, savepoints")],None,["database content after SIGKILL and reopen"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
