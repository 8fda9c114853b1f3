From af133b329a086b53d9dc55c218b106ccdbe8fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 01/47] fix: dynamic ESet and EUnset of many-valued features
 update both ends

ESet on a dynamic many-valued feature stored the given list as is, and EUnset on
a dynamic many-valued containment or bidirectional reference dropped the list:
the values neither got nor lost their container or opposite.
---
 ecore/abstracteobject.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..2f29e0e 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -440,6 +440,14 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		} else if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, newValue, newValue, NO_INDEX))
 		}
+	} else if newList, isList := newValue.(EList); isList && dynamicFeature.IsMany() && !IsMapType(dynamicFeature) {
+		// replace the content of the current list
+		list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
+		if list != newList {
+			values := NewImmutableEList(append([]any{}, newList.ToArray()...))
+			list.Clear()
+			list.AddAll(values)
+		}
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
@@ -580,7 +588,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != nil {
+		if list, isList := oldValue.(EList); isList && !IsMapType(dynamicFeature) {
+			// clear the content of the current list
+			list.Clear()
+		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
 
-- 
2.43.0


From 3f1948a0d9cdd35a06940c880853abfd5fe61164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 02/47] fix: objects of other resources are not attached,
 detached or found by identifier

A tree contained through a proxy resolving reference can hold objects that are
directly contained in another resource: they were reported to the listeners and
registered in the identifiers of the resource of their container too.
---
 ecore/eresource_impl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..39b2ec3 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -228,7 +228,15 @@ func (r *EResourceImpl) getAllContentsResolve(root any, resolve bool) EIterator
 		}
 		contents := o.(EObject).EContents()
 		if !resolve {
-			contents = contents.(EObjectList).GetUnResolvedList()
+			// objects that are directly contained in a resource do not belong to this tree
+			properContents := []any{}
+			for it := contents.(EObjectList).GetUnResolvedList().Iterator(); it.HasNext(); {
+				object := it.Next()
+				if internal, _ := object.(EObjectInternal); internal == nil || internal.EInternalResource() == nil {
+					properContents = append(properContents, object)
+				}
+			}
+			return NewImmutableEList(properContents).Iterator()
 		}
 		return contents.Iterator()
 	})
-- 
2.43.0


From 1c1c4b4c614e206aef8a3dd10a65e474316c8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 03/47] fix: AddAll and InsertAll on a unique list skip all
 elements already present

Elements were removed from the set while iterating over it, which left out the
ones following a removed element and added them a second time.
---
 ecore/abstractelist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..79e8558 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,7 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From 110bef122e6eed14ae14d8d3fde8212a759305f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 04/47] fix: moving an element of a list to an invalid index
 leaves the list unchanged

Move accepted an index equal to the size and MoveObject any index: the list was
modified before the out of range access.
---
 ecore/basicelist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..9122906 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "strconv"
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -105,6 +107,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 }
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: oldIndex=" + strconv.Itoa(oldIndex) + " newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	object := list.data[oldIndex]
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
-- 
2.43.0


From 716ab9787be2eff964c11f390a0d03cf5aef8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 05/47] fix: containment and cross reference features of a
 class include the inherited ones

---
 ecore/eclass_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..6f30721 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -241,7 +241,7 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	if eClass.eContainmentFeatures == nil {
 		containments := []any{}
 		crossReferences := []any{}
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
 			ref, isRef := itFeature.Next().(EReference)
 			if isRef {
 				if ref.IsContainment() {
-- 
2.43.0


From b5a7f7753261111d39341014635a8b22f0042eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 06/47] fix: clearing the proxy URI of a compact object makes
 it a plain object again

---
 ecore/compacteobject_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index 153ab97..e19fc0e 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -202,7 +202,11 @@ func (o *CompactEObjectImpl) EProxyURI() *URI {
 
 // ESetProxyURI ...
 func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
-	o.setField(proxy_flag, uri)
+	if uri == nil {
+		o.setField(proxy_flag, nil)
+	} else {
+		o.setField(proxy_flag, uri)
+	}
 }
 
 // EContents ...
-- 
2.43.0


From 09477e2f6630a8c9267a28a67c5b8bd9f72d652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 07/47] fix: the container of a removed object of a generated
 class is nil and does not panic

---
 ecore/eannotation_impl.go        | 4 +++-
 ecore/eclassifier_impl.go        | 4 +++-
 ecore/eenumliteral_impl.go       | 4 +++-
 ecore/efactory_impl.go           | 4 +++-
 ecore/eoperation_impl.go         | 4 +++-
 ecore/epackage_impl.go           | 4 +++-
 ecore/eparameter_impl.go         | 4 +++-
 ecore/estructuralfeature_impl.go | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b24b41a..bd29dbb 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -82,7 +82,9 @@ func (e *EAnnotationImpl) GetDetails() EMap {
 // GetEModelElement get the value of eModelElement
 func (e *EAnnotationImpl) GetEModelElement() EModelElement {
 	if e.EContainerFeatureID() == EANNOTATION__EMODEL_ELEMENT {
-		return e.EContainer().(EModelElement)
+		if container := e.EContainer(); container != nil {
+			return container.(EModelElement)
+		}
 	}
 	return nil
 }
diff --git a/ecore/eclassifier_impl.go b/ecore/eclassifier_impl.go
index e0bea23..5ada117 100644
--- a/ecore/eclassifier_impl.go
+++ b/ecore/eclassifier_impl.go
@@ -88,7 +88,9 @@ func (e *EClassifierImpl) GetDefaultValue() any {
 // GetEPackage get the value of ePackage
 func (e *EClassifierImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == ECLASSIFIER__EPACKAGE {
-		return e.EContainer().(EPackage)
+		if container := e.EContainer(); container != nil {
+			return container.(EPackage)
+		}
 	}
 	return nil
 }
diff --git a/ecore/eenumliteral_impl.go b/ecore/eenumliteral_impl.go
index f9fe633..086090b 100644
--- a/ecore/eenumliteral_impl.go
+++ b/ecore/eenumliteral_impl.go
@@ -50,7 +50,9 @@ func (e *EEnumLiteralImpl) EStaticFeatureCount() int {
 // GetEEnum get the value of eEnum
 func (e *EEnumLiteralImpl) GetEEnum() EEnum {
 	if e.EContainerFeatureID() == EENUM_LITERAL__EENUM {
-		return e.EContainer().(EEnum)
+		if container := e.EContainer(); container != nil {
+			return container.(EEnum)
+		}
 	}
 	return nil
 }
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index e080106..eeafbb4 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -62,7 +62,9 @@ func (e *EFactoryImpl) CreateFromString(EDataType, string) any {
 // GetEPackage get the value of ePackage
 func (e *EFactoryImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == EFACTORY__EPACKAGE {
-		return e.EContainer().(EPackage)
+		if container := e.EContainer(); container != nil {
+			return container.(EPackage)
+		}
 	}
 	return nil
 }
diff --git a/ecore/eoperation_impl.go b/ecore/eoperation_impl.go
index 2003ee3..f7cf5af 100644
--- a/ecore/eoperation_impl.go
+++ b/ecore/eoperation_impl.go
@@ -61,7 +61,9 @@ func (e *EOperationImpl) IsOverrideOf(EOperation) bool {
 // GetEContainingClass get the value of eContainingClass
 func (e *EOperationImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == EOPERATION__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		if container := e.EContainer(); container != nil {
+			return container.(EClass)
+		}
 	}
 	return nil
 }
diff --git a/ecore/epackage_impl.go b/ecore/epackage_impl.go
index 61e2f0a..ff5dea9 100644
--- a/ecore/epackage_impl.go
+++ b/ecore/epackage_impl.go
@@ -125,7 +125,9 @@ func (e *EPackageImpl) GetESubPackages() EList {
 // GetESuperPackage get the value of eSuperPackage
 func (e *EPackageImpl) GetESuperPackage() EPackage {
 	if e.EContainerFeatureID() == EPACKAGE__ESUPER_PACKAGE {
-		return e.EContainer().(EPackage)
+		if container := e.EContainer(); container != nil {
+			return container.(EPackage)
+		}
 	}
 	return nil
 }
diff --git a/ecore/eparameter_impl.go b/ecore/eparameter_impl.go
index 6d9dc3e..f43202c 100644
--- a/ecore/eparameter_impl.go
+++ b/ecore/eparameter_impl.go
@@ -39,7 +39,9 @@ func (e *EParameterImpl) EStaticFeatureCount() int {
 // GetEOperation get the value of eOperation
 func (e *EParameterImpl) GetEOperation() EOperation {
 	if e.EContainerFeatureID() == EPARAMETER__EOPERATION {
-		return e.EContainer().(EOperation)
+		if container := e.EContainer(); container != nil {
+			return container.(EOperation)
+		}
 	}
 	return nil
 }
diff --git a/ecore/estructuralfeature_impl.go b/ecore/estructuralfeature_impl.go
index 07face8..98fda81 100644
--- a/ecore/estructuralfeature_impl.go
+++ b/ecore/estructuralfeature_impl.go
@@ -91,7 +91,9 @@ func (e *EStructuralFeatureImpl) SetDefaultValueLiteral(newDefaultValueLiteral s
 // GetEContainingClass get the value of eContainingClass
 func (e *EStructuralFeatureImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == ESTRUCTURAL_FEATURE__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		if container := e.EContainer(); container != nil {
+			return container.(EClass)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 21ed74cf10713ae8e1de31c748c8612cddbe177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 08/47] fix: dynamic objects of classes with several super
 types keep both ends of references consistent

---
 ecore/abstracteobject.go  | 33 ++++++++++++++++++++++++---------
 ecore/basiceobjectlist.go | 12 ++++++++++--
 ecore/estorelist.go       |  8 ++++++++
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 2f29e0e..a73086b 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -291,9 +291,9 @@ func (o *AbstractEObject) eDynamicPropertiesGet(properties EDynamicProperties, d
 		if result == nil {
 			if dynamicFeature.IsMany() {
 				if IsMapType(dynamicFeature) {
-					result = o.eDynamicPropertiesCreateMap(dynamicFeature)
+					result = o.eDynamicPropertiesCreateMap(dynamicFeature, dynamicFeatureID)
 				} else {
-					result = o.eDynamicPropertiesCreateList(dynamicFeature)
+					result = o.eDynamicPropertiesCreateList(dynamicFeature, dynamicFeatureID)
 				}
 				properties.EDynamicSet(dynamicFeatureID, result)
 			} else if defaultValue := dynamicFeature.GetDefaultValue(); defaultValue != nil {
@@ -343,7 +343,7 @@ func (o *AbstractEObject) eDynamicPropertiesGet(properties EDynamicProperties, d
 	return nil
 }
 
-func (o *AbstractEObject) eDynamicPropertiesCreateMap(feature EStructuralFeature) EMap {
+func (o *AbstractEObject) eDynamicPropertiesCreateMap(feature EStructuralFeature, dynamicFeatureID int) EMap {
 	eClass := feature.GetEType().(EClass)
 	reverseFeatureID := -1
 	if ref, isRef := feature.(EReference); isRef {
@@ -351,12 +351,18 @@ func (o *AbstractEObject) eDynamicPropertiesCreateMap(feature EStructuralFeature
 			reverseFeatureID = reverseFeature.GetFeatureID()
 		}
 	}
-	return NewBasicEObjectMap(eClass, o.AsEObjectInternal(), feature.GetFeatureID(), reverseFeatureID, feature.IsUnsettable())
+	m := NewBasicEObjectMap(eClass, o.AsEObjectInternal(), feature.GetFeatureID(), reverseFeatureID, feature.IsUnsettable())
+	// with several super types, the feature has another number in the class of this object
+	m.EList.(*basicEObjectMapList).featureID = dynamicFeatureID + o.AsEObjectInternal().EStaticFeatureCount()
+	return m
 }
 
-func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeature) EList {
+func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeature, dynamicFeatureID int) EList {
 	if attribute, isAttribute := feature.(EAttribute); isAttribute {
-		return NewBasicEDataTypeList(o.AsEObjectInternal(), attribute.GetFeatureID(), attribute.IsUnique())
+		list := NewBasicEDataTypeList(o.AsEObjectInternal(), attribute.GetFeatureID(), attribute.IsUnique())
+		// with several super types, the feature has another number in the class of this object
+		list.featureID = dynamicFeatureID + o.AsEObjectInternal().EStaticFeatureCount()
+		return list
 	} else if ref, isRef := feature.(EReference); isRef {
 		inverse := false
 		opposite := false
@@ -382,7 +388,11 @@ func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeatur
 				opposite = false
 			}
 		}
-		return NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, ref.EIsProxy(), ref.IsUnsettable())
+		list := NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, ref.EIsProxy(), ref.IsUnsettable())
+		// with several super types, the features have other numbers in the classes of both ends
+		list.featureID = dynamicFeatureID + o.AsEObjectInternal().EStaticFeatureCount()
+		list.inverseFeature = reverseFeature
+		return list
 	}
 	return nil
 }
@@ -701,7 +711,7 @@ func (o *AbstractEObject) eDynamicPropertiesInverseAdd(properties EDynamicProper
 	if dynamicFeature.IsMany() {
 		value := properties.EDynamicGet(dynamicFeatureID)
 		if value == nil {
-			value = o.eDynamicPropertiesCreateList(dynamicFeature)
+			value = o.eDynamicPropertiesCreateList(dynamicFeature, dynamicFeatureID)
 			properties.EDynamicSet(dynamicFeatureID, value)
 		}
 		if list, _ := value.(ENotifyingList); list != nil {
@@ -881,7 +891,12 @@ func (o *AbstractEObject) EBasicRemoveFromContainerFeature(notifications ENotifi
 	if isReference {
 		inverseFeature := reference.GetEOpposite()
 		if containerInternal, _ := objInternal.EInternalContainer().(EObjectInternal); containerInternal != nil && inverseFeature != nil {
-			return containerInternal.EInverseRemove(o.AsEObject(), inverseFeature.GetFeatureID(), notifications)
+			featureID := inverseFeature.GetFeatureID()
+			if _, isDynamic := containerInternal.(EDynamicProperties); isDynamic {
+				// with several super types, the feature has another number in the class of the container
+				featureID = containerInternal.EClass().GetFeatureID(inverseFeature)
+			}
+			return containerInternal.EInverseRemove(o.AsEObject(), featureID, notifications)
 		}
 	}
 	return notifications
diff --git a/ecore/basiceobjectlist.go b/ecore/basiceobjectlist.go
index ffcfddd..6cfb90e 100644
--- a/ecore/basiceobjectlist.go
+++ b/ecore/basiceobjectlist.go
@@ -14,6 +14,7 @@ type basicEObjectList struct {
 	owner            EObjectInternal
 	featureID        int
 	inverseFeatureID int
+	inverseFeature   EReference // if any, its number depends on the class of the other end
 	containment      bool
 	inverse          bool
 	opposite         bool
@@ -118,11 +119,18 @@ func (list *basicEObjectList) resolveProxy(eObject EObject) EObject {
 	return eObject
 }
 
+func (list *basicEObjectList) getInverseFeatureID(object EObject) int {
+	if list.inverseFeature != nil {
+		return object.EClass().GetFeatureID(list.inverseFeature)
+	}
+	return list.inverseFeatureID
+}
+
 func (list *basicEObjectList) inverseAdd(object any, notifications ENotificationChain) ENotificationChain {
 	internal, _ := object.(EObjectInternal)
 	if internal != nil && list.inverse {
 		if list.opposite {
-			return internal.EInverseAdd(list.owner, list.inverseFeatureID, notifications)
+			return internal.EInverseAdd(list.owner, list.getInverseFeatureID(internal), notifications)
 		} else {
 			return internal.EInverseAdd(list.owner, EOPPOSITE_FEATURE_BASE-list.featureID, notifications)
 		}
@@ -134,7 +142,7 @@ func (list *basicEObjectList) inverseRemove(object any, notifications ENotificat
 	internal, _ := object.(EObjectInternal)
 	if internal != nil && list.inverse {
 		if list.opposite {
-			return internal.EInverseRemove(list.owner, list.inverseFeatureID, notifications)
+			return internal.EInverseRemove(list.owner, list.getInverseFeatureID(internal), notifications)
 		} else {
 			return internal.EInverseRemove(list.owner, EOPPOSITE_FEATURE_BASE-list.featureID, notifications)
 		}
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..8df61ce 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -539,6 +539,10 @@ func (list *EStoreList) inverseAdd(object any, notifications ENotificationChain)
 			return internal.EInverseAdd(list.owner, inverseFeatureID, notifications)
 		} else {
 			featureID := list.feature.GetFeatureID()
+			if _, isDynamic := list.owner.(EDynamicProperties); isDynamic {
+				// with several super types, the feature has another number in the class of the owner
+				featureID = list.GetFeatureID()
+			}
 			return internal.EInverseAdd(list.owner, EOPPOSITE_FEATURE_BASE-featureID, notifications)
 		}
 	}
@@ -554,6 +558,10 @@ func (list *EStoreList) inverseRemove(object any, notifications ENotificationCha
 			return internal.EInverseRemove(list.owner, inverseFeatureID, notifications)
 		} else {
 			featureID := list.feature.GetFeatureID()
+			if _, isDynamic := list.owner.(EDynamicProperties); isDynamic {
+				// with several super types, the feature has another number in the class of the owner
+				featureID = list.GetFeatureID()
+			}
 			return internal.EInverseRemove(list.owner, EOPPOSITE_FEATURE_BASE-featureID, notifications)
 		}
 	}
-- 
2.43.0


From 45eb801b288a94cd40fb18c8026636e314e5d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 09/47] fix: features, operations and super types reached by
 several paths are listed once

---
 ecore/eclass_ext.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 6f30721..f1e06d0 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -9,7 +9,10 @@
 
 package ecore
 
-import "sync"
+import (
+	"slices"
+	"sync"
+)
 
 // EClassExt is the extension of the model object 'EClass'
 type EClassExt struct {
@@ -262,6 +265,17 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	eClass.mutex.Unlock()
 }
 
+// appendUnique appends the elements not already there: a super type reached by
+// several paths contributes once
+func appendUnique(elements []any, others ...any) []any {
+	for _, other := range others {
+		if !slices.Contains(elements, other) {
+			elements = append(elements, other)
+		}
+	}
+	return elements
+}
+
 func (eClass *EClassExt) initEAllAttributes() {
 	eClass.mutex.Lock()
 	if eClass.eAllAttributes == nil {
@@ -273,7 +287,7 @@ func (eClass *EClassExt) initEAllAttributes() {
 			superAttributes := itClass.Next().(EClass).GetEAllAttributes()
 			for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
 				attribute := itAttribute.Next().(EAttribute)
-				allAttributes = append(allAttributes, attribute)
+				allAttributes = appendUnique(allAttributes, attribute)
 				if attribute.IsID() && eIDAttribute == nil {
 					eIDAttribute = attribute
 				}
@@ -304,7 +318,7 @@ func (eClass *EClassExt) initEAllReferences() {
 		references := []any{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superReferences := itClass.Next().(EClass).GetEAllReferences()
-			allReferences = append(allReferences, superReferences.ToArray()...)
+			allReferences = appendUnique(allReferences, superReferences.ToArray()...)
 		}
 
 		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
@@ -361,7 +375,7 @@ func (eClass *EClassExt) initEAllOperations() {
 		allOperations := []any{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superOperations := itClass.Next().(EClass).GetEAllOperations()
-			allOperations = append(allOperations, superOperations.ToArray()...)
+			allOperations = appendUnique(allOperations, superOperations.ToArray()...)
 		}
 
 		operationID := len(allOperations)
@@ -388,7 +402,7 @@ func (eClass *EClassExt) initEAllStructuralFeatures() {
 		allFeatures := []any{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
-			allFeatures = append(allFeatures, superFeatures.ToArray()...)
+			allFeatures = appendUnique(allFeatures, superFeatures.ToArray()...)
 		}
 
 		featureID := len(allFeatures)
@@ -410,8 +424,8 @@ func (eClass *EClassExt) initEAllSuperTypes() {
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superClass := itClass.Next().(EClass)
 			superTypes := superClass.GetEAllSuperTypes()
-			allSuperTypes = append(allSuperTypes, superTypes.ToArray()...)
-			allSuperTypes = append(allSuperTypes, superClass)
+			allSuperTypes = appendUnique(allSuperTypes, superTypes.ToArray()...)
+			allSuperTypes = appendUnique(allSuperTypes, superClass)
 		}
 		eClass.eAllSuperTypes = NewImmutableEList(allSuperTypes)
 	}
-- 
2.43.0


From 3a984cc9605d8bfdd3ef55b6ee5417be9098b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 10/47] fix: notifications of dynamic objects of classes with
 several super types carry the right feature number

---
 ecore/notification.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecore/notification.go b/ecore/notification.go
index 8a3990f..ac20bfb 100644
--- a/ecore/notification.go
+++ b/ecore/notification.go
@@ -43,6 +43,10 @@ func (notif *notification) GetFeatureID() int {
 		return notif.featureID
 	}
 	if notif.feature != nil {
+		if _, isDynamic := notif.object.(EDynamicProperties); isDynamic {
+			// with several super types, the feature has another number in the class of the object
+			return notif.object.EClass().GetFeatureID(notif.feature)
+		}
 		return notif.feature.GetFeatureID()
 	}
 	return -1
-- 
2.43.0


From 998e249229925e0a73f28235b2c87bc872e425ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 11/47] fix: merged notifications describe the same change as
 their parts

---
 ecore/abstractnotification.go | 8 +++++---
 ecore/notificationchain.go    | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..4f69270 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -54,7 +54,8 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 		switch notifEv := eOther.GetEventType(); notifEv {
 		case SET, UNSET:
 			if eNotif.GetNotifier() == eOther.GetNotifier() &&
-				eNotif.GetFeatureID() == eOther.GetFeatureID() {
+				eNotif.GetFeatureID() == eOther.GetFeatureID() &&
+				eNotif.GetPosition() == eOther.GetPosition() {
 				notif.newValue = eOther.GetNewValue()
 				if eOther.GetEventType() == SET {
 					notif.eventType = SET
@@ -113,7 +114,7 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index <= len(positions) {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
@@ -130,7 +131,8 @@ func (notif *AbstractNotification) Add(eOther ENotification) bool {
 	if eOther == nil {
 		return false
 	}
-	if notif.Merge(eOther) {
+	// positions depend on the edits in between: a list edit is merged with the preceding notification only
+	if (notif.next == nil || notif.position == NO_INDEX) && notif.Merge(eOther) {
 		return false
 	}
 	if notif.next == nil {
diff --git a/ecore/notificationchain.go b/ecore/notificationchain.go
index 0c86d05..7f52b27 100644
--- a/ecore/notificationchain.go
+++ b/ecore/notificationchain.go
@@ -24,8 +24,11 @@ func (chain *notificationChain) Add(newNotif ENotification) bool {
 	if newNotif == nil {
 		return false
 	}
-	for it := chain.notifications.Iterator(); it.HasNext(); {
-		if it.Next().(ENotification).Merge(newNotif) {
+	// positions depend on the edits in between: a list edit is merged with the preceding notification only
+	last := chain.notifications.Size() - 1
+	for i := 0; i <= last; i++ {
+		notif := chain.notifications.Get(i).(ENotification)
+		if (i == last || notif.GetPosition() == NO_INDEX) && notif.Merge(newNotif) {
 			return false
 		}
 	}
-- 
2.43.0


From 76ac65e3258604bc110d163635d44541e9ac7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 12/47] fix: derived views of a class follow every edit of its
 metamodel

Cross references were never recomputed, asking for the override of an
inherited operation deadlocked, and renaming or changing a feature, an
operation or a classifier left stale lookups behind.
---
 ecore/eclass_ext.go             | 32 ++++++++++++++++++++++----------
 ecore/eclassifier_ext.go        |  8 ++++++++
 ecore/eoperation_ext.go         |  8 ++++++++
 ecore/epackage_ext.go           | 14 +++++++++++---
 ecore/ereference_ext.go         | 30 ++++++++++++++++++++++++++++++
 ecore/estructuralfeature_ext.go | 19 +++++++++++++++++++
 6 files changed, 98 insertions(+), 13 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index f1e06d0..963a9e5 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -206,19 +206,28 @@ func (eClass *EClassExt) GetOverride(operation EOperation) EOperation {
 func (eClass *EClassExt) initOperationToOverrideMap() {
 	eClass.initEAllOperations()
 	eClass.mutex.Lock()
-	if eClass.operationToOverrideMap == nil {
-		eClass.operationToOverrideMap = make(map[EOperation]EOperation)
-		size := eClass.eAllOperations.Size()
-		for i := 0; i < size; i++ {
-			for j := size - 1; j > i; j-- {
-				oi := eClass.eAllOperations.Get(i).(EOperation)
-				oj := eClass.eAllOperations.Get(j).(EOperation)
-				if oj.IsOverrideOf(oi) {
-					eClass.operationToOverrideMap[oi] = oj
-				}
+	isInitialized := eClass.operationToOverrideMap != nil
+	allOperations := eClass.eAllOperations
+	eClass.mutex.Unlock()
+	if isInitialized {
+		return
+	}
+
+	// the mutex is not held here: IsOverrideOf needs the super types of this class
+	operationToOverrideMap := make(map[EOperation]EOperation)
+	size := allOperations.Size()
+	for i := 0; i < size; i++ {
+		for j := size - 1; j > i; j-- {
+			oi := allOperations.Get(i).(EOperation)
+			oj := allOperations.Get(j).(EOperation)
+			if oj.IsOverrideOf(oi) {
+				operationToOverrideMap[oi] = oj
 			}
 		}
 	}
+
+	eClass.mutex.Lock()
+	eClass.operationToOverrideMap = operationToOverrideMap
 	eClass.mutex.Unlock()
 }
 
@@ -456,6 +465,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EATTRIBUTES:
 		eClass.eAllAttributes = nil
 		eClass.eAllStructuralFeatures = nil
@@ -464,6 +474,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllReferences = nil
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EOPERATIONS:
 		eClass.eAllOperations = nil
 		eClass.eAllContainments = nil
@@ -474,6 +485,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	}
 	for _, s := range eClass.subClasses {
 		s.setModified(featureID)
diff --git a/ecore/eclassifier_ext.go b/ecore/eclassifier_ext.go
index f94ebe3..4be3002 100644
--- a/ecore/eclassifier_ext.go
+++ b/ecore/eclassifier_ext.go
@@ -28,6 +28,14 @@ func (eClassifier *EClassifierExt) initClassifierID() int {
 	return -1
 }
 
+// SetName set the value of name
+func (eClassifier *EClassifierExt) SetName(newName string) {
+	eClassifier.EClassifierImpl.SetName(newName)
+	if ePackage, _ := eClassifier.GetEPackage().(ePackageInternal); ePackage != nil {
+		ePackage.resetClassifierCache()
+	}
+}
+
 func (eClassifier *EClassifierExt) GetDefaultValue() any {
 	return nil
 }
diff --git a/ecore/eoperation_ext.go b/ecore/eoperation_ext.go
index 2a4ccf5..c1876ba 100644
--- a/ecore/eoperation_ext.go
+++ b/ecore/eoperation_ext.go
@@ -21,6 +21,14 @@ func newEOperationExt() *EOperationExt {
 	return eOperation
 }
 
+// SetName set the value of name
+func (eOperation *EOperationExt) SetName(newName string) {
+	eOperation.EOperationImpl.SetName(newName)
+	if eClass, _ := eOperation.GetEContainingClass().(EClassInternal); eClass != nil {
+		eClass.setModified(ECLASS__EOPERATIONS)
+	}
+}
+
 func (eOperation *EOperationExt) IsOverrideOf(otherOperation EOperation) bool {
 	otherContainingClass := otherOperation.GetEContainingClass()
 	if otherContainingClass != nil && otherContainingClass.IsSuperTypeOf(eOperation.GetEContainingClass()) && otherOperation.GetName() == eOperation.GetName() {
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index e224186..9a58b08 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -11,6 +11,10 @@ package ecore
 
 import "sync"
 
+type ePackageInternal interface {
+	resetClassifierCache()
+}
+
 type ePackageExtAdapter struct {
 	AbstractEAdapter
 	pack *EPackageExt
@@ -21,9 +25,7 @@ func (a *ePackageExtAdapter) NotifyChanged(notification ENotification) {
 	if eventType != REMOVING_ADAPTER {
 		featureID := notification.GetFeatureID()
 		if featureID == EPACKAGE__ECLASSIFIERS {
-			a.pack.classifierMutex.Lock()
-			a.pack.classifierCache = nil
-			a.pack.classifierMutex.Unlock()
+			a.pack.resetClassifierCache()
 		}
 	}
 }
@@ -50,6 +52,12 @@ func (pack *EPackageExt) Initialize() {
 	pack.EAdapters().Add(pack.adapter)
 }
 
+func (pack *EPackageExt) resetClassifierCache() {
+	pack.classifierMutex.Lock()
+	pack.classifierCache = nil
+	pack.classifierMutex.Unlock()
+}
+
 func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
 	// retrieve map
 	pack.classifierMutex.Lock()
diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index a989e6a..b8e63e3 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -27,6 +27,36 @@ func (eReference *EReferenceExt) IsContainer() bool {
 	return opposite != nil && opposite.IsContainment()
 }
 
+// SetEOpposite set the value of eOpposite
+func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
+	eReference.EReferenceImpl.SetEOpposite(newEOpposite)
+	eReference.setContainingClassModified(ECLASS__EREFERENCES)
+}
+
+// SetContainment set the value of isContainment
+func (eReference *EReferenceExt) SetContainment(newIsContainment bool) {
+	eReference.EReferenceImpl.SetContainment(newIsContainment)
+	eReference.setContainingClassModified(ECLASS__EREFERENCES)
+	// the opposite becomes, or is no longer, a container reference
+	if opposite := eReference.basicGetEOpposite(); opposite != nil {
+		if eClass, _ := opposite.GetEContainingClass().(EClassInternal); eClass != nil {
+			eClass.setModified(ECLASS__EREFERENCES)
+		}
+	}
+}
+
+// SetEType set the value of eType
+func (eReference *EReferenceExt) SetEType(newEType EClassifier) {
+	eReference.eReferenceType = nil
+	eReference.EReferenceImpl.SetEType(newEType)
+}
+
+// UnsetEType unset the value of eType
+func (eReference *EReferenceExt) UnsetEType() {
+	eReference.eReferenceType = nil
+	eReference.EReferenceImpl.UnsetEType()
+}
+
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
 	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
 		eType := eReference.GetEType()
diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 02ea3ed..b36a193 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -23,6 +23,25 @@ func newEStructuralFeatureExt() *EStructuralFeatureExt {
 	return eStructuralFeature
 }
 
+// setContainingClassModified resets what the containing class derives from its features
+func (eStructuralFeature *EStructuralFeatureExt) setContainingClassModified(featureID int) {
+	if eClass, _ := eStructuralFeature.GetEContainingClass().(EClassInternal); eClass != nil {
+		eClass.setModified(featureID)
+	}
+}
+
+// SetName set the value of name
+func (eStructuralFeature *EStructuralFeatureExt) SetName(newName string) {
+	eStructuralFeature.EStructuralFeatureImpl.SetName(newName)
+	eStructuralFeature.setContainingClassModified(ECLASS__ESTRUCTURAL_FEATURES)
+}
+
+// SetDerived set the value of isDerived
+func (eStructuralFeature *EStructuralFeatureExt) SetDerived(newIsDerived bool) {
+	eStructuralFeature.EStructuralFeatureImpl.SetDerived(newIsDerived)
+	eStructuralFeature.setContainingClassModified(ECLASS__ESTRUCTURAL_FEATURES)
+}
+
 // GetDefaultValue get the value of defaultValue
 func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 	eType := eStructuralFeature.GetEType()
-- 
2.43.0


From f4002e65c2b206788042c176f06562d0f90e36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 13/47] fix: unloading a resource detaches its objects

---
 ecore/eresource_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 39b2ec3..e8a2dbd 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -490,7 +490,10 @@ func (r *EResourceImpl) Unload() {
 }
 
 func (r *EResourceImpl) DoUnload() {
-	r.contents = nil
+	if r.contents != nil {
+		// the objects are no longer attached to this resource
+		r.contents.Clear()
+	}
 	r.errors = nil
 	r.warnings = nil
 	if r.objectIDManager != nil {
-- 
2.43.0


From 269240263770ae1fcaa615d16efa095dd366dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 14/47] fix: content adapters recognize themselves when
 derived, and keep objects of a resource that stay contained in the tree

---
 ecore/econtentadapter.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..536bc40 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -96,21 +96,21 @@ func (adapter *EContentAdapter) selfAdapt(notification ENotification) {
 		feature := notification.GetFeature()
 		if reference, _ := feature.(EReference); reference != nil {
 			if reference.IsContainment() {
-				adapter.handleContainment(notification)
+				adapter.handleContainment(notifier, notification)
 			}
 		}
 	case EResource:
 		if notification.GetFeatureID() == RESOURCE__CONTENTS {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notifier, notification)
 		}
 	case EResourceSet:
 		if notification.GetFeatureID() == RESOURCE_SET__RESOURCES {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notifier, notification)
 		}
 	}
 }
 
-func (adapter *EContentAdapter) handleContainment(notification ENotification) {
+func (adapter *EContentAdapter) handleContainment(notifier ENotifier, notification ENotification) {
 	switch notification.GetEventType() {
 	case RESOLVE:
 		// We need to be careful that the proxy may be resolved while we are attaching this adapter.
@@ -119,19 +119,23 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
 	case UNSET:
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-		adapter.removeAdapterWithChecks(oldNotifier, false, true)
+		// an object replaced in a resource may still be contained in the tree
+		_, inResource := notifier.(EResource)
+		adapter.removeAdapterWithChecks(oldNotifier, inResource, !inResource)
 		adapter.addAdapter(newNotifier)
 	case SET:
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-		adapter.removeAdapterWithChecks(oldNotifier, false, true)
+		// an object replaced in a resource may still be contained in the tree
+		_, inResource := notifier.(EResource)
+		adapter.removeAdapterWithChecks(oldNotifier, inResource, !inResource)
 		adapter.addAdapter(newNotifier)
 	case ADD:
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
@@ -178,12 +182,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
-- 
2.43.0


From 9eb0a8eb9d6bc52d9ff42737bc3c037384adf4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 15/47] fix: contents of a class include the instances of its
 sub classes, wherever they are contained

---
 ecore/eallcontents.go | 178 +++++++++++++++++++-----------------------
 1 file changed, 79 insertions(+), 99 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..72dc465 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "slices"
+
 type eAllContentIterator = treeIterator
 
 func newEAllContentsIterator(object EObject) *eAllContentIterator {
@@ -25,16 +27,6 @@ func (ts transitions) addTransition(transition *transition) transitions {
 	return append(ts, transition)
 }
 
-func (ts transitions) removeTransition(transition *transition) transitions {
-	for i, t := range ts {
-		if t == transition || *t == *transition {
-			ts[i] = ts[len(ts)-1]
-			return ts[:len(ts)-1]
-		}
-	}
-	return ts
-}
-
 type EClassTransitionsTable struct {
 	transitionsMap map[EClass]transitions
 	endSet         map[EClass]struct{}
@@ -47,28 +39,10 @@ func newEClassTransitionsTable() *EClassTransitionsTable {
 	}
 }
 
-func (table *EClassTransitionsTable) union(other *EClassTransitionsTable) *EClassTransitionsTable {
-	for _, transitions := range other.transitionsMap {
-		for _, transition := range transitions {
-			table.addTransition(transition)
-		}
-	}
-	for eClass := range other.endSet {
-		table.setIsEnd(eClass)
-	}
-	return table
-}
-
 func (table *EClassTransitionsTable) addTransition(t *transition) {
 	table.transitionsMap[t.source] = table.transitionsMap[t.source].addTransition(t)
 }
 
-func (table *EClassTransitionsTable) removeTransition(t *transition) {
-	if tableTransitions, isTransitions := table.transitionsMap[t.source]; isTransitions {
-		table.transitionsMap[t.source] = tableTransitions.removeTransition(t)
-	}
-}
-
 func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition {
 	if tableTransitions, isTransitions := table.transitionsMap[eClass]; isTransitions {
 		return tableTransitions
@@ -76,11 +50,6 @@ func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition
 	return nil
 }
 
-func (table *EClassTransitionsTable) contains(source EClass) bool {
-	_, isTransitions := table.transitionsMap[source]
-	return isTransitions
-}
-
 func (table *EClassTransitionsTable) setIsEnd(eClass EClass) {
 	table.endSet[eClass] = struct{}{}
 }
@@ -91,57 +60,73 @@ func (table *EClassTransitionsTable) isEnd(eClass EClass) bool {
 }
 
 func NewEClassTransitionsTable(startClass EClass, endClass EClass) *EClassTransitionsTable {
+	// all the transitions between the classes that can be reached from start class
+	visited := map[EClass]struct{}{}
+	all := computeTransitions(startClass, visited, nil)
+
+	// classes leading to end class
+	leads := map[EClass]struct{}{}
+	isUseful := func(t *transition) bool {
+		_, isLeading := leads[t.target]
+		return isLeading || endClass.IsSuperTypeOf(t.target)
+	}
+	for size := -1; size != len(leads); {
+		size = len(leads)
+		for _, t := range all {
+			if isUseful(t) {
+				leads[t.source] = struct{}{}
+			}
+		}
+	}
+
+	// keep only the transitions leading to end class
 	resultTable := newEClassTransitionsTable()
-	if startClass != endClass {
-		computeTransitionTableForState(startClass, endClass, newEClassTransitionsTable(), resultTable)
+	for _, t := range all {
+		if isUseful(t) {
+			resultTable.addTransition(t)
+			if endClass.IsSuperTypeOf(t.target) {
+				resultTable.setIsEnd(t.target)
+			}
+		}
 	}
 	return resultTable
 }
 
-func computeTransitionTableForState(eClass EClass, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
-		reference, _ := itFeature.Next().(EReference)
-		if reference != nil {
-			computeTransitionTableForReference(eClass, reference, endClass, currentTable, resultTable)
+// computeTransitions collects the transitions of a class and of the classes of its contents
+func computeTransitions(source EClass, visited map[EClass]struct{}, all []*transition) []*transition {
+	if _, isVisited := visited[source]; isVisited {
+		return all
+	}
+	visited[source] = struct{}{}
+	for itFeature := source.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
+		if reference, _ := itFeature.Next().(EReference); reference != nil {
+			for _, target := range withSubClasses(reference.GetEReferenceType(), nil) {
+				all = append(all, &transition{source: source, target: target, reference: reference})
+				all = computeTransitions(target, visited, all)
+			}
 		}
 	}
+	return all
 }
 
-func computeTransitionTableForReference(sourceClass EClass, reference EReference, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	targetClass := reference.GetEReferenceType()
-	transition := &transition{source: sourceClass, target: targetClass, reference: reference}
-
-	if targetClass == endClass {
-		// end
-		// add current to result table
-		resultTable.setIsEnd(targetClass)
-		resultTable.union(currentTable)
-		resultTable.addTransition(transition)
+// withSubClasses collects the classes of the instances of a class
+func withSubClasses(eClass EClass, all []EClass) []EClass {
+	if eClass == nil || slices.Contains(all, eClass) {
+		return all
 	}
-
-	if currentTable.contains(targetClass) {
-		// cycle
-		// check if target is in result and add the current
-		// transition table to keep track of this cycle
-		if resultTable.contains(targetClass) {
-			resultTable.union(currentTable)
-			resultTable.addTransition(transition)
+	all = append(all, eClass)
+	if internal, _ := eClass.(EClassInternal); internal != nil {
+		for _, subClass := range internal.getSubClasses() {
+			all = withSubClasses(subClass.(EClass), all)
 		}
-		return
 	}
-
-	currentTable.addTransition(transition)
-	computeTransitionTableForState(targetClass, endClass, currentTable, resultTable)
-	currentTable.removeTransition(transition)
-
+	return all
 }
 
 type data struct {
-	eObject     EObject
-	eClass      EClass
-	iterator    EIterator
-	transition  *transition   // current transition
-	transitions []*transition // remaining transitions
+	eObject    EObject
+	iterator   EIterator
+	references []EReference // remaining references
 }
 
 type eObjectIterator struct {
@@ -179,14 +164,16 @@ func newEAllContentsWithClassIterator(eObject EObject, eClass EClass) *eAllConte
 }
 
 func newEAllContentsWithTableIterator(eObject EObject, table *EClassTransitionsTable) *eAllContentsWithClassIterator {
-	it := &eAllContentsWithClassIterator{
-		table: table,
-		data:  []*data{{eObject: eObject, eClass: eObject.EClass()}},
-	}
+	it := &eAllContentsWithClassIterator{table: table}
+	it.push(eObject)
 	it.next = it.findNext()
 	return it
 }
 
+func (it *eAllContentsWithClassIterator) push(eObject EObject) {
+	it.data = append(it.data, &data{eObject: eObject, references: it.table.references(eObject.EClass())})
+}
+
 func (it *eAllContentsWithClassIterator) HasNext() bool {
 	return it.next != nil
 }
@@ -197,34 +184,28 @@ func (it *eAllContentsWithClassIterator) Next() any {
 	return next
 }
 
-var notransitions = []*transition{}
+// references returns the references to follow from the instances of a class
+func (table *EClassTransitionsTable) references(eClass EClass) []EReference {
+	references := []EReference{}
+	for _, transition := range table.getTransitions(eClass) {
+		if !slices.Contains(references, transition.reference) {
+			references = append(references, transition.reference)
+		}
+	}
+	return references
+}
 
 func (it *eAllContentsWithClassIterator) findNext() any {
 	for len(it.data) != 0 {
 		d := it.data[len(it.data)-1]
 
-		if d.iterator == nil || !d.iterator.HasNext() {
-			// retrieve state transitions
-			if d.transitions == nil {
-				if transitions := it.table.getTransitions(d.eClass); transitions != nil {
-					d.transitions = transitions
-				} else {
-					d.transitions = notransitions
-				}
-			}
-			// compute current and remaining transition
-			if len(d.transitions) != 0 {
-				last := len(d.transitions) - 1
-				d.transition = d.transitions[last]
-				d.transitions = d.transitions[:last]
-			} else {
-				d.transition = nil
-			}
-
-			// compute iterator
-			if d.transition != nil && d.eObject.EIsSet(d.transition.reference) {
-				value := d.eObject.EGet(d.transition.reference)
-				switch v := value.(type) {
+		// next reference with a value
+		for (d.iterator == nil || !d.iterator.HasNext()) && len(d.references) != 0 {
+			last := len(d.references) - 1
+			reference := d.references[last]
+			d.references = d.references[:last]
+			if d.eObject.EIsSet(reference) {
+				switch v := d.eObject.EGet(reference).(type) {
 				case EList:
 					d.iterator = v.Iterator()
 				case EObject:
@@ -235,12 +216,11 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 
 		if d.iterator != nil && d.iterator.HasNext() {
 			eObject := d.iterator.Next().(EObject)
-			eClass := d.transition.target
 			// push data to the stack before returning to look for children next iteration
-			it.data = append(it.data, &data{eObject: eObject, eClass: eClass})
+			it.push(eObject)
 
 			// a leaf is found
-			if it.table.isEnd(eClass) {
+			if it.table.isEnd(eObject.EClass()) {
 				return eObject
 			}
 
-- 
2.43.0


From 0ac058e35bfc2c4029b1521b50a59efef5b7725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 16/47] fix: an identifier belongs to one object only, also
 after it was assigned again

---
 ecore/eobjectidmanager_impl.go | 35 +++++++++++++++++-----------------
 ecore/uniqueidmanager.go       | 10 +++++++++-
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..d79860b 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -33,8 +33,23 @@ func (m *EObjectIDManagerImpl) Clear() {
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
-		m.idToObject[id] = eObject
-		m.objectToID[eObject] = id
+		m.setObjectID(eObject, id)
+	}
+}
+
+func (m *EObjectIDManagerImpl) setObjectID(eObject EObject, newID string) {
+	if oldID, isOldID := m.objectToID[eObject]; isOldID {
+		delete(m.idToObject, oldID)
+	}
+	if len(newID) > 0 {
+		if other, isUsed := m.idToObject[newID]; isUsed && other != eObject {
+			// an identifier belongs to one object only
+			delete(m.objectToID, other)
+		}
+		m.objectToID[eObject] = newID
+		m.idToObject[newID] = eObject
+	} else {
+		delete(m.objectToID, eObject)
 	}
 }
 
@@ -44,21 +59,7 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 	}
 	if newID, isString := id.(string); isString {
 		SetEObjectID(eObject, newID)
-
-		oldID := m.objectToID[eObject]
-		if len(newID) > 0 {
-			m.objectToID[eObject] = newID
-		} else {
-			delete(m.objectToID, eObject)
-		}
-
-		if len(oldID) > 0 {
-			delete(m.idToObject, oldID)
-		}
-
-		if len(newID) > 0 {
-			m.idToObject[newID] = eObject
-		}
+		m.setObjectID(eObject, newID)
 		return nil
 	}
 	return fmt.Errorf("id :'%v' not supported by EObjectIDManager", id)
diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..998930e 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -47,6 +47,10 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 	}
 
 	if m.isValidID(newID) {
+		if other, isUsed := m.idToObject[newID]; isUsed && other != eObject {
+			// an identifier belongs to one object only
+			delete(m.objectToID, other)
+		}
 		m.setID(newID)
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
@@ -66,7 +70,11 @@ func (m *UniqueIDManager[ID]) Register(eObject EObject) {
 		newID, isOldID := m.detachedToID[ptr]
 		if isOldID {
 			delete(m.detachedToID, ptr)
-		} else {
+			// the identifier may have been assigned to another object meanwhile
+			_, isUsed := m.idToObject[newID]
+			isOldID = !isUsed
+		}
+		if !isOldID {
 			newID = m.newID()
 		}
 		m.setObjectID(eObject, newID)
-- 
2.43.0


From 5a0f239257cf7fb77fd684665521a14fa98e2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 17/47] fix: addresses of objects lead back to them, and
 addresses of nothing resolve to nothing

---
 ecore/abstracteobject.go   | 35 ++++++++++++++---------------------
 ecore/ecoreutils.go        |  5 ++++-
 ecore/emodelelement_ext.go | 26 +++++++++++++++++++++-----
 ecore/eresource_impl.go    | 15 ++++++++++++---
 ecore/uri.go               | 16 ++++++++++++++--
 5 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index a73086b..49a2ee3 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -902,36 +902,29 @@ func (o *AbstractEObject) EBasicRemoveFromContainerFeature(notifications ENotifi
 	return notifications
 }
 
-func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeature {
-	eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(featureName)
-	if eFeature == nil {
-		panic("The feature " + featureName + " is not a valid feature")
-	}
-	return eFeature
-}
-
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
-
-	lastIndex := len(uriSegment) - 1
-	if lastIndex == -1 || uriSegment[0] != '@' {
-		panic("Expecting @ at index 0 of '" + uriSegment + "'")
+	if len(uriSegment) == 0 || uriSegment[0] != '@' {
+		return nil
 	}
 
-	index := -1
+	eClass := o.AsEObject().EClass()
 	r, _ := utf8.DecodeLastRuneInString(uriSegment)
 	if unicode.IsDigit(r) {
-		if index = strings.LastIndex(uriSegment, "."); index != -1 {
-			pos, _ := strconv.Atoi(uriSegment[index+1:])
-			eFeatureName := uriSegment[1:index]
-			eFeature := o.eStructuralFeature(eFeatureName)
+		if index := strings.LastIndex(uriSegment, "."); index != -1 {
+			pos, err := strconv.Atoi(uriSegment[index+1:])
+			eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:index])
+			if err != nil || eFeature == nil {
+				return nil
+			}
 			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
-			if list != nil && pos < list.Size() {
-				return list.Get(pos).(EObject)
+			if list != nil && pos >= 0 && pos < list.Size() {
+				eObject, _ := list.Get(pos).(EObject)
+				return eObject
 			}
+			return nil
 		}
 	}
-	if index == -1 {
-		eFeature := o.eStructuralFeature(uriSegment[1:])
+	if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:]); eFeature != nil {
 		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
 		return eObject
 	}
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..50ea8db 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -97,7 +97,10 @@ func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
 	segments := strings.Split(relativeFragmentPath, "/")
 	eObject := rootEObject.(EObjectInternal)
 	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+		eObject, _ = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+	}
+	if eObject == nil {
+		return nil
 	}
 	return eObject
 }
diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..d32460c 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,7 +51,7 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
+					hasCount = index < len(uriFragmentSegment)-1 && uriFragmentSegment[index+1] == '.'
 					if index == len(uriFragmentSegment)-1 || hasCount {
 
 						// DecodeResource all encoded characters.
@@ -64,9 +64,10 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 						count := 0
 						if hasCount {
 							i, err := strconv.Atoi(uriFragmentSegment[index+2:])
-							if err == nil {
-								count = i
+							if err != nil || i < 0 {
+								return nil
 							}
+							count = i
 						}
 
 						// Look for the annotation with the matching source.
@@ -106,7 +107,7 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 			if name == "%" {
 				name = ""
 			} else {
-				name = url.PathEscape(name)
+				name, _ = url.PathUnescape(name)
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
@@ -127,6 +128,21 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 	return eModelElement.EModelElementImpl.EObjectForFragmentSegment(uriFragmentSegment)
 }
 
+// escapeSegmentName encodes a name so that it is taken neither for a feature position
+// nor for a name followed by a count
+func escapeSegmentName(name string) string {
+	escaped := url.PathEscape(name)
+	if escaped[0] == '@' {
+		escaped = "%40" + escaped[1:]
+	}
+	if index := strings.LastIndex(escaped, "."); index != -1 {
+		if _, err := strconv.Atoi(escaped[index+1:]); err == nil {
+			escaped = escaped[:index] + "%2E" + escaped[index+1:]
+		}
+	}
+	return escaped
+}
+
 func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFeature, object EObject) string {
 	eNamedElement, _ := object.(ENamedElement)
 	if eNamedElement != nil {
@@ -148,7 +164,7 @@ func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFe
 		if len(name) == 0 {
 			name = "%"
 		} else {
-			name = url.PathEscape(name)
+			name = escapeSegmentName(name)
 		}
 		if count > 0 {
 			return name + "." + fmt.Sprintf("%d", count)
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index e8a2dbd..dc28074 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -251,7 +251,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index > 0 {
 				id = uriFragment[:index]
 			}
 		}
@@ -317,8 +317,13 @@ func (r *EResourceImpl) getIDForObject(eObject EObject) string {
 }
 
 func (r *EResourceImpl) getObjectByID(id string) EObject {
+	if len(id) == 0 {
+		return nil
+	}
 	if r.objectIDManager != nil {
-		return r.objectIDManager.GetEObject(id)
+		if eObject := r.objectIDManager.GetEObject(id); eObject != nil {
+			return eObject
+		}
 	}
 	for it := r.getAllContentsResolve(r.GetInterfaces(), false); it.HasNext(); {
 		eObject := it.Next().(EObject)
@@ -349,7 +354,11 @@ func (r *EResourceImpl) getObjectForRootSegment(rootSegment string) EObject {
 		if rootSegment[0] == '?' {
 			return r.getObjectByID(rootSegment[1:])
 		} else {
-			position, _ = strconv.Atoi(rootSegment)
+			index, err := strconv.Atoi(rootSegment)
+			if err != nil {
+				return nil
+			}
+			position = index
 		}
 	}
 	if position >= 0 && position < r.GetContents().Size() {
diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..b60eb60 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -214,7 +214,9 @@ func ParseURI(rawURI string) (*URI, error) {
 		if url, err := url.Parse(rawURI); err != nil {
 			return nil, err
 		} else {
-			uri = &URI{scheme: url.Scheme, path: url.Path, fragment: url.Fragment, query: url.RawQuery, rawURI: rawURI}
+			uri = &URI{scheme: url.Scheme, path: url.Path, query: url.RawQuery, rawURI: rawURI}
+			// a fragment is kept as it is written : its segments are decoded when it is resolved
+			_, uri.fragment, _ = strings.Cut(rawURI, "#")
 			if url.User != nil {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
@@ -422,7 +424,17 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 }
 
 func (uri *URI) Equals(other *URI) bool {
-	return other != nil && (uri == other || uri.rawURI == other.rawURI)
+	return other != nil && (uri == other ||
+		uri.rawURI == other.rawURI ||
+		// the same address may be written in several ways ( file:/path and file:///path )
+		(uri.scheme == other.scheme &&
+			uri.username == other.username &&
+			uri.password == other.password &&
+			uri.host == other.host &&
+			uri.port == other.port &&
+			uri.path == other.path &&
+			uri.query == other.query &&
+			uri.fragment == other.fragment))
 }
 
 func normalize(path string) string {
-- 
2.43.0


From faf124510d121970c10ef38e5c1884816beadd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 18/47] fix: the containment feature of an object held through
 a bidirectional containment is the containment, not the container end

---
 ecore/abstracteobject.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 49a2ee3..5fd752e 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -202,6 +202,12 @@ func eContainmentFeature(o EObject, container EObject, containerFeatureID int) E
 			feature := o.EClass().GetEStructuralFeature(containerFeatureID)
 			reference, isReference := feature.(EReference)
 			if isReference {
+				// the feature is the container end, the containment is its opposite
+				if basics, _ := reference.(eReferenceBasics); basics != nil {
+					if opposite := basics.basicGetEOpposite(); opposite != nil {
+						return opposite
+					}
+				}
 				return reference
 			}
 		}
-- 
2.43.0


From 3aa70a4eb6f770f79097f1dbdd803762a266a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 19/47] fix: text of built uris, same-document and parent
 references

---
 ecore/uri.go | 192 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 125 insertions(+), 67 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index b60eb60..6c300b4 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -141,23 +141,28 @@ func getURICache() *weak.Map[string, URI] {
 
 func NewURIFromComponents(scheme string, username string, password string, host string, port string, path string, query string, fragment string) *URI {
 	var s strings.Builder
+	components := [8]string{scheme, username, password, host, port, path, query, fragment}
 	indexes := [8][2]int{}
-	writeComponent := func(Component int, str string) {
-		indexes[Component][0] = s.Len()
-		s.WriteString(str)
-		indexes[Component][1] = s.Len()
+	// text is how the component is written : the text of an uri always reads back as its components
+	writeComponent := func(component int, text string) {
+		if text == components[component] {
+			indexes[component][0] = s.Len()
+			indexes[component][1] = s.Len() + len(text)
+		}
+		s.WriteString(text)
 	}
 	if len(scheme) > 0 {
 		writeComponent(schemeComponent, scheme)
 		s.WriteRune(':')
 	}
-	if len(username) > 0 || len(password) > 0 || len(host) > 0 || len(port) > 0 {
+	hasAuthority := len(username) > 0 || len(password) > 0 || len(host) > 0 || len(port) > 0
+	if hasAuthority {
 		s.WriteString("//")
 		if len(username) > 0 || len(password) > 0 {
-			writeComponent(usernameComponent, username)
+			writeComponent(usernameComponent, url.User(username).String())
 			if len(password) > 0 {
 				s.WriteRune(':')
-				writeComponent(passwordComponent, password)
+				writeComponent(passwordComponent, url.User(password).String())
 			}
 			s.WriteRune('@')
 		}
@@ -166,8 +171,11 @@ func NewURIFromComponents(scheme string, username string, password string, host
 			s.WriteRune(':')
 			writeComponent(portComponent, port)
 		}
+	} else if len(scheme) > 0 && strings.HasPrefix(path, "//") {
+		// not an authority
+		s.WriteString("//")
 	}
-	writeComponent(pathComponent, path)
+	writeComponent(pathComponent, escapePath(path, len(scheme) == 0 && !hasAuthority))
 	if len(query) > 0 {
 		s.WriteRune('?')
 		writeComponent(queryComponent, query)
@@ -184,6 +192,9 @@ func NewURIFromComponents(scheme string, username string, password string, host
 	if uri == nil {
 		// uri doesn't exists - build & register it
 		getComponent := func(c int) string {
+			if indexes[c][0] == indexes[c][1] {
+				return components[c]
+			}
 			return rawURI[indexes[c][0]:indexes[c][1]]
 		}
 		uri = &URI{
@@ -202,6 +213,33 @@ func NewURIFromComponents(scheme string, username string, password string, host
 	return uri
 }
 
+// escapePath returns how a path is written in an uri : the characters which would
+// end the path, or be read as something else, are escaped.
+func escapePath(path string, isReference bool) string {
+	const hex = "0123456789ABCDEF"
+	var s strings.Builder
+	// the first slashes of a reference would start an authority
+	isAuthority := isReference && strings.HasPrefix(path, "//") && !strings.HasPrefix(path, "///")
+	for i := 0; i < len(path); i++ {
+		c := path[i]
+		if isReference && c == '/' {
+			isReference = false
+		}
+		// a colon in the first segment of a reference would end a scheme
+		if c == '%' || c == '?' || c == '#' || c < ' ' || c == 0x7f || (isReference && c == ':') || (isAuthority && i == 1) {
+			s.WriteByte('%')
+			s.WriteByte(hex[c>>4])
+			s.WriteByte(hex[c&15])
+		} else {
+			s.WriteByte(c)
+		}
+	}
+	if s.Len() == len(path) {
+		return path
+	}
+	return s.String()
+}
+
 func NewURI(rawURI string) *URI {
 	uri, _ := ParseURI(rawURI)
 	return uri
@@ -211,24 +249,25 @@ func ParseURI(rawURI string) (*URI, error) {
 	cache := getURICache()
 	uri := cache.Get(rawURI)
 	if uri == nil {
-		if url, err := url.Parse(rawURI); err != nil {
+		// a fragment is kept as it is written : its segments are decoded when it is resolved
+		rawReference, fragment, _ := strings.Cut(rawURI, "#")
+		if url, err := url.Parse(rawReference); err != nil {
 			return nil, err
 		} else {
-			uri = &URI{scheme: url.Scheme, path: url.Path, query: url.RawQuery, rawURI: rawURI}
-			// a fragment is kept as it is written : its segments are decoded when it is resolved
-			_, uri.fragment, _ = strings.Cut(rawURI, "#")
+			uri = &URI{scheme: url.Scheme, path: url.Path, query: url.RawQuery, fragment: fragment, rawURI: rawURI}
 			if url.User != nil {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
 			}
-			if i := strings.IndexByte(url.Host, ':'); i >= 0 {
+			// the colons of an address between brackets are not the one of the port
+			if i := strings.LastIndexByte(url.Host, ':'); i > strings.LastIndexByte(url.Host, ']') {
 				uri.host = url.Host[0:i]
 				uri.port = url.Host[i+1:]
 			} else {
 				uri.host = url.Host
 			}
 			if len(url.Opaque) > 0 {
-				uri.path = url.Opaque
+				uri.path = unescapePath(url.Opaque)
 			}
 			cache.Set(rawURI, uri)
 		}
@@ -236,6 +275,13 @@ func ParseURI(rawURI string) (*URI, error) {
 	return uri, nil
 }
 
+func unescapePath(path string) string {
+	if unescaped, err := url.PathUnescape(path); err == nil {
+		return unescaped
+	}
+	return path
+}
+
 func (uri *URI) Scheme() string {
 	return uri.scheme
 }
@@ -283,21 +329,22 @@ func (uri *URI) IsEmpty() bool {
 }
 
 func (uri *URI) Authority() string {
-	if len(uri.host) == 0 {
+	if !uri.hasAuthority() {
 		return ""
 	}
-	hostIndex := strings.Index(uri.rawURI, uri.host)
-	var first int
-	if len(uri.username) > 0 {
-		first = strings.Index(uri.rawURI, uri.username)
-	} else {
-		first = hostIndex
-	}
-	last := hostIndex + len(uri.host)
-	if len(uri.port) > 0 {
-		last += len(uri.port) + 1
-	}
-	return uri.rawURI[first:last]
+	authority := NewURIFromComponents("", uri.username, uri.password, uri.host, uri.port, "", "", "")
+	return authority.rawURI[len("//"):]
+}
+
+func (uri *URI) hasAuthority() bool {
+	return len(uri.username) > 0 || len(uri.password) > 0 || len(uri.host) > 0 || len(uri.port) > 0
+}
+
+func (uri *URI) sameAuthority(other *URI) bool {
+	return uri.username == other.username &&
+		uri.password == other.password &&
+		uri.host == other.host &&
+		uri.port == other.port
 }
 
 func (uri *URI) String() string {
@@ -327,34 +374,30 @@ func (uri *URI) Normalize() *URI {
 }
 
 func (uri *URI) Resolve(ref *URI) *URI {
-	// check if opaque first
-	if ref.IsOpaque() || uri.IsOpaque() {
+	// ref is absolute or there is nothing to resolve against
+	if len(ref.scheme) != 0 || uri.IsEmpty() {
 		return ref
 	}
 
-	// Reference to current document (lone fragment)
-	refAuthority := ref.Authority()
-	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.fragment) != 0 && len(ref.query) == 0 {
-		if len(uri.fragment) == 0 && ref.fragment == uri.fragment {
-			return uri
-		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, ref.fragment)
+	// ref has an authority
+	if ref.hasAuthority() {
+		return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
 	}
 
-	// ref is absolute
-	if len(ref.scheme) != 0 {
-		return ref
+	// Reference to current document
+	if len(ref.path) == 0 {
+		query := ref.query
+		if len(query) == 0 {
+			query = uri.query
+		}
+		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, query, ref.fragment)
 	}
 
-	// no authority
-	if len(refAuthority) == 0 {
-		path := ref.path
-		if len(ref.path) == 0 || ref.path[0] != '/' {
-			path = resolvePath(uri.path, ref.path, uri.IsAbsolute())
-		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
+	path := ref.path
+	if path[0] != '/' {
+		path = resolvePath(uri.path, ref.path, uri.hasAuthority())
 	}
-	return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
+	return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
 }
 
 func (uri *URI) Relativize(ref *URI) *URI {
@@ -363,23 +406,42 @@ func (uri *URI) Relativize(ref *URI) *URI {
 		return ref
 	}
 
-	if uri.scheme != ref.scheme || uri.Authority() != ref.Authority() {
+	if uri.scheme != ref.scheme || !uri.sameAuthority(ref) {
 		return ref
 	}
 
-	bp := normalize(uri.path)
 	cp := normalize(ref.path)
-	if bp != cp {
-		if !strings.HasSuffix(bp, "/") {
-			i := strings.LastIndexByte(bp, '/')
-			bp = bp[0 : i+1]
-		}
+	if cp == normalize(uri.path) && (uri.query == ref.query || len(uri.query) == 0) {
+		// same document
+		return NewURIFromComponents("", "", "", "", "", "", ref.query, ref.fragment)
+	}
 
-		if !strings.HasPrefix(cp, bp) {
+	// the directory of the base
+	bp := normalize(uri.path[0 : strings.LastIndexByte(uri.path, '/')+1])
+	if !strings.HasPrefix(cp, bp) || len(bp) == 0 {
+		if len(uri.scheme) != 0 || strings.HasPrefix(bp, "/") || strings.HasPrefix(cp, "/") {
 			return ref
 		}
+		// two relative paths : go up from the directory of the base to a common one
+		bp, cp = strings.TrimPrefix(bp, "./"), strings.TrimPrefix(cp, "./")
+		if cp == ".." || strings.HasSuffix(cp, "/..") {
+			cp += "/"
+		}
+		for i := strings.IndexByte(bp, '/'); i >= 0 && strings.HasPrefix(cp, bp[0:i+1]); i = strings.IndexByte(bp, '/') {
+			cp = cp[i+1:]
+			bp = bp[i+1:]
+		}
+		if strings.HasPrefix(bp, "../") {
+			return ref
+		}
+		cp = strings.Repeat("../", strings.Count(bp, "/")) + cp
+	} else {
+		cp = cp[len(bp):]
 	}
-	return NewURIFromComponents("", "", "", "", "", cp[len(bp):], ref.query, ref.fragment)
+	if len(cp) == 0 {
+		cp = "./"
+	}
+	return NewURIFromComponents("", "", "", "", "", cp, ref.query, ref.fragment)
 }
 
 func (uri *URI) TrimFragment() *URI {
@@ -409,15 +471,11 @@ func (uri *URI) TrimQuery() *URI {
 }
 
 func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
-	if uri.scheme != oldPrefix.scheme ||
-		uri.username != oldPrefix.username ||
-		uri.password != oldPrefix.password ||
-		uri.host != oldPrefix.host ||
-		uri.port != oldPrefix.port {
+	if uri.scheme != oldPrefix.scheme || !uri.sameAuthority(oldPrefix) {
 		return nil
 	}
 	if oldLen := len(oldPrefix.path); len(uri.path) >= oldLen && uri.path[0:oldLen] == oldPrefix.path {
-		return NewURIFromComponents(newPrefix.scheme, uri.username, uri.password, uri.host, uri.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
+		return NewURIFromComponents(newPrefix.scheme, newPrefix.username, newPrefix.password, newPrefix.host, newPrefix.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
 	}
 	return nil
 
@@ -428,10 +486,7 @@ func (uri *URI) Equals(other *URI) bool {
 		uri.rawURI == other.rawURI ||
 		// the same address may be written in several ways ( file:/path and file:///path )
 		(uri.scheme == other.scheme &&
-			uri.username == other.username &&
-			uri.password == other.password &&
-			uri.host == other.host &&
-			uri.port == other.port &&
+			uri.sameAuthority(other) &&
 			uri.path == other.path &&
 			uri.query == other.query &&
 			uri.fragment == other.fragment))
@@ -736,7 +791,10 @@ func join(path []rune, segs []int) int {
 	return p
 }
 
-func resolvePath(base string, child string, _ bool) string {
+func resolvePath(base string, child string, hasAuthority bool) string {
+	if len(base) == 0 && hasAuthority {
+		base = "/"
+	}
 	i := strings.LastIndexByte(base, '/')
 	cn := len(child)
 	var path string
-- 
2.43.0


From e39322c1027e6e6ea9d691a88e072d76607b9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 20/47] fix: entries moved to another map leave the former one,
 setting or unsetting a map feature updates the entries, ToMap returns a copy

---
 ecore/abstracteobject.go  | 10 +++++++---
 ecore/basicemap.go        |  7 +++++--
 ecore/basiceobjectmap.go  | 30 ++++++++++++++++++++++++++++++
 ecore/eannotation_impl.go |  3 +++
 ecore/immutableemap.go    |  4 +++-
 5 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 5fd752e..900dbfa 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -456,7 +456,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		} else if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, newValue, newValue, NO_INDEX))
 		}
-	} else if newList, isList := newValue.(EList); isList && dynamicFeature.IsMany() && !IsMapType(dynamicFeature) {
+	} else if newList, isList := newValue.(EList); isList && dynamicFeature.IsMany() {
 		// replace the content of the current list
 		list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
 		if list != newList {
@@ -604,7 +604,7 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if list, isList := oldValue.(EList); isList && !IsMapType(dynamicFeature) {
+		if list, isList := oldValue.(EList); isList {
 			// clear the content of the current list
 			list.Clear()
 		} else if oldValue != nil {
@@ -717,7 +717,11 @@ func (o *AbstractEObject) eDynamicPropertiesInverseAdd(properties EDynamicProper
 	if dynamicFeature.IsMany() {
 		value := properties.EDynamicGet(dynamicFeatureID)
 		if value == nil {
-			value = o.eDynamicPropertiesCreateList(dynamicFeature, dynamicFeatureID)
+			if IsMapType(dynamicFeature) {
+				value = o.eDynamicPropertiesCreateMap(dynamicFeature, dynamicFeatureID)
+			} else {
+				value = o.eDynamicPropertiesCreateList(dynamicFeature, dynamicFeatureID)
+			}
 			properties.EDynamicSet(dynamicFeatureID, value)
 		}
 		if list, _ := value.(ENotifyingList); list != nil {
diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index d7b2697..9c2a7fb 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -9,7 +9,10 @@
 
 package ecore
 
-import "sync"
+import (
+	"maps"
+	"sync"
+)
 
 type BasicEMap struct {
 	EList
@@ -153,7 +156,7 @@ func (m *BasicEMap) ToMap() map[any]any {
 	m.mapMutex.Lock()
 	defer m.mapMutex.Unlock()
 	m.initDataMap()
-	return m.mapData
+	return maps.Clone(m.mapData)
 }
 
 func (m *BasicEMap) initDataMap() {
diff --git a/ecore/basiceobjectmap.go b/ecore/basiceobjectmap.go
index 1528290..0f1dd19 100644
--- a/ecore/basiceobjectmap.go
+++ b/ecore/basiceobjectmap.go
@@ -65,6 +65,36 @@ func NewBasicEObjectMap(entryClass EClass, owner EObjectInternal, featureID int,
 	return basicEObjectMap
 }
 
+// asENotifyingList returns the list holding the entries : being a contained list,
+// it is the one to tell when an entry leaves or enters the map by its container
+func (m *BasicEObjectMap) asENotifyingList() ENotifyingList {
+	return m.EList.(ENotifyingList)
+}
+
+func (m *BasicEObjectMap) GetNotifier() ENotifier {
+	return m.asENotifyingList().GetNotifier()
+}
+
+func (m *BasicEObjectMap) GetFeature() EStructuralFeature {
+	return m.asENotifyingList().GetFeature()
+}
+
+func (m *BasicEObjectMap) GetFeatureID() int {
+	return m.asENotifyingList().GetFeatureID()
+}
+
+func (m *BasicEObjectMap) AddWithNotification(object any, notifications ENotificationChain) ENotificationChain {
+	return m.asENotifyingList().AddWithNotification(object, notifications)
+}
+
+func (m *BasicEObjectMap) RemoveWithNotification(object any, notifications ENotificationChain) ENotificationChain {
+	return m.asENotifyingList().RemoveWithNotification(object, notifications)
+}
+
+func (m *BasicEObjectMap) SetWithNotification(index int, object any, notifications ENotificationChain) ENotificationChain {
+	return m.asENotifyingList().SetWithNotification(index, object, notifications)
+}
+
 func (m *BasicEObjectMap) newEntry(key any, value any) EMapEntry {
 	eFactory := m.entryClass.GetEPackage().GetEFactoryInstance()
 	eEntry := eFactory.Create(m.entryClass).(EMapEntry)
diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index bd29dbb..beb444f 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -246,6 +246,9 @@ func (e *EAnnotationImpl) EBasicInverseRemove(otherEnd EObject, featureID int, n
 		list := e.GetContents().(ENotifyingList)
 		return list.RemoveWithNotification(otherEnd, notifications)
 	case EANNOTATION__DETAILS:
+		if list, _ := e.GetDetails().(ENotifyingList); list != nil {
+			return list.RemoveWithNotification(otherEnd, notifications)
+		}
 		return notifications
 	case EANNOTATION__EMODEL_ELEMENT:
 		return e.asBasics().basicSetEModelElement(nil, notifications)
diff --git a/ecore/immutableemap.go b/ecore/immutableemap.go
index c4f58e2..810f031 100644
--- a/ecore/immutableemap.go
+++ b/ecore/immutableemap.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "maps"
+
 type immutableEMap struct {
 	immutableEList
 	data map[any]any
@@ -46,5 +48,5 @@ func (m *immutableEMap) ContainsKey(key any) bool {
 }
 
 func (m *immutableEMap) ToMap() map[any]any {
-	return m.data
+	return maps.Clone(m.data)
 }
-- 
2.43.0


From 2ad85cb30d16bd87171cabd97ca9223be60322e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 21/47] fix: a list of a dynamic object created by a read does
 not make the feature set

---
 ecore/abstracteobject.go        | 9 +++++++++
 ecore/dynamiceobject_impl.go    | 2 +-
 ecore/estoreeobject_impl.go     | 2 +-
 ecore/reflectiveeobject_impl.go | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 900dbfa..1a14adf 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -560,6 +560,15 @@ func (o *AbstractEObject) eDynamicPropertiesIsSet(properties EDynamicProperties,
 	}
 }
 
+// isSetValue returns true if the value is one of a feature that is set : a list
+// may have been created by a read and is set when it is not empty
+func isSetValue(value any) bool {
+	if list, isList := value.(EList); isList {
+		return !list.Empty()
+	}
+	return value != nil
+}
+
 // EUnset ...
 func (o *AbstractEObject) EUnset(feature EStructuralFeature) {
 	featureID := o.AsEObjectInternal().EFeatureID(feature)
diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index bbae8dd..f6d1b10 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -70,7 +70,7 @@ func (o *DynamicEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *DynamicEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.properties[dynamicFeatureID] != nil
+	return isSetValue(o.properties[dynamicFeatureID])
 }
 
 func (o *DynamicEObjectImpl) EFeatureID(feature EStructuralFeature) int {
diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..8e97a72 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -181,7 +181,7 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	defer o.mutex.Unlock()
 
 	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return true
+		return isSetValue(o.properties[dynamicFeatureID])
 	}
 	if store := o.AsEStoreEObject().GetEStore(); store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 6e0a256..995e4cb 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -57,7 +57,7 @@ func (o *ReflectiveEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.getProperties()[dynamicFeatureID] != nil
+	return isSetValue(o.getProperties()[dynamicFeatureID])
 }
 
 func (o *ReflectiveEObjectImpl) getProperties() []any {
-- 
2.43.0


From 8dc43a68391588492450e2bf8298edff0f1d24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 22/47] fix: deep copy and equality cover inherited references
 and features, in a fixed order; the container is not compared

---
 ecore/deepcopy.go  | 7 +++++--
 ecore/deepequal.go | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..2cf9b4b 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -11,6 +11,7 @@ package ecore
 
 type deepCopy struct {
 	objects            map[EObject]EObject
+	order              []EObject // the copied objects, in the order they are met
 	resolve            bool
 	originalReferences bool
 }
@@ -28,6 +29,7 @@ func (dC *deepCopy) copy(eObject EObject) EObject {
 		copyEObject := dC.createCopy(eObject)
 		if copyEObject != nil {
 			dC.objects[eObject] = copyEObject
+			dC.order = append(dC.order, eObject)
 			eClass := eObject.EClass()
 			for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
 				eFeature := it.Next().(EStructuralFeature)
@@ -89,8 +91,9 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 }
 
 func (dC *deepCopy) copyReferences() {
-	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+	for _, eObject := range dC.order {
+		copyEObject := dC.objects[eObject]
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..5499bc7 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,8 +84,9 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
-		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		// the container is not a part of the object
+		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !IsContainer(eFeature) && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
 			return false
-- 
2.43.0


From 2a9b0615e603ead4b10b838792328998a156d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 23/47] fix: uri mappings apply by longest prefix, resource set
 lookups are not answered by removed or readdressed resources, resources
 without uri do not break them

---
 ecore/eresourceset_impl.go  | 34 +++++++++++++++++++---------------
 ecore/euriconverter_impl.go | 15 +++++++++++++--
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/ecore/eresourceset_impl.go b/ecore/eresourceset_impl.go
index c4de8bc..6ecd6bf 100644
--- a/ecore/eresourceset_impl.go
+++ b/ecore/eresourceset_impl.go
@@ -67,32 +67,31 @@ func (r *EResourceSetImpl) GetResources() EList {
 }
 
 func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
-	if r.uriResourceMap != nil {
-		resource := r.uriResourceMap[uri]
-		if resource != nil {
-			if loadOnDemand && !resource.IsLoaded() {
-				resource.Load()
-			}
-			return resource
-		}
-	}
-
 	ePackage := r.GetPackageRegistry().GetPackage(uri.String())
 	if ePackage != nil {
 		resource := ePackage.EResource()
 		if resource != nil {
-			if r.uriResourceMap != nil {
-				r.uriResourceMap[uri] = resource
-			}
 			return resource
 		}
 	}
 
 	normalizedURI := r.GetURIConverter().Normalize(uri)
+	if r.uriResourceMap != nil {
+		if resource := r.uriResourceMap[uri]; resource != nil {
+			// the resource may have left the resource set or may have another address by now
+			if resource.GetResourceSet() == r.AsEResourceSet() && r.hasNormalizedURI(resource, normalizedURI) {
+				if loadOnDemand && !resource.IsLoaded() {
+					resource.Load()
+				}
+				return resource
+			}
+			delete(r.uriResourceMap, uri)
+		}
+	}
+
 	for it := r.resources.Iterator(); it.HasNext(); {
 		resource := it.Next().(EResource)
-		resourceURI := r.GetURIConverter().Normalize(resource.GetURI())
-		if resourceURI.Equals(normalizedURI) {
+		if r.hasNormalizedURI(resource, normalizedURI) {
 			if loadOnDemand && !resource.IsLoaded() {
 				resource.Load()
 			}
@@ -117,6 +116,11 @@ func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
 	return nil
 }
 
+func (r *EResourceSetImpl) hasNormalizedURI(resource EResource, normalizedURI *URI) bool {
+	uri := resource.GetURI()
+	return uri != nil && r.GetURIConverter().Normalize(uri).Equals(normalizedURI)
+}
+
 func (r *EResourceSetImpl) CreateResource(uri *URI) EResource {
 	resource := NewEResourceImpl()
 	resource.SetURI(uri)
diff --git a/ecore/euriconverter_impl.go b/ecore/euriconverter_impl.go
index 454ab92..7771ddf 100644
--- a/ecore/euriconverter_impl.go
+++ b/ecore/euriconverter_impl.go
@@ -40,6 +40,9 @@ func (r *EURIConverterImpl) GetURIMap() map[URI]URI {
 }
 
 func (r *EURIConverterImpl) Normalize(uri *URI) *URI {
+	if uri == nil {
+		return nil
+	}
 	normalized := r.getURIFromMap(uri)
 	if uri.Equals(normalized) {
 		return normalized
@@ -48,12 +51,20 @@ func (r *EURIConverterImpl) Normalize(uri *URI) *URI {
 }
 
 func (r *EURIConverterImpl) getURIFromMap(uri *URI) *URI {
+	// the mapping of the longest prefix applies, whatever the order of the map
+	result := uri
+	var resultPrefix *URI
 	for oldPrefix, newPrefix := range r.uriMap {
+		if resultPrefix != nil && (len(oldPrefix.path) < len(resultPrefix.path) ||
+			(len(oldPrefix.path) == len(resultPrefix.path) && oldPrefix.rawURI > resultPrefix.rawURI)) {
+			continue
+		}
 		if r := uri.ReplacePrefix(&oldPrefix, &newPrefix); r != nil {
-			return r
+			result = r
+			resultPrefix = &oldPrefix
 		}
 	}
-	return uri
+	return result
 }
 
 func (r *EURIConverterImpl) GetURIHandler(uri *URI) EURIHandler {
-- 
2.43.0


From 7ebbe72cca03db4c4f45adbcd020644681f413ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 24/47] fix: lists of dynamic objects resolve proxies when
 their reference does

---
 ecore/abstracteobject.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 1a14adf..c5d31ef 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -394,7 +394,11 @@ func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeatur
 				opposite = false
 			}
 		}
-		list := NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, ref.EIsProxy(), ref.IsUnsettable())
+		proxies := ref.EIsProxy()
+		if _, isBasics := ref.(eReferenceBasics); isBasics {
+			proxies = ref.IsResolveProxies()
+		}
+		list := NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, proxies, ref.IsUnsettable())
 		// with several super types, the features have other numbers in the classes of both ends
 		list.featureID = dynamicFeatureID + o.AsEObjectInternal().EStaticFeatureCount()
 		list.inverseFeature = reverseFeature
-- 
2.43.0


From e8a0539ddab60c67d9b2bef64b97e57fde31a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 25/47] fix: XML documents are saved with all their values

- no endless loop when three packages share a prefix
- several roots are reported instead of being cut to the first one
- content of many-valued attributes and reference attributes are escaped
- xsi namespace is declared for xsi:nil
- xsi:type is written when the class of the value isn't the type of the reference
- id references with nil values and dangling references
---
 ecore/xmlencoder.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..a1d8bdf 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -116,6 +116,10 @@ func (s *XMLEncoder) EncodeResource() {
 	if contents.Empty() {
 		return
 	}
+	if contents.Size() > 1 {
+		// a document has a single root element
+		s.error(NewEDiagnosticImpl(fmt.Sprintf("Only the first of the %d root objects is saved", contents.Size()), s.resource.GetURI().String(), 0, 0))
+	}
 	s.encodeTopObject(contents.Get(0).(EObject))
 }
 
@@ -385,7 +389,7 @@ func (s *XMLEncoder) saveDataTypeMany(eObject EObject, eFeature EStructuralFeatu
 			s.prefixesToURI[xsiNS] = xsiURI
 		} else {
 			str := f.ConvertToString(d, value)
-			s.str.addContent(name, str)
+			s.str.addContent(name, html.EscapeString(str))
 		}
 	}
 }
@@ -434,6 +438,8 @@ func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeatur
 
 func (s *XMLEncoder) saveNil(_ EObject, eFeature EStructuralFeature) {
 	s.str.addNil(s.getFeatureQName(eFeature))
+	s.uriToPrefixes[xsiURI] = []string{xsiNS}
+	s.prefixesToURI[xsiNS] = xsiURI
 }
 
 func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFeature) {
@@ -465,7 +471,7 @@ func (s *XMLEncoder) saveEObject(o EObject, f EStructuralFeature) {
 	s.str.startElement(s.getFeatureQName(f))
 	eClass := o.EClass()
 	eType := f.GetEType()
-	if eType != eClass && eType != GetPackage().GetEObject() {
+	if eType != eClass {
 		s.saveTypeAttribute(eClass)
 	}
 	s.saveElementID(o)
@@ -504,7 +510,7 @@ func (s *XMLEncoder) saveHRef(eObject EObject, eFeature EStructuralFeature) {
 		if eType != eClass && eType != nil && eType.IsAbstract() {
 			s.saveTypeAttribute(eClass)
 		}
-		s.str.addAttribute("href", href)
+		s.str.addAttribute("href", html.EscapeString(href))
 		s.str.endEmptyElement()
 	}
 }
@@ -514,7 +520,7 @@ func (s *XMLEncoder) saveIDRefSingle(eObject EObject, eFeature EStructuralFeatur
 	if value != nil {
 		id := s.getIDRef(value)
 		if id != "" {
-			s.str.addAttribute(s.getFeatureQName(eFeature), id)
+			s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(id))
 		}
 	}
 }
@@ -523,27 +529,22 @@ func (s *XMLEncoder) saveIDRefMany(eObject EObject, eFeature EStructuralFeature)
 	l := eObject.EGetResolve(eFeature, false).(EList)
 	failure := false
 	var buffer strings.Builder
-	for it := l.Iterator(); ; {
+	for it := l.Iterator(); it.HasNext(); {
 		value, _ := it.Next().(EObject)
 		if value != nil {
 			id := s.getIDRef(value)
 			if id == "" {
 				failure = true
-				if !it.HasNext() {
-					break
-				}
 			} else {
-				buffer.WriteString(id)
-				if it.HasNext() {
+				if buffer.Len() > 0 {
 					buffer.WriteString(" ")
-				} else {
-					break
 				}
+				buffer.WriteString(id)
 			}
 		}
 	}
 	if !failure && buffer.Len() > 0 {
-		s.str.addAttribute(s.getFeatureQName(eFeature), buffer.String())
+		s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(buffer.String()))
 	}
 }
 
@@ -719,7 +720,10 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
 				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+				for {
+					if _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; !exists {
+						break
+					}
 					index++
 				}
 				nsPrefix += "_" + fmt.Sprintf("%d", index)
@@ -795,6 +799,9 @@ func (s *XMLEncoder) getResourceHRef(resource EResource, object EObject) *URI {
 func (s *XMLEncoder) getIDRef(eObject EObject) string {
 	if s.resource == nil {
 		return ""
+	} else if eObject.EResource() == nil && (s.resource.GetObjectIDManager() == nil || s.resource.GetObjectIDManager().GetID(eObject) == nil) {
+		s.handleDanglingHREF(eObject)
+		return ""
 	} else {
 		return "#" + s.resource.GetURIFragment(eObject)
 	}
-- 
2.43.0


From f3b1f9a1d6022ff8013df58625052ac4260b5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 26/47] fix: XML documents are loaded as they were saved

- no endless loop when a prefix is declared three times
- deferred root is attached like other roots
- xsi:nil values of features
- references in attributes are separated by any white space and always recorded
- values of lists keep their position, loading doesn't resolve proxies
- a document with a header but no root element is reported
---
 ecore/xmldecoder.go | 101 +++++++++++++++++++++++---------------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..afb9bf6 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -21,6 +21,7 @@ import (
 const (
 	href                            = "href"
 	typeAttrib                      = "type"
+	nilAttrib                       = "nil"
 	schemaLocationAttrib            = "schemaLocation"
 	noNamespaceSchemaLocationAttrib = "noNamespaceSchemaLocation"
 	xsiURI                          = "http://www.w3.org/2001/XMLSchema-instance"
@@ -34,7 +35,6 @@ const (
 	xlfkSingle xmlLoadFeatureKind = iota
 	xlfkMany
 	xlfkManyAdd
-	xlfkManyMove
 	xlfkOther
 )
 
@@ -142,16 +142,21 @@ func (l *XMLDecoder) DecodeObject() (eObject EObject, err error) {
 }
 
 func (l *XMLDecoder) decodeTopObject() {
+	hasElement := false
 	for {
 		t, tokenErr := l.decoder.Token()
 		if tokenErr != nil {
 			if tokenErr != io.EOF {
 				l.error(NewEDiagnosticImpl(tokenErr.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			} else if !hasElement && l.decoder.InputOffset() > 0 {
+				// the document of an empty resource is empty
+				l.error(NewEDiagnosticImpl("Unexpected end of document: no root element", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
 			}
 			break
 		}
 		switch t := t.(type) {
 		case xml.StartElement:
+			hasElement = true
 			l.startElement(t)
 		case xml.EndElement:
 			l.endElement(t)
@@ -215,7 +220,7 @@ func (l *XMLDecoder) endElement(_ xml.EndElement) {
 	// end of the document
 	if len(l.elements) == 0 {
 		for _, deferred := range l.deferred {
-			l.resource.GetContents().Add(deferred)
+			l.attachFn(deferred)
 		}
 		l.handleReferences()
 		l.recordSchemaLocations(eRoot)
@@ -283,7 +288,10 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
 		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+		for {
+			if _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; !exists {
+				break
+			}
 			index++
 		}
 		prefix += "_" + fmt.Sprintf("%d", index)
@@ -422,7 +430,11 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 	if eObject != nil {
 		eFeature := l.getFeature(eObject, space, local)
 		if eFeature != nil {
-			if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
+			if nilValue := l.getAttributeValue(xsiURI, nilAttrib); nilValue == "true" || nilValue == "1" {
+				l.setFeatureValue(eObject, eFeature, nil, -1)
+				l.types = append(l.types, eFeature)
+				l.objects = append(l.objects, nil)
+			} else if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
 				l.textBuilder = &strings.Builder{}
 				l.types = append(l.types, eFeature)
 				l.objects = append(l.objects, nil)
@@ -472,30 +484,32 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 			eList.Add(eFactory.CreateFromString(eDataType, value.(string)))
 		}
 	case xlfkManyAdd:
-		fallthrough
-	case xlfkManyMove:
-		eList := eObject.EGetResolve(eFeature, false).(EList)
+		eList := getUnResolvedList(eObject, eFeature)
 		if position == -1 {
 			eList.Add(value)
 		} else if position == -2 {
 			eList.Clear()
-		} else if eObject == value {
-			index := eList.IndexOf(value)
-			if index == -1 {
-				eList.Insert(position, value)
-			} else {
-				eList.Move(position, index)
-			}
-		} else if kind == xlfkManyAdd {
-			eList.Add(value)
+		} else if index := eList.IndexOf(value); index == -1 {
+			// all the values before are in the list unless they are unresolved
+			eList.Insert(min(position, eList.Size()), value)
 		} else {
-			eList.MoveObject(position, value)
+			eList.Move(index, min(position, eList.Size()-1))
 		}
 	default:
 		eObject.ESet(eFeature, value)
 	}
 }
 
+// getUnResolvedList returns the values of a feature as they are stored: loading a document
+// must not resolve the proxies to other documents it refers to
+func getUnResolvedList(eObject EObject, eFeature EStructuralFeature) EList {
+	eList := eObject.EGetResolve(eFeature, false).(EList)
+	if eObjectList, _ := eList.(EObjectList); eObjectList != nil {
+		return eObjectList.GetUnResolvedList()
+	}
+	return eList
+}
+
 func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeatureKind {
 	eClassifier := eFeature.GetEType()
 	if eDataType, _ := eClassifier.(EDataType); eDataType != nil {
@@ -504,12 +518,7 @@ func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeat
 		}
 		return xlfkSingle
 	} else if eFeature.IsMany() {
-		eReference := eFeature.(EReference)
-		eOpposite := eReference.GetEOpposite()
-		if eOpposite == nil || eOpposite.IsTransient() || !eOpposite.IsMany() {
-			return xlfkManyAdd
-		}
-		return xlfkManyMove
+		return xlfkManyAdd
 	}
 	return xlfkOther
 }
@@ -581,12 +590,11 @@ func (l *XMLDecoder) setAttributeValue(eObject EObject, qname string, value stri
 }
 
 func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids string) {
-	mustAdd := l.isResolveDeferred
 	mustAddOrNotOppositeIsMany := false
 	isFirstID := true
 	position := 0
 	references := []xmlReference{}
-	tokens := strings.Split(ids, " ")
+	tokens := strings.Fields(ids)
 	qName := ""
 	for _, token := range tokens {
 		id := token
@@ -619,10 +627,8 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			if isFirstID {
 				eOpposite := eReference.GetEOpposite()
 				if eOpposite != nil {
-					mustAdd = eOpposite.IsTransient() || eReference.IsMany()
-					mustAddOrNotOppositeIsMany = mustAdd || !eOpposite.IsMany()
+					mustAddOrNotOppositeIsMany = eOpposite.IsTransient() || eReference.IsMany() || !eOpposite.IsMany()
 				} else {
-					mustAdd = true
 					mustAddOrNotOppositeIsMany = true
 				}
 				isFirstID = false
@@ -632,6 +638,10 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 				resolved := l.resource.GetEObject(id)
 				if resolved != nil {
 					l.setFeatureValue(eObject, eReference, resolved, -1)
+					if eReference.IsMany() {
+						// its position is known when all the references are resolved
+						references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: position})
+					}
 					qName = ""
 					position++
 					continue
@@ -639,10 +649,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			}
 		}
 
-		if mustAdd {
-			references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: position})
-		}
-
+		references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: position})
 		qName = ""
 		position++
 	}
@@ -683,25 +690,26 @@ func (l *XMLDecoder) handleReferences() {
 				if resolvedObject != nil {
 					var proxyHolder EObject
 					if eReference.IsMany() {
-						value := eProxy.EGet(eReference)
-						list := value.(EList)
-						proxyHolder = list.Get(0).(EObject)
+						proxyHolder = getUnResolvedList(eProxy, eReference).Get(0).(EObject)
 					} else {
-						value := eProxy.EGet(eReference)
+						value := eProxy.EGetResolve(eReference, false)
 						proxyHolder = value.(EObject)
 					}
 
 					if eOpposite.IsMany() {
-						value := proxyHolder.EGetResolve(eOpposite, false)
-						holderContents := value.(EList)
+						holderContents := getUnResolvedList(proxyHolder, eOpposite)
 						resolvedIndex := holderContents.IndexOf(resolvedObject)
 						if resolvedIndex != -1 {
 							proxyIndex := holderContents.IndexOf(eProxy)
-							holderContents.Move(proxyIndex, resolvedIndex)
+							if proxyIndex == -1 {
+								// already replaced by the resolved object
+								break
+							}
+							holderContents.Move(resolvedIndex, proxyIndex)
 							if proxyIndex > resolvedIndex {
-								holderContents.Remove(proxyIndex - 1)
+								holderContents.RemoveAt(proxyIndex - 1)
 							} else {
-								holderContents.Remove(proxyIndex + 1)
+								holderContents.RemoveAt(proxyIndex + 1)
 							}
 							break
 						}
@@ -709,19 +717,16 @@ func (l *XMLDecoder) handleReferences() {
 
 					replace := false
 					if eReference.IsMany() {
-						value := resolvedObject.EGet(eReference)
-						list := value.(EList)
-						replace = !list.Contains(proxyHolder)
+						replace = !getUnResolvedList(resolvedObject, eReference).Contains(proxyHolder)
 					} else {
-						value := resolvedObject.EGet(eReference)
-						object := value.(EObject)
+						value := resolvedObject.EGetResolve(eReference, false)
+						object, _ := value.(EObject)
 						replace = object != proxyHolder
 					}
 
 					if replace {
 						if eOpposite.IsMany() {
-							value := proxyHolder.EGetResolve(eOpposite, false)
-							list := value.(EList)
+							list := getUnResolvedList(proxyHolder, eOpposite)
 							ndx := list.IndexOf(eProxy)
 							list.Set(ndx, resolvedObject)
 						} else {
-- 
2.43.0


From 85e05ed3020da7cb52af2df5d6bb5e7d341d04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 27/47] fix: dates are converted with their instant, whatever
 their location

---
 ecore/ecorefactory_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/ecorefactory_impl.go b/ecore/ecorefactory_impl.go
index 4edba4b..6740f84 100644
--- a/ecore/ecorefactory_impl.go
+++ b/ecore/ecorefactory_impl.go
@@ -544,7 +544,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataT
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) convertEDateToString(eDataType EDataType, instanceValue any) string {
 	t, _ := instanceValue.(*time.Time)
-	return t.Format(dateFormat)
+	return t.UTC().Format(dateFormat)
 }
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDoubleFromString(eDataType EDataType, literalValue string) any {
-- 
2.43.0


From ef459ea477a82e89cd3fc0f0c7d36a5ea234a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 28/47] fix: binary documents keep nil references, list order
 and contained roots

---
 ecore/binarydecoder.go | 63 +++++++++++++++---------------------------
 ecore/binaryencoder.go | 11 ++++----
 2 files changed, 28 insertions(+), 46 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 91b9b96..ff3e228 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -284,6 +284,9 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 	if err != nil {
 		return err
 	}
+	if size < 0 {
+		return fmt.Errorf("invalid number of objects '%v'", size)
+	}
 	objects := make([]any, size)
 	for i := 0; i < size; i++ {
 		object, err := d.decodeObject()
@@ -293,48 +296,27 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 		objects[i] = object
 	}
 
-	// If the list is empty, we need to add all the objects,
-	// otherwise, the reference is bidirectional and the list is at least partially populated.
-	existingSize := list.Size()
-	if existingSize == 0 {
-		list.AddAll(NewImmutableEList(objects))
-	} else {
-		indices := make([]int, existingSize)
-		duplicateCount := 0
-		existingObjects := make([]any, existingSize)
-		copy(existingObjects, list.ToArray())
-	LOOP:
-		for i := 0; i < size; i++ {
-			o := objects[i]
-			count := duplicateCount
-			for j := 0; j < existingSize; j++ {
-				existing := existingObjects[j]
-				if existing == o {
-					if duplicateCount != count {
-						list.Move(count, duplicateCount)
-					}
-					indices[duplicateCount] = i
-					duplicateCount++
-					existingObjects[j] = nil
-					continue LOOP
-				} else if existing != nil {
-					count++
-				}
-			}
-			objects[i-duplicateCount] = o
-		}
+	setListValues(list, objects)
+	return nil
+}
 
-		size -= existingSize
-		list.AddAll(NewImmutableEList(objects))
-		for i := 0; i < existingSize; i++ {
-			newPosition := indices[i]
-			oldPosition := size + i
-			if newPosition != oldPosition {
-				list.Move(oldPosition, newPosition)
-			}
+// If the list is empty, we need to add all the values,
+// otherwise, the reference is bidirectional and the list is at least partially populated.
+func setListValues(list EList, values []any) {
+	if list.Size() == 0 {
+		list.AddAll(NewImmutableEList(values))
+		return
+	}
+	for i, value := range values {
+		if i < list.Size() && list.Get(i) == value {
+			continue
+		}
+		if index := list.IndexOf(value); index == -1 {
+			list.Insert(min(i, list.Size()), value)
+		} else {
+			list.Move(index, min(i, list.Size()-1))
 		}
 	}
-	return nil
 }
 
 func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData *binaryDecoderFeatureData) error {
@@ -362,8 +344,7 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 	case bfkObjectContainmentList:
 		fallthrough
 	case bfkObjectContainmentListProxy:
-		l := eObject.EGetFromID(featureData.featureID, false).(EList)
-		return d.decodeObjects(l)
+		return d.decodeObjects(getUnResolvedList(eObject, featureData.eFeature))
 	case bfkData:
 		decoded, err := d.decodeString()
 		if err != nil {
diff --git a/ecore/binaryencoder.go b/ecore/binaryencoder.go
index 902e6d2..72a5f5c 100644
--- a/ecore/binaryencoder.go
+++ b/ecore/binaryencoder.go
@@ -230,7 +230,7 @@ func (e *BinaryEncoder) encodeObject(eObject EObject, check checkType) error {
 					return err
 				}
 				saveFeatureValues = false
-			} else if eResource := eObjectInternal.EInternalResource(); eResource != nil {
+			} else if eResource := eObjectInternal.EInternalResource(); eResource != nil && (eResource != e.resource || e.objectRoot != nil) {
 				if err := e.encodeInt(-2); err != nil {
 					return err
 				}
@@ -306,17 +306,18 @@ func (e *BinaryEncoder) encodeFeatureValue(eObject EObjectInternal, featureID in
 			featureData.name = ""
 		}
 		value := eObject.EGetFromID(featureID, false)
+		object, _ := value.(EObject)
 		switch featureData.featureKind {
 		case bfkObject:
 			fallthrough
 		case bfkObjectContainment:
-			return e.encodeObject(value.(EObject), checkNothing)
+			return e.encodeObject(object, checkNothing)
 		case bfkObjectContainerProxy:
-			return e.encodeObject(value.(EObject), checkResource)
+			return e.encodeObject(object, checkResource)
 		case bfkObjectContainmentProxy:
-			return e.encodeObject(value.(EObject), checkDirectResource)
+			return e.encodeObject(object, checkDirectResource)
 		case bfkObjectProxy:
-			return e.encodeObject(value.(EObject), checkResource)
+			return e.encodeObject(object, checkResource)
 		case bfkObjectList:
 			fallthrough
 		case bfkObjectContainmentList:
-- 
2.43.0


From 6faf5d19f47f382716ffca693e2c8c349ab12919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 29/47] fix: databases are saved with all roots, precise dates
 and object ids

---
 ecore/sqlencoder.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 5634fdf..bcf09d6 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -323,7 +323,11 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 		// object id is serialized only if we have an id manager and
 		// a corresponding column in objects table
 		if e.isObjectID {
-			args = append(args, fmt.Sprintf("%v", e.objectIDManager.GetID(eObject)))
+			if objectID := e.objectIDManager.GetID(eObject); objectID != nil {
+				args = append(args, fmt.Sprintf("%v", objectID))
+			} else {
+				args = append(args, nil)
+			}
 		}
 
 		// query
@@ -422,6 +426,11 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 		switch featureData.schema.featureKind {
 		case sfkObject, sfkObjectList:
 			eObject := value.(EObject)
+			if eReference, _ := featureData.schema.feature.(EReference); eReference != nil && eReference.IsContainment() {
+				if eInternal, _ := eObject.(EObjectInternal); eInternal != nil && (eInternal.EIsProxy() || eInternal.EInternalResource() != nil) {
+					return nil, fmt.Errorf("feature '%s': an object contained in another resource can't be encoded", eReference.GetName())
+				}
+			}
 			return e.encodeObject(eObject, containerID, featureData.featureID)
 		case sfkObjectReference, sfkObjectReferenceList:
 			eObject := value.(EObject)
@@ -445,7 +454,7 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 			return value, nil
 		case sfkDate:
 			t := value.(*time.Time)
-			return t.Format(time.RFC3339), nil
+			return t.Format(time.RFC3339Nano), nil
 		case sfkData, sfkDataList:
 			return featureData.factory.ConvertToString(featureData.dataType, value), nil
 		}
@@ -893,9 +902,8 @@ func (e *SQLEncoder) EncodeResource() {
 	}
 
 	// encode contents into db
-	if contents := e.resource.GetContents(); !contents.Empty() {
-		object := contents.Get(0).(EObject)
-		if err := e.encodeContent(object); err != nil {
+	for content := range e.resource.GetContents().All() {
+		if err := e.encodeContent(content.(EObject)); err != nil {
 			e.addError(err)
 			return
 		}
-- 
2.43.0


From ed84cdf034437a56d44e9ec4844a6f636ac4c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 30/47] fix: databases are loaded as they were saved

- unset features, order of lists, object id column, in-document references
- short files and bad schemas are reported, abstract proxies don't panic
- objects are modified by one goroutine at a time
---
 ecore/sqldecoder.go | 137 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 113 insertions(+), 24 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 5f8a7d2..a577b8f 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -7,7 +7,9 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/chebyrash/promise"
@@ -134,6 +136,25 @@ type sqlDecoder struct {
 	packageRegistry  EPackageRegistry
 	sqlIDManager     SQLDecoderIDManager
 	sqlObjectManager sqlObjectManager
+	// resolve the uri of an object of the decoded resource
+	resolveLocalURI func(uri *URI) EObject
+}
+
+func (d *sqlDecoder) isLocalURI(uri *URI) bool {
+	return d.uri != nil && d.uri.Equals(uri.TrimFragment())
+}
+
+// isLocalReference returns true if the value is the uri of an object of the decoded resource
+func (d *sqlDecoder) isLocalReference(featureSchema *sqlFeatureSchema, value any) bool {
+	switch featureSchema.featureKind {
+	case sfkObjectReference, sfkObjectReferenceList:
+		if v, _ := value.(string); len(v) > 0 {
+			if _, err := strconv.ParseInt(v, 10, 64); err != nil {
+				return d.isLocalURI(d.resolveURI(NewURI(v)))
+			}
+		}
+	}
+	return false
 }
 
 func (d *sqlDecoder) resolveURI(uri *URI) *URI {
@@ -164,7 +185,7 @@ func (d *sqlDecoder) decodeSchema(schemaOptions []sqlSchemaOption) error {
 	// properties
 	properties, err := d.decodeProperties()
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// object id column name
@@ -414,11 +435,25 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 					// string is an uri
 					proxyURI := NewURI(v)
 					resolvedURI := d.resolveURI(proxyURI)
+					if d.resolveLocalURI != nil && d.isLocalURI(resolvedURI) {
+						// object is in the resource
+						if eObject := d.resolveLocalURI(resolvedURI); eObject != nil {
+							return eObject, nil
+						}
+					}
 					// create proxy
 					eFeature := featureData.feature
 					eClass := eFeature.GetEType().(EClass)
-					eFactory := eClass.GetEPackage().GetEFactoryInstance()
-					eObject := eFactory.Create(eClass)
+					var eObject EObject
+					if eClass.IsAbstract() || eClass.IsInterface() {
+						// the class of the object is unknown
+						eDynamic := NewDynamicEObjectImpl()
+						eDynamic.SetEClass(eClass)
+						eObject = eDynamic
+					} else {
+						eFactory := eClass.GetEPackage().GetEFactoryInstance()
+						eObject = eFactory.Create(eClass)
+					}
 					eObjectInternal := eObject.(EObjectInternal)
 					eObjectInternal.ESetProxyURI(resolvedURI)
 					return eObject, nil
@@ -577,6 +612,10 @@ type SQLDecoder struct {
 	resource     EResource
 	withFeatures bool
 	withObjects  bool
+	// mutex for the modification of decoded objects
+	featuresMutex sync.Mutex
+	// features with uris of objects of the resource, they can be resolved when contents are decoded
+	localFeatures []func() error
 }
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
@@ -592,6 +631,10 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 			return nil, err
 		}
 
+		if len(bytes) < 20 {
+			return nil, errors.New("invalid database file")
+		}
+
 		// set journal mode as rolling back ( WAL is not supported )
 		bytes[18] = 0x01
 		bytes[19] = 0x01
@@ -859,6 +902,11 @@ func (d *SQLDecoder) DecodeResource() {
 		d.addError(err)
 		return
 	}
+
+	if err := d.decodeLocalFeatures(); err != nil {
+		d.addError(err)
+		return
+	}
 }
 
 func (d *SQLDecoder) DecodeObject() (EObject, error) {
@@ -983,10 +1031,11 @@ func (d *SQLDecoder) decodeObjects() error {
 				// set its id
 				if d.objectIDManager != nil {
 					if d.isObjectID {
-						switch stmt.ColumnType(2) {
+						idColumn := len(d.schema.objectsTable.columns) - 1
+						switch stmt.ColumnType(idColumn) {
 						case sqlite.TypeNull:
 						case sqlite.TypeText:
-							objectID := stmt.ColumnText(2)
+							objectID := stmt.ColumnText(idColumn)
 							if err := d.objectIDManager.SetID(eObject, objectID); err != nil {
 								return err
 							}
@@ -1073,15 +1122,23 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 
 				// for each column
 				for i, columnData := range columnFeatures {
-					value := decodeAny(stmt, i+1)
-					columnValue, err := d.decodeFeatureValue(columnData, value)
-					if err != nil {
-						return err
-					}
 					// column value is nil, if column is not set
 					// so use default value
-					if columnValue != nil {
-						eObject.ESet(columnData.feature, columnValue)
+					value := decodeAny(stmt, i+1)
+					if value == nil {
+						continue
+					}
+					if err := d.decodeFeature(columnData, func() error {
+						columnValue, err := d.decodeFeatureValue(columnData, value)
+						if err != nil {
+							return err
+						}
+						if columnValue != nil {
+							d.setFeature(func() { eObject.ESet(columnData.feature, columnValue) })
+						}
+						return nil
+					}, value); err != nil {
+						return err
 					}
 				}
 				return nil
@@ -1092,7 +1149,6 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) error {
 	column := sqlEscapeIdentifier(table.columns[len(table.columns)-1].columnName)
 	query := table.selectQuery([]string{table.keyName(), column}, "", table.keyName()+" ASC, idx ASC")
-	feature := tableFeature.feature
 	values := []any{}
 	var id int64 = -1
 	if err := d.executeQuery(
@@ -1102,35 +1158,30 @@ func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatur
 				// object id
 				objectID := stmt.ColumnInt64(0)
 				value := decodeAny(stmt, 1)
-				decoded, err := d.decodeFeatureValue(tableFeature, value)
-				if err != nil {
-					return err
-				}
-
 				if id == -1 {
 					id = objectID
 				} else if id != objectID {
-					if err := d.decodeFeatureList(id, feature, values); err != nil {
+					if err := d.decodeFeatureList(id, tableFeature, values); err != nil {
 						return err
 					}
 					values = nil
 				}
 				id = objectID
-				values = append(values, decoded)
+				values = append(values, value)
 				return nil
 			},
 		}); err != nil {
 		return err
 	}
 	if id != -1 {
-		if err := d.decodeFeatureList(id, feature, values); err != nil {
+		if err := d.decodeFeatureList(id, tableFeature, values); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
-func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeature, values []any) error {
+func (d *SQLDecoder) decodeFeatureList(objectID int64, tableFeature *sqlFeatureSchema, values []any) error {
 	if len(values) == 0 {
 		return nil
 	}
@@ -1138,11 +1189,49 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeatur
 	if eObject == nil {
 		return fmt.Errorf("unable to find object with id '%v'", objectID)
 	}
-	eList := eObject.EGetResolve(feature, false).(EList)
-	eList.AddAll(NewImmutableEList(values))
+	return d.decodeFeature(tableFeature, func() error {
+		decoded := make([]any, 0, len(values))
+		for _, value := range values {
+			decodedValue, err := d.decodeFeatureValue(tableFeature, value)
+			if err != nil {
+				return err
+			}
+			decoded = append(decoded, decodedValue)
+		}
+		d.setFeature(func() { setListValues(getUnResolvedList(eObject, tableFeature.feature), decoded) })
+		return nil
+	}, values...)
+}
+
+func (d *SQLDecoder) decodeFeature(featureSchema *sqlFeatureSchema, decode func() error, values ...any) error {
+	if slices.ContainsFunc(values, func(value any) bool { return d.isLocalReference(featureSchema, value) }) {
+		d.featuresMutex.Lock()
+		defer d.featuresMutex.Unlock()
+		d.localFeatures = append(d.localFeatures, decode)
+		return nil
+	}
+	return decode()
+}
+
+func (d *SQLDecoder) decodeLocalFeatures() error {
+	d.resolveLocalURI = func(uri *URI) EObject { return d.resource.GetEObject(uri.Fragment()) }
+	for _, decode := range d.localFeatures {
+		if err := decode(); err != nil {
+			return err
+		}
+	}
+	d.localFeatures = nil
 	return nil
 }
 
+// features of different classes are decoded in parallel but setting a feature may modify
+// any object with a bidirectional reference
+func (d *SQLDecoder) setFeature(set func()) {
+	d.featuresMutex.Lock()
+	defer d.featuresMutex.Unlock()
+	set()
+}
+
 func (d *SQLDecoder) addError(err error) {
 	d.resource.GetErrors().Add(NewEDiagnosticImpl(err.Error(), d.resource.GetURI().String(), 0, 0))
 }
-- 
2.43.0


From 25ccdfc858be1c46c47d497ace7b204e37fab0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 31/47] fix: closing a database doesn't interrupt its last
 query

the file was copied without the content of its write-ahead log
---
 ecore/sqlbase.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 7647ac1..2a2cf6b 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -204,14 +204,18 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 			reject(err)
 			return
 		}
-		defer s.connPool.Put(conn)
 
 		loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid), zap.String("query", cmd)}
 		if opts != nil {
 			loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
 		}
 		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-		if err := fn(conn, cmd, opts); err != nil {
+		if err := func() error {
+			// connection is released before the query is finished: otherwise it may be interrupted
+			// by the closing of the pool and database changes may not be written in the database file
+			defer s.connPool.Put(conn)
+			return fn(conn, cmd, opts)
+		}(); err != nil {
 			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
 			reject(err)
 			return
-- 
2.43.0


From 45bd0d0564eeb50f2609c92ea84aaa74ca4cf99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 32/47] fix: an error while closing the writer of a saved
 resource is reported

---
 ecore/eresource_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index dc28074..e40d257 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -536,7 +536,9 @@ func (r *EResourceImpl) SaveWithOptions(options map[string]any) {
 			errors.Add(NewEDiagnosticImpl("Unable to create writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
 		} else if w != nil {
 			r.SaveWithWriter(w, options)
-			w.Close()
+			if err := w.Close(); err != nil {
+				r.GetErrors().Add(NewEDiagnosticImpl("Unable to close writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
+			}
 		}
 	}
 }
-- 
2.43.0


From cf40e7ed976e6a0258b8226ebc8c71dce2cdc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 33/47] fix: the pending value of a database store feature is
 the last value set

---
 ecore/sqlstore.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d24f07c..7e22c9a 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"slices"
 	"strings"
 	"sync"
@@ -1274,19 +1275,23 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 	return op
 }
 
-func (s *SQLStore) getLastOperation(type_ operationType, object EObject, feature EStructuralFeature, index int) *operation {
+// returns the pending value of the object feature, i.e. the value of the last pending write operation
+// of the object feature if this operation sets it
+func (s *SQLStore) getPendingValue(object EObject, feature EStructuralFeature, index int) (any, bool) {
 	s.mutexOperations.Lock()
 	defer s.mutexOperations.Unlock()
-	if objectOperations := s.objectOperations[object]; objectOperations != nil {
-		if operations := objectOperations[feature]; operations != nil {
-			for i := len(operations) - 1; i >= 0; i-- {
-				if operation := operations[i]; operation.type_ == type_ && operation.index == index {
-					return operation
-				}
+	operations := s.objectOperations[object][feature]
+	for i := len(operations) - 1; i >= 0; i-- {
+		if op := operations[i]; op.type_ == operationWrite {
+			// other operations may be registered on this feature: the ones about the whole store, about
+			// the whole object or the ones whose value is the object
+			if op.cmd == "Set" && op.object == object && op.feature == feature && op.index == index {
+				return op.value, true
 			}
+			break
 		}
 	}
-	return nil
+	return nil, false
 }
 
 func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) (previous *operation) {
@@ -1363,8 +1368,8 @@ func awaitOperation[T any](ctx context.Context, op *operation) T {
 func (s *SQLStore) Get(object EObject, feature EStructuralFeature, index int) any {
 	// optimization : if we have a non many feature, check if we have a pending write operation
 	if !feature.IsMany() {
-		if operation := s.getLastOperation(operationWrite, object, feature, index); operation != nil {
-			return operation.value
+		if value, isPending := s.getPendingValue(object, feature, index); isPending {
+			return value
 		}
 	}
 	return awaitOperation[any](
@@ -1472,11 +1477,19 @@ func (s *SQLStore) doSet(object EObject, feature EStructuralFeature, index int,
 	return oldValue, nil
 }
 
+// isFeatureValueSet returns true if value is not the default value of the feature
+func isFeatureValueSet(feature EStructuralFeature, value any) bool {
+	if eAttribute, _ := feature.(EAttribute); eAttribute != nil && value != nil {
+		return !reflect.DeepEqual(value, eAttribute.GetDefaultValue())
+	}
+	return value != nil
+}
+
 func (s *SQLStore) IsSet(object EObject, feature EStructuralFeature) bool {
 	// optimization : if we have a non many feature, check if we have a pending write operation
 	if !feature.IsMany() {
-		if operation := s.getLastOperation(operationWrite, object, feature, -1); operation != nil {
-			return operation.value != nil
+		if value, isPending := s.getPendingValue(object, feature, -1); isPending {
+			return isFeatureValueSet(feature, value)
 		}
 	}
 	return awaitOperation[bool](
-- 
2.43.0


From e4457e6d57a3a6f7636484a9a0054d447390d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 34/47] fix: database store knows the inherited features of an
 object and reports its read errors

---
 ecore/sqlstore.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 7e22c9a..d01db0f 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -895,6 +895,13 @@ func (s *SQLStore) getFeatureSchema(object EObject, feature EStructuralFeature)
 	}
 	// retrieve feature schema
 	featureSchema := classSchema.getFeatureSchema(feature)
+	if featureSchema == nil {
+		// feature may be inherited : its values are in the table of its class
+		for it := class.GetEAllSuperTypes().Iterator(); featureSchema == nil && it.HasNext(); {
+			superSchema := s.sqlDecoder.schema.getClassSchema(it.Next().(EClass))
+			featureSchema = superSchema.getFeatureSchema(feature)
+		}
+	}
 	if featureSchema == nil {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
@@ -921,6 +928,16 @@ func (s *SQLStore) getEncoderFeatureData(object EObject, feature EStructuralFeat
 
 	// retrieve feature data
 	featureData, isFeatureData := classData.features.Get(feature)
+	if !isFeatureData {
+		// feature may be inherited : its values are in the table of its class
+		for it := class.GetEAllSuperTypes().Iterator(); !isFeatureData && it.HasNext(); {
+			superData, err := s.getEncoderClassData(it.Next().(EClass))
+			if err != nil {
+				return nil, err
+			}
+			featureData, isFeatureData = superData.features.Get(feature)
+		}
+	}
 	if !isFeatureData {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
@@ -1391,7 +1408,7 @@ func (s *SQLStore) doGet(object EObject, feature EStructuralFeature, index int)
 	}
 	featureSchema, err := s.getFeatureSchema(object, feature)
 	if err != nil {
-		return err, nil
+		return nil, err
 	}
 	return s.getValue(sqlObjectID, featureSchema, index)
 }
@@ -1416,7 +1433,7 @@ func (s *SQLStore) getValue(sqlID int64, featureSchema *sqlFeatureSchema, index
 				value = decodeAny(stmt, 0)
 				return nil
 			}}); err != nil {
-		return err, nil
+		return nil, err
 	}
 
 	return s.decodeFeatureValue(featureSchema, value)
-- 
2.43.0


From e7fcca8a16910fbf5c110b23a6bcb17acc554c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 35/47] fix: elements inserted in a list of the database store
 keep their order

---
 ecore/sqlstore.go | 110 ++++++++++++++++++++++++++++------------------
 1 file changed, 67 insertions(+), 43 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d01db0f..d542146 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -99,6 +99,7 @@ type sqlManyQueries struct {
 	listIndexToIdx   string
 	removeQuery      string
 	insertQuery      string
+	renumberQuery    string
 }
 
 func (ss *sqlManyQueries) getInsertQuery() string {
@@ -318,6 +319,23 @@ func (ss *sqlManyQueries) getRemoveQuery() string {
 	return ss.removeQuery
 }
 
+func (ss *sqlManyQueries) getRenumberQuery() string {
+	if len(ss.renumberQuery) == 0 {
+		var query strings.Builder
+		query.WriteString("UPDATE ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" SET idx=numbered.number FROM (SELECT rowid AS id, ROW_NUMBER() OVER (ORDER BY idx ASC) AS number FROM ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" WHERE ")
+		query.WriteString(ss.table.keyName())
+		query.WriteString("=?) AS numbered WHERE ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(".rowid=numbered.id")
+		ss.renumberQuery = query.String()
+	}
+	return ss.renumberQuery
+}
+
 type sqlStoreObjectManager struct {
 	store EStore
 }
@@ -1967,53 +1985,59 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 // compute insert idx of element in the list whose index is index. nb is the number of elements to be inserted
 // return idx, increment (for each inserted element) and error if any
 func (s *SQLStore) getInsertIdx(table *sqlTable, sqlID int64, index int, nb int) (float64, float64, error) {
-	if index == 0 {
-		// first row in the list
-		idx := 1.0
-		withElements := false
-		if err := s.executeQuery(
-			s.getManyQueries(table).getListIndexToIdxQuery(),
-			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 1, 0},
-				ResultFunc: func(stmt *sqlite.Stmt) error {
-					withElements = true
-					idx = stmt.ColumnFloat(0)
-					return nil
-				}}); err != nil {
-			return 0.0, 0.0, err
-		}
-		if withElements {
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
-		} else {
-			return 1.0, 1.0, nil
-		}
-	} else {
-		count := 0
-		idx := 0.0
-		if err := s.executeQuery(
-			s.getManyQueries(table).getListIndexToIdxQuery(),
-			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 2, index - 1},
-				ResultFunc: func(stmt *sqlite.Stmt) error {
-					idx += stmt.ColumnFloat(0)
-					count++
-					return nil
-				}}); err != nil {
+	idx, increment, isExact, err := s.computeInsertIdx(table, sqlID, index, nb)
+	if err == nil && !isExact {
+		// there is no room left between the rows of the list : compute new idx for all of them
+		if err = s.executeQuery(
+			s.getManyQueries(table).getRenumberQuery(),
+			&sqlitex.ExecOptions{Args: []any{sqlID}},
+		); err != nil {
 			return 0.0, 0.0, err
 		}
-		switch count {
-		case 0:
-			return 0, 0, fmt.Errorf("invalid index in table %v for object %v : %v not in list bounds", table.name, sqlID, index)
-		case 1:
-			// at the end
-			return idx + 1, 1, nil
-		default:
-			// before
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
+		idx, increment, _, err = s.computeInsertIdx(table, sqlID, index, nb)
+	}
+	return idx, increment, err
+}
+
+// compute insert idx and increment. return false if they can't be represented exactly enough
+// to keep the inserted elements ordered
+func (s *SQLStore) computeInsertIdx(table *sqlTable, sqlID int64, index int, nb int) (float64, float64, bool, error) {
+	// retrieve idx of the rows before and after the inserted elements
+	limit, offset := 2, index-1
+	if index == 0 {
+		limit, offset = 1, 0
+	}
+	neighbours := make([]float64, 0, 2)
+	if err := s.executeQuery(
+		s.getManyQueries(table).getListIndexToIdxQuery(),
+		&sqlitex.ExecOptions{
+			Args: []any{sqlID, limit, offset},
+			ResultFunc: func(stmt *sqlite.Stmt) error {
+				neighbours = append(neighbours, stmt.ColumnFloat(0))
+				return nil
+			}}); err != nil {
+		return 0.0, 0.0, false, err
+	}
+	before := 0.0
+	if index > 0 {
+		if len(neighbours) == 0 {
+			return 0.0, 0.0, false, fmt.Errorf("invalid index in table %v for object %v : %v not in list bounds", table.name, sqlID, index)
 		}
+		before, neighbours = neighbours[0], neighbours[1:]
+	}
+	if len(neighbours) == 0 {
+		// at the end
+		return before + 1.0, 1.0, true, nil
+	}
+	// between
+	after := neighbours[0]
+	increment := (after - before) / (float64(nb) + 1)
+	isExact := true
+	for i, previous, idx := 0, before, before+increment; i < nb && isExact; i++ {
+		isExact = previous < idx && idx < after
+		previous, idx = idx, idx+increment
 	}
+	return before + increment, increment, isExact, nil
 }
 
 func (s *SQLStore) Remove(object EObject, feature EStructuralFeature, index int, needResult bool) any {
-- 
2.43.0


From d81230dbc005f0c3d899d17b4c104f2380169a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 36/47] fix: attributes unset in the database store have their
 default value

---
 ecore/sqlstore.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d542146..1ef1a9f 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1454,6 +1454,10 @@ func (s *SQLStore) getValue(sqlID int64, featureSchema *sqlFeatureSchema, index
 		return nil, err
 	}
 
+	// no value : a single valued attribute has its default value
+	if eAttribute, _ := featureSchema.feature.(EAttribute); value == nil && eAttribute != nil && featureSchema.column != nil {
+		return eAttribute.GetDefaultValue(), nil
+	}
 	return s.decodeFeatureValue(featureSchema, value)
 }
 
@@ -1559,7 +1563,15 @@ func (s *SQLStore) doIsSet(object EObject, feature EStructuralFeature) (bool, er
 				}}); err != nil {
 			return false, err
 		}
-		return value != featureSchema.feature.GetDefaultValue(), nil
+		if eAttribute, _ := featureSchema.feature.(EAttribute); value != nil && eAttribute != nil {
+			if value, err = s.decodeFeatureValue(featureSchema, value); err != nil {
+				return false, err
+			}
+		} else if value == "" {
+			// no reference
+			value = nil
+		}
+		return isFeatureValueSet(featureSchema.feature, value), nil
 	} else if featureTable := featureSchema.table; featureTable != nil {
 		isSet := false
 		if err := s.executeQuery(
@@ -1602,7 +1614,7 @@ func (s *SQLStore) doUnSet(object EObject, feature EStructuralFeature) (any, err
 	var args []any
 	if featureColumn := featureData.schema.column; featureColumn != nil {
 		query = s.getSingleQueries(featureColumn).getUpdateQuery()
-		args = []any{feature.GetDefaultValue(), sqlObjectID}
+		args = []any{nil, sqlObjectID}
 	} else if featureTable := featureData.schema.table; featureTable != nil {
 		query = s.getManyQueries(featureTable).getClearQuery()
 		args = []any{sqlObjectID}
-- 
2.43.0


From 5ec2aa0b03fa31b36588752ef64b077b4858f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 37/47] fix: in memory databases of two stores are never shared

---
 ecore/sqlstore.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 1ef1a9f..8966476 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -8,7 +8,6 @@ import (
 	"maps"
 	"math"
 	"os"
-	"path/filepath"
 	"reflect"
 	"slices"
 	"strings"
@@ -642,6 +641,9 @@ func backupDB(dstConn, srcConn *sqlite.Conn) error {
 	return nil
 }
 
+// used to name memory databases
+var memoryDatabaseID atomic.Int64
+
 func NewSQLStore(
 	databasePath string,
 	resourceURI *URI,
@@ -663,8 +665,8 @@ func NewSQLStore(
 				defer connSrc.Close()
 
 				// create connection pool
-				name := filepath.Base(databasePath)
-				dbPath := fmt.Sprintf("file:%s?mode=memory&cache=shared", name)
+				// a memory database is shared by its name : each store has its own one
+				dbPath := fmt.Sprintf("file:soft.store-%d?mode=memory&cache=shared", memoryDatabaseID.Add(1))
 				connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 				if err != nil {
 					return nil, err
@@ -687,7 +689,9 @@ func NewSQLStore(
 			func(connPool *sqlitex.Pool) (err error) {
 				defer func() {
 					// close pool
-					err = connPool.Close()
+					if errClose := connPool.Close(); err == nil {
+						err = errClose
+					}
 				}()
 
 				// destination connection is the store db
-- 
2.43.0


From 0e47d0b6cdce7c8322b4a6255b155a2618bd59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 38/47] fix: database store references objects of no resource
 and adds all elements at once

---
 ecore/sqlstore.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 8966476..3443507 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"reflect"
 	"slices"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -973,6 +974,16 @@ func (e *SQLStore) encodeFeatureValue(sqlObjectID int64, featureData *sqlEncoder
 		case sfkObject, sfkObjectList:
 			eObject := value.(EObject)
 			return e.encodeSQLID(eObject, -1, -1)
+		case sfkObjectReference, sfkObjectReferenceList:
+			if eInternal, _ := value.(EObjectInternal); eInternal != nil && !eInternal.EIsProxy() && eInternal.EResource() == nil {
+				// object is only known by this store
+				sqlID, err := e.encodeSQLID(eInternal, -1, -1)
+				if err != nil {
+					return nil, err
+				}
+				return strconv.FormatInt(sqlID, 10), nil
+			}
+			return e.sqlEncoder.encodeFeatureValue(sqlObjectID, featureData, value)
 		default:
 			return e.sqlEncoder.encodeFeatureValue(sqlObjectID, featureData, value)
 		}
@@ -1980,22 +1991,29 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 		return nil, err
 	}
 	// encode each value
-	query := s.getManyQueries(featureTable).getInsertQuery()
+	rows := make([][]any, 0, c.Size())
 	for it := c.Iterator(); it.HasNext(); {
 		value := it.Next()
 		v, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
 		if err != nil {
 			return nil, err
 		}
-		if err := s.executeQuery(
-			query,
-			&sqlitex.ExecOptions{Args: []any{sqlObjectID, idx, v}},
-		); err != nil {
-			return nil, err
-		}
+		rows = append(rows, []any{sqlObjectID, idx, v})
 		idx += inc
 	}
-	return nil, nil
+	// insert all of them or none of them
+	return nil, s.executeSqlite(
+		func(conn *sqlite.Conn, query string, opts *sqlitex.ExecOptions) (err error) {
+			defer sqlitex.Save(conn)(&err)
+			for _, row := range rows {
+				if err = sqlitex.Execute(conn, query, &sqlitex.ExecOptions{Args: row}); err != nil {
+					return err
+				}
+			}
+			return nil
+		},
+		s.getManyQueries(featureTable).getInsertQuery(),
+		nil)
 }
 
 // compute insert idx of element in the list whose index is index. nb is the number of elements to be inserted
-- 
2.43.0


From 9771256fedab96e97c54fc15e824c986345a4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 39/47] fix: a failed operation of the database store doesn't
 prevent the other ones

---
 ecore/sqlbase.go  | 110 ++++++++++++++++++++++------------------------
 ecore/sqlstore.go |  72 +++++++++++++++---------------
 2 files changed, 88 insertions(+), 94 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 2a2cf6b..965da3a 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -2,7 +2,6 @@ package ecore
 
 import (
 	"context"
-	"errors"
 	"io"
 	"slices"
 	"strings"
@@ -165,8 +164,9 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 			}
 		case queryWrite:
 			if len(sqliteQueries) > 0 {
-				query := sqliteQueries[len(sqliteQueries)-1]
-				previous[query] = struct{}{}
+				if query := sqliteQueries[len(sqliteQueries)-1]; query != q {
+					previous[query] = struct{}{}
+				}
 			}
 		}
 		// register query for thid table
@@ -184,44 +184,34 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 					zap.Int64s("previous", mapSet(previous, func(query *query) int64 { return query.id })),
 				)
 			}
-			promises := mapSet(previous, func(query *query) *promise.Promise[any] { return query.promise })
-			if _, err := promise.AllWithPool(context.Background(), s.promisePool, promises...).Await(context.Background()); err != nil {
-				if e := s.sqliteLogger.Check(zap.DebugLevel, "error in previous query"); e != nil {
-					e.Write(
-						zap.Int64("id", q.id),
-						zap.Int64("goid", goid),
-						zap.Error(err),
-					)
-				}
-				reject(err)
-				return
+			// errors of previous queries are reported by themselves
+			for query := range previous {
+				_, _ = query.promise.Await(context.Background())
 			}
 		}
 
 		// execute query
-		conn, err := s.connPool.Take(context.Background())
-		if err != nil {
-			reject(err)
-			return
-		}
-
-		loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid), zap.String("query", cmd)}
-		if opts != nil {
-			loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
-		}
-		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-		if err := func() error {
+		err := func() error {
+			conn, err := s.connPool.Take(context.Background())
+			if err != nil {
+				return err
+			}
 			// connection is released before the query is finished: otherwise it may be interrupted
 			// by the closing of the pool and database changes may not be written in the database file
 			defer s.connPool.Put(conn)
-			return fn(conn, cmd, opts)
-		}(); err != nil {
-			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
-			reject(err)
-			return
-		} else {
+
+			loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid), zap.String("query", cmd)}
+			if opts != nil {
+				loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
+			}
+			s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
+			if err := fn(conn, cmd, opts); err != nil {
+				s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
+				return err
+			}
 			s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
-		}
+			return nil
+		}()
 
 		// clean query
 		if e := s.sqliteLogger.Check(zap.DebugLevel, "cleaning"); e != nil {
@@ -230,37 +220,18 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 				zap.Int64("goid", goid),
 			)
 		}
-		s.sqliteMutex.Lock()
-		defer s.sqliteMutex.Unlock()
-
-		// unregister query from all tables
-		for _, table := range q.tables {
-			queries := s.sqliteQueries[table]
-			index := slices.Index(queries, q)
-			if index == -1 {
-				reject(errors.New("unable to find query index"))
-				return
-			}
-			// remove query from queries
-			copy(queries[index:], queries[index+1:])
-			queries[len(queries)-1] = nil
-			queries = queries[:len(queries)-1]
-			if len(queries) > 0 {
-				s.sqliteQueries[table] = queries
-			} else {
-				delete(s.sqliteQueries, table)
-			}
-		}
+		s.unregisterQuery(q)
 		if e := s.sqliteLogger.Check(zap.DebugLevel, "cleaned"); e != nil {
 			e.Write(
 				zap.Int64("id", q.id),
 				zap.Int64("goid", goid),
 			)
 		}
-		if len(s.sqliteQueries) == 0 {
-			s.sqliteLogger.Debug("no pending")
+		if err != nil {
+			reject(err)
+		} else {
+			resolve(nil)
 		}
-		resolve(nil)
 	}, s.promisePool)
 
 	s.sqliteMutex.Unlock()
@@ -270,6 +241,31 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	return err
 }
 
+// unregister query from all its tables
+func (s *sqlBase) unregisterQuery(q *query) {
+	s.sqliteMutex.Lock()
+	defer s.sqliteMutex.Unlock()
+	for _, table := range q.tables {
+		queries := s.sqliteQueries[table]
+		index := slices.Index(queries, q)
+		if index == -1 {
+			continue
+		}
+		// remove query from queries
+		copy(queries[index:], queries[index+1:])
+		queries[len(queries)-1] = nil
+		queries = queries[:len(queries)-1]
+		if len(queries) > 0 {
+			s.sqliteQueries[table] = queries
+		} else {
+			delete(s.sqliteQueries, table)
+		}
+	}
+	if len(s.sqliteQueries) == 0 {
+		s.sqliteLogger.Debug("no pending")
+	}
+}
+
 func (d *sqlBase) executeQuery(query string, opts *sqlitex.ExecOptions) error {
 	return d.executeSqlite(sqlitex.Execute, query, opts)
 }
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 3443507..fa5b599 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1047,6 +1047,7 @@ func mapSlice[S ~[]E, E, R any](slice S, mapper func(int, E) R) []R {
 }
 
 func (s *SQLStore) WaitOperations(context context.Context, object any) error {
+	var waitErr error
 	for {
 		// compute operations to wait for
 		s.mutexOperations.Lock()
@@ -1070,16 +1071,20 @@ func (s *SQLStore) WaitOperations(context context.Context, object any) error {
 			if e := s.loggerOperations.Check(zap.DebugLevel, "waiting operations"); e != nil {
 				e.Write(zap.Int64s("operations", mapSlice(allOperations, func(index int, op *operation) int64 { return op.id })))
 			}
-			// compute promises
-			allPromises := mapSlice(allOperations, func(index int, op *operation) *promise.Promise[any] { return op.promise })
-			// wait for promises
-			_, err := promise.AllWithPool(context, s.promisePool, allPromises...).Await(context)
-			if err != nil {
-				return err
+			// wait for all the operations and return the first error
+			for _, op := range allOperations {
+				if _, err := op.promise.Await(context); err != nil {
+					if context.Err() != nil {
+						return err
+					}
+					if waitErr == nil {
+						waitErr = err
+					}
+				}
 			}
 		} else {
 			s.loggerOperations.Debug("waiting operations finished")
-			return nil
+			return waitErr
 		}
 	}
 }
@@ -1226,24 +1231,24 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 			}
 			reject(err)
 		}
-		// handle panic
-		handlePanic := func() {
-			var err error
-			switch recover := recover(); v := recover.(type) {
-			case nil:
-				return
-			case error:
-				err = v
-			default:
-				err = fmt.Errorf("%+v", v)
-			}
-			s.logger.Error("error",
-				zap.Object("operation", &operationMarshaler{op: op}),
-				zap.Error(err),
-				zap.Stack("stack"))
-			reject(err)
+		// execute operation and handle panic
+		execute := func() (result any, err error) {
+			defer func() {
+				switch v := recover().(type) {
+				case nil:
+					return
+				case error:
+					err = v
+				default:
+					err = fmt.Errorf("%+v", v)
+				}
+				s.logger.Error("panic",
+					zap.Object("operation", &operationMarshaler{op: op}),
+					zap.Error(err),
+					zap.Stack("stack"))
+			}()
+			return op.fn()
 		}
-		defer handlePanic()
 
 		// associate all objets to this goroutine
 		s.mutexGoRoutines.Lock()
@@ -1264,15 +1269,9 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 					zap.Int64s("previous", mapSet(op.previous, func(o *operation) int64 { return o.id })),
 				)
 			}
-			promises := mapSet(op.previous, func(o *operation) *promise.Promise[any] { return o.promise })
-			if _, err := promise.AllWithPool(ctx, s.promisePool, promises...).Await(ctx); err != nil && err != ctx.Err() {
-				// unwrap error
-				if unwrapped := errors.Unwrap(err); unwrapped != nil {
-					err = unwrapped
-				}
-				// handle error
-				handleError(fmt.Errorf("error in previous operation: %w", err))
-				return
+			// errors of previous operations are reported by themselves
+			for previous := range op.previous {
+				_, _ = previous.promise.Await(ctx)
 			}
 		}
 
@@ -1283,7 +1282,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 				zap.Int64("id", op.id),
 			)
 		}
-		result, err := op.fn()
+		result, err := execute()
 
 		// clean operations
 		if e := s.loggerOperations.Check(zap.DebugLevel, "cleaning"); e != nil {
@@ -1296,9 +1295,8 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 		defer s.mutexOperations.Unlock()
 
 		for _, of := range registeredObjectFeatures {
-			if err := s.unregisterOperation(of.object, of.feature, op); err != nil {
-				handleError(err)
-				return
+			if errUnregister := s.unregisterOperation(of.object, of.feature, op); err == nil {
+				err = errUnregister
 			}
 		}
 		if e := s.loggerOperations.Check(zap.DebugLevel, "cleaned"); e != nil {
-- 
2.43.0


From 91ffe0b8cd96aab292505436b3f44fba66e52061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 40/47] fix: operations of the database store are ordered with
 the ones about their whole object or the whole store

---
 ecore/sqlstore.go | 118 ++++++++++++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 41 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index fa5b599..2ca3dce 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -470,6 +470,8 @@ type operation struct {
 	index    int
 	value    any
 	fn       func() (any, error)
+	objects  map[EObject]struct{}
+	nested   bool
 	previous map[*operation]struct{}
 	cancel   context.CancelFunc
 	promise  *promise.Promise[any]
@@ -621,7 +623,7 @@ type SQLStore struct {
 	chanOperations   *infiniteChannel[*operation]
 	mutexOperations  sync.Mutex
 	timeoutOperation time.Duration
-	goroutines       map[int64]map[EObject]struct{}
+	goroutines       map[int64]*operation
 	mutexGoRoutines  sync.Mutex
 	maxAllocSize     int64
 }
@@ -836,7 +838,7 @@ func newSQLStore(
 		objectOperations: map[EObject]map[EStructuralFeature][]*operation{},
 		chanOperations:   newInfiniteChannel[*operation](),
 		timeoutOperation: timeoutOperation,
-		goroutines:       map[int64]map[EObject]struct{}{},
+		goroutines:       map[int64]*operation{},
 		maxAllocSize:     int64(maxAllocSize),
 	}
 
@@ -1063,6 +1065,8 @@ func (s *SQLStore) WaitOperations(context context.Context, object any) error {
 			for _, operations := range s.objectOperations[object.(EObject)] {
 				allOperations = append(allOperations, operations...)
 			}
+			// operations about the whole store may be about the object
+			allOperations = append(allOperations, s.objectOperations[nil][nil]...)
 		}
 		s.mutexOperations.Unlock()
 		// wait for operations to be finished
@@ -1197,25 +1201,56 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 		}
 
 	}
-	if object, isObject := op.value.(EObject); isObject && object != op.object {
-		allObjects[object] = struct{}{}
-		allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+	addValue := func(value any) {
+		if object, isObject := value.(EObject); isObject && object != op.object {
+			if _, isAdded := allObjects[object]; !isAdded {
+				allObjects[object] = struct{}{}
+				allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+			}
+		}
 	}
+	if values, isValues := op.value.([]any); isValues {
+		for _, value := range values {
+			addValue(value)
+		}
+	} else {
+		addValue(op.value)
+	}
+
+	op.objects = allObjects
+
+	// an operation scheduled by another one is a part of it: it doesn't wait for it
+	// nor for the following ones
+	parent := s.getCurrentOperation()
 
 	// lock operations
 	s.mutexOperations.Lock()
+	if parent == nil {
+		op.id = operationID.Add(1)
+	} else {
+		op.id = parent.id
+		op.nested = true
+	}
 
-	// register operation for all objects and and compute previous operations to wait for
+	// compute previous operations to wait for and register operation for all objects
 	previous := map[*operation]struct{}{}
 	registeredObjectFeatures := []objectFeature{}
 	for _, lof := range allObjectFeatures {
+		// operations of the whole store and of the whole object
+		if lof.object != nil {
+			s.addPreviousOperation(previous, objectFeature{nil, nil}, op)
+			if lof.feature != nil {
+				s.addPreviousOperation(previous, objectFeature{lof.object, nil}, op)
+			}
+		}
 		for of := range s.objectFeaturesIterator(lof) {
+			s.addPreviousOperation(previous, of, op)
 			registeredObjectFeatures = append(registeredObjectFeatures, of)
-			if po := s.registerOperation(of.object, of.feature, op); po != nil {
-				previous[po] = struct{}{}
-			}
 		}
 	}
+	for _, of := range registeredObjectFeatures {
+		s.registerOperation(of.object, of.feature, op)
+	}
 
 	// initialize op
 	op.cancel = cancel
@@ -1252,7 +1287,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 
 		// associate all objets to this goroutine
 		s.mutexGoRoutines.Lock()
-		s.goroutines[goid] = allObjects
+		s.goroutines[goid] = op
 		s.mutexGoRoutines.Unlock()
 		defer func() {
 			s.mutexGoRoutines.Lock()
@@ -1342,7 +1377,27 @@ func (s *SQLStore) getPendingValue(object EObject, feature EStructuralFeature, i
 	return nil, false
 }
 
-func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) (previous *operation) {
+// returns the operation executed by the current goroutine if any
+func (s *SQLStore) getCurrentOperation() *operation {
+	s.mutexGoRoutines.Lock()
+	defer s.mutexGoRoutines.Unlock()
+	return s.goroutines[goid.Get()]
+}
+
+// add the last registered operation of object-feature that op must wait for
+func (s *SQLStore) addPreviousOperation(previous map[*operation]struct{}, of objectFeature, op *operation) {
+	operations := s.objectOperations[of.object][of.feature]
+	for i := len(operations) - 1; i >= 0; i-- {
+		if po := operations[i]; po.id < op.id && (op.type_ == operationWrite || po.type_ == operationWrite) {
+			previous[po] = struct{}{}
+			if !po.nested {
+				break
+			}
+		}
+	}
+}
+
+func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) {
 	// get operations for object-feature
 	objectOperations := s.objectOperations[object]
 	if objectOperations == nil {
@@ -1355,25 +1410,8 @@ func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature,
 		objectOperations[feature] = operations
 	}
 
-	// compute previous operation
-	switch op.type_ {
-	case operationRead:
-		for i := len(operations) - 1; i >= 0; i-- {
-			operation := operations[i]
-			if operation.type_ == operationWrite {
-				previous = operation
-				break
-			}
-		}
-	case operationWrite:
-		if len(operations) > 0 {
-			previous = operations[len(operations)-1]
-		}
-	}
-
 	// add operation
 	objectOperations[feature] = append(operations, op)
-	return
 }
 
 func (s *SQLStore) unregisterOperation(object EObject, feature EStructuralFeature, op *operation) error {
@@ -1967,14 +2005,16 @@ func (s *SQLStore) doAdd(object EObject, feature EStructuralFeature, index int,
 }
 
 func (s *SQLStore) AddAll(object EObject, feature EStructuralFeature, index int, c Collection) {
+	// collection may be modified after this call
+	values := slices.Clone(c.ToArray())
 	s.scheduleOperation(
 		context.Background(),
-		newOperation("AddAll", operationWrite, object, feature, false, index, c, func() (any, error) {
-			return s.doAddAll(object, feature, index, c)
+		newOperation("AddAll", operationWrite, object, feature, false, index, values, func() (any, error) {
+			return s.doAddAll(object, feature, index, values)
 		}))
 }
 
-func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index int, c Collection) (any, error) {
+func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index int, values []any) (any, error) {
 	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
 	if err != nil {
 		return nil, err
@@ -1984,14 +2024,13 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 		return nil, err
 	}
 	featureTable := featureData.schema.table
-	idx, inc, err := s.getInsertIdx(featureTable, sqlObjectID, index, c.Size())
+	idx, inc, err := s.getInsertIdx(featureTable, sqlObjectID, index, len(values))
 	if err != nil {
 		return nil, err
 	}
 	// encode each value
-	rows := make([][]any, 0, c.Size())
-	for it := c.Iterator(); it.HasNext(); {
-		value := it.Next()
+	rows := make([][]any, 0, len(values))
+	for _, value := range values {
 		v, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
 		if err != nil {
 			return nil, err
@@ -2275,17 +2314,14 @@ func (s *SQLStore) doGetContainer(object EObject) (*containerAndFeature, error)
 func (s *SQLStore) SetContainer(object EObject, container EObject, feature EStructuralFeature) {
 	// if this method is called from a scheduled operation, execute doSetContainer in the current goroutine
 	// otherwise schedule operation doSetContainer operation
-	goid := goid.Get()
 	sync := false
-	s.mutexGoRoutines.Lock()
-	if objects := s.goroutines[goid]; objects != nil {
-		_, sync = objects[object]
+	if op := s.getCurrentOperation(); op != nil {
+		_, sync = op.objects[object]
 	}
-	s.mutexGoRoutines.Unlock()
 	if sync {
 		_, _ = s.doSetContainer(object, container, feature)
 	} else {
-		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, feature, false, -1, container, func() (any, error) {
+		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, nil, false, -1, container, func() (any, error) {
 			return s.doSetContainer(object, container, feature)
 		}))
 	}
-- 
2.43.0


From 8856810fd11e694ff0925a22ea7fa15827e00716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 41/47] fix: lock the shared tables of the database store

---
 ecore/sqlstore.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 2ca3dce..f99eb7a 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -28,6 +28,7 @@ import (
 // log queries
 
 type sqlSingleQueries struct {
+	mutex       sync.Mutex
 	column      *sqlColumn
 	updateQuery string
 	selectQuery string
@@ -35,6 +36,8 @@ type sqlSingleQueries struct {
 }
 
 func (ss *sqlSingleQueries) getUpdateQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateQuery) == 0 {
 		// query
 		table := ss.column.table
@@ -52,6 +55,8 @@ func (ss *sqlSingleQueries) getUpdateQuery() string {
 }
 
 func (ss *sqlSingleQueries) getSelectQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectQuery) == 0 {
 		table := ss.column.table
 		// query
@@ -69,6 +74,8 @@ func (ss *sqlSingleQueries) getSelectQuery() string {
 }
 
 func (ss *sqlSingleQueries) getRemoveQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.removeQuery) == 0 {
 		// query
 		table := ss.column.table
@@ -84,6 +91,7 @@ func (ss *sqlSingleQueries) getRemoveQuery() string {
 }
 
 type sqlManyQueries struct {
+	mutex            sync.Mutex
 	table            *sqlTable
 	updateValueQuery string
 	updateIdxQuery   string
@@ -103,6 +111,8 @@ type sqlManyQueries struct {
 }
 
 func (ss *sqlManyQueries) getInsertQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.insertQuery) == 0 {
 		ss.insertQuery = ss.table.insertQuery()
 	}
@@ -110,6 +120,8 @@ func (ss *sqlManyQueries) getInsertQuery() string {
 }
 
 func (ss *sqlManyQueries) getUpdateValueQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateValueQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -131,6 +143,8 @@ func (ss *sqlManyQueries) getUpdateValueQuery() string {
 }
 
 func (ss *sqlManyQueries) getUpdateIdxQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateIdxQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -151,6 +165,8 @@ func (ss *sqlManyQueries) getUpdateIdxQuery() string {
 }
 
 func (ss *sqlManyQueries) getSelectOneQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectOneQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -169,6 +185,8 @@ func (ss *sqlManyQueries) getSelectOneQuery() string {
 }
 
 func (ss *sqlManyQueries) getSelectAllQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectAllQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -187,6 +205,8 @@ func (ss *sqlManyQueries) getSelectAllQuery() string {
 }
 
 func (ss *sqlManyQueries) getExistsQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.existsQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT EXISTS(SELECT 1 FROM ")
@@ -200,6 +220,8 @@ func (ss *sqlManyQueries) getExistsQuery() string {
 }
 
 func (ss *sqlManyQueries) getClearQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.clearQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("DELETE FROM ")
@@ -213,6 +235,8 @@ func (ss *sqlManyQueries) getClearQuery() string {
 }
 
 func (ss *sqlManyQueries) getCountQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.countQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT COUNT(*) FROM ")
@@ -226,6 +250,8 @@ func (ss *sqlManyQueries) getCountQuery() string {
 }
 
 func (ss *sqlManyQueries) getContainsQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.containsQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -242,6 +268,8 @@ func (ss *sqlManyQueries) getContainsQuery() string {
 }
 
 func (ss *sqlManyQueries) getIndexOfQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.indexOfQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -258,6 +286,8 @@ func (ss *sqlManyQueries) getIndexOfQuery() string {
 }
 
 func (ss *sqlManyQueries) getLastIndexOfQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.lastIndexOfQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -274,6 +304,8 @@ func (ss *sqlManyQueries) getLastIndexOfQuery() string {
 }
 
 func (ss *sqlManyQueries) getIdxToListIndexQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.idxToListIndex) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT COUNT(*) FROM ")
@@ -287,6 +319,8 @@ func (ss *sqlManyQueries) getIdxToListIndexQuery() string {
 }
 
 func (ss *sqlManyQueries) getListIndexToIdxQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.listIndexToIdx) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT idx FROM ")
@@ -300,6 +334,8 @@ func (ss *sqlManyQueries) getListIndexToIdxQuery() string {
 }
 
 func (ss *sqlManyQueries) getRemoveQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.removeQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -320,6 +356,8 @@ func (ss *sqlManyQueries) getRemoveQuery() string {
 }
 
 func (ss *sqlManyQueries) getRenumberQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.renumberQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("UPDATE ")
@@ -380,12 +418,52 @@ func newSQLStoreIDManager() SQLStoreIDManager {
 	}
 }
 
+func (r *sqlStoreIDManagerImpl) GetPackageFromID(id int64) (EPackage, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetPackageFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetPackageID(p EPackage) (int64, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetPackageID(p)
+}
+
+func (r *sqlStoreIDManagerImpl) GetClassFromID(id int64) (EClass, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetClassFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetClassID(c EClass) (int64, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetClassID(c)
+}
+
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralFromID(id int64) (EEnumLiteral, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetEnumLiteralFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralID(e EEnumLiteral) (int64, bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetEnumLiteralID(e)
+}
+
 func (r *sqlStoreIDManagerImpl) SetPackageID(p EPackage, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.packages[id] = p
 	r.sqlEncoderIDManagerImpl.packages[p] = id
 }
 
 func (r *sqlStoreIDManagerImpl) SetClassID(c EClass, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.classes[id] = c
 	r.sqlEncoderIDManagerImpl.classes[c] = id
 }
@@ -437,6 +515,8 @@ func (r *sqlStoreIDManagerImpl) ClearObjectID(o EObject) {
 }
 
 func (r *sqlStoreIDManagerImpl) SetEnumLiteralID(e EEnumLiteral, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.enumLiterals[id] = e
 	r.sqlEncoderIDManagerImpl.enumLiterals[e] = id
 }
-- 
2.43.0


From 0db461f78b162b0a1c6643d7ced28934fc69b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 42/47] fix: writes of the database store wait for all the
 reads in progress

---
 ecore/sqlbase.go  | 11 ++++++++---
 ecore/sqlstore.go |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 965da3a..e3cea89 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -163,9 +163,14 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 				}
 			}
 		case queryWrite:
-			if len(sqliteQueries) > 0 {
-				if query := sqliteQueries[len(sqliteQueries)-1]; query != q {
-					previous[query] = struct{}{}
+			for i := len(sqliteQueries) - 1; i >= 0; i-- {
+				query := sqliteQueries[i]
+				if query == q {
+					continue
+				}
+				previous[query] = struct{}{}
+				if query.type_ == queryWrite {
+					break
 				}
 			}
 		}
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index f99eb7a..da66e81 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1464,13 +1464,14 @@ func (s *SQLStore) getCurrentOperation() *operation {
 	return s.goroutines[goid.Get()]
 }
 
-// add the last registered operation of object-feature that op must wait for
+// add the registered operations of object-feature that op must wait for: the last write and, if op is
+// a write, all the reads that follow it
 func (s *SQLStore) addPreviousOperation(previous map[*operation]struct{}, of objectFeature, op *operation) {
 	operations := s.objectOperations[of.object][of.feature]
 	for i := len(operations) - 1; i >= 0; i-- {
 		if po := operations[i]; po.id < op.id && (op.type_ == operationWrite || po.type_ == operationWrite) {
 			previous[po] = struct{}{}
-			if !po.nested {
+			if po.type_ == operationWrite && !po.nested {
 				break
 			}
 		}
-- 
2.43.0


From 90bfbefaab43f8e05aa54e96d3e29d367a38ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 43/47] fix: database stores decode an object once and memory
 databases are never shared

---
 ecore/sqlbase.go    |  8 +++++++
 ecore/sqldecoder.go | 24 +++++++++++++++------
 ecore/sqlencoder.go |  2 +-
 ecore/sqlstore.go   | 52 ++++++++++++++++++++++-----------------------
 4 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index e3cea89..5c75d5d 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -2,6 +2,7 @@ package ecore
 
 import (
 	"context"
+	"fmt"
 	"io"
 	"slices"
 	"strings"
@@ -21,6 +22,13 @@ type executeQueryFn func(conn *sqlite.Conn, query string, opts *sqlitex.ExecOpti
 
 var queryID atomic.Int64
 
+var memoryDatabaseID atomic.Int64
+
+// a memory database is shared by all the connections to its name: each database has its own name
+func newMemoryDatabasePath() string {
+	return fmt.Sprintf("file:soft.memory-%d?mode=memory&cache=shared", memoryDatabaseID.Add(1))
+}
+
 type queryType uint8
 
 const (
diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index a577b8f..a6ad69e 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -131,6 +131,7 @@ func (r *sqlDecoderObjectManager) registerObject(EObject) {
 }
 
 type sqlDecoder struct {
+	mutex sync.Mutex
 	*sqlBase
 	classDataMap     map[EClass]*sqlDecoderClassData
 	packageRegistry  EPackageRegistry
@@ -285,6 +286,8 @@ func (d *sqlDecoder) decodeClass(id int64) (*sqlDecoderClassData, error) {
 }
 
 func (d *sqlDecoder) getDecoderClassData(eClass EClass) *sqlDecoderClassData {
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
 	classData, isClassData := d.classDataMap[eClass]
 	if !isClassData {
 		classData = &sqlDecoderClassData{
@@ -332,6 +335,13 @@ func (d *sqlDecoder) decodeObject(id int64) (EObject, error) {
 			return nil, err
 		}
 
+		// object may be decoded in another goroutine
+		d.mutex.Lock()
+		defer d.mutex.Unlock()
+		if eDecoded, isDecoded := d.sqlIDManager.GetObjectFromID(id); isDecoded {
+			return eDecoded, nil
+		}
+
 		// create object
 		eObject = classData.eFactory.Create(classData.eClass)
 
@@ -351,11 +361,12 @@ func (d *sqlDecoder) decodeObject(id int64) (EObject, error) {
 
 		}
 
+		// register in sql object manager
+		// (must be done first otherwise eObject may be used by another goroutine without its store)
+		d.sqlObjectManager.registerObject(eObject)
+
 		// register in sql id manager
 		d.sqlIDManager.SetObjectID(eObject, id)
-
-		// register in sql object maneger
-		d.sqlObjectManager.registerObject(eObject)
 	}
 	return eObject, nil
 }
@@ -620,7 +631,7 @@ type SQLDecoder struct {
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
 
-func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlitex.Pool, error) {
+func newMemoryConnectionPool(tmpPath string, r io.Reader) (*sqlitex.Pool, error) {
 	// create a memory connection
 	var connSrc *sqlite.Conn
 
@@ -672,8 +683,7 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 	}
 
 	// create connection pool
-	dbPath := fmt.Sprintf("file:%s?mode=memory&cache=shared", dbName)
-	connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
+	connPool, err := sqlitex.NewPool(newMemoryDatabasePath(), sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 	if err != nil {
 		return nil, err
 	}
@@ -741,7 +751,7 @@ func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any
 				remove = true
 			}
 			if inMemoryDatabase {
-				return newMemoryConnectionPool(dbName, dbPath, r)
+				return newMemoryConnectionPool(dbPath, r)
 			} else {
 				return newFileConnectionPool(dbPath, r)
 			}
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index bcf09d6..041115e 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -701,7 +701,7 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 	if inMemoryDatabase {
 		return newSQLEncoder(
 			func() (*sqlitex.Pool, error) {
-				return sqlitex.NewPool("file::memory:?mode=memory&cache=shared", sqlitex.PoolOptions{Flags: sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenURI})
+				return sqlitex.NewPool(newMemoryDatabasePath(), sqlitex.PoolOptions{Flags: sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenURI})
 			},
 			func(connPool *sqlitex.Pool) (err error) {
 				// close pool
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index da66e81..c112f25 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -724,9 +724,6 @@ func backupDB(dstConn, srcConn *sqlite.Conn) error {
 	return nil
 }
 
-// used to name memory databases
-var memoryDatabaseID atomic.Int64
-
 func NewSQLStore(
 	databasePath string,
 	resourceURI *URI,
@@ -748,9 +745,7 @@ func NewSQLStore(
 				defer connSrc.Close()
 
 				// create connection pool
-				// a memory database is shared by its name : each store has its own one
-				dbPath := fmt.Sprintf("file:soft.store-%d?mode=memory&cache=shared", memoryDatabaseID.Add(1))
-				connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
+				connPool, err := sqlitex.NewPool(newMemoryDatabasePath(), sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 				if err != nil {
 					return nil, err
 				}
@@ -1996,25 +1991,27 @@ func (s *SQLStore) GetRoots() []EObject {
 
 func (s *SQLStore) doGetRoots() ([]EObject, error) {
 	table := s.schema.contentsTable
-	contents := []EObject{}
+	// retrieve object ids
+	objectIDs := []int64{}
 	if err := s.executeQuery(
 		table.selectQuery(nil, "", ""),
 		&sqlitex.ExecOptions{
 			ResultFunc: func(stmt *sqlite.Stmt) error {
-				// retrieve object id
-				objectID := stmt.ColumnInt64(0)
-				// decode object
-				object, err := s.decodeObject(objectID)
-				if err != nil {
-					return err
-				}
-				// add object to contents
-				contents = append(contents, object)
+				objectIDs = append(objectIDs, stmt.ColumnInt64(0))
 				return nil
 			},
 		}); err != nil {
 		return nil, err
 	}
+	// decode objects once the query is finished: it would prevent the next ones otherwise
+	contents := make([]EObject, 0, len(objectIDs))
+	for _, objectID := range objectIDs {
+		object, err := s.decodeObject(objectID)
+		if err != nil {
+			return nil, err
+		}
+		contents = append(contents, object)
+	}
 	return contents, nil
 }
 
@@ -2442,7 +2439,6 @@ func (s *SQLStore) All(object EObject, feature EStructuralFeature) iter.Seq[any]
 			s.scheduleOperation(
 				context.Background(),
 				newOperation("All", operationRead, object, feature, false, -1, nil, func() (any, error) {
-					interrupted := errors.New("interrupted")
 					sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
 					if err != nil {
 						return nil, err
@@ -2454,23 +2450,27 @@ func (s *SQLStore) All(object EObject, feature EStructuralFeature) iter.Seq[any]
 						return nil, err
 					}
 					featureTable := featureSchema.table
+					values := []any{}
 					if err := s.executeQuery(
 						s.getManyQueries(featureTable).getSelectAllQuery(),
 						&sqlitex.ExecOptions{
 							Args: []any{sqlObjectID},
 							ResultFunc: func(stmt *sqlite.Stmt) error {
-								value := decodeAny(stmt, 0)
-								decoded, err := s.decodeFeatureValue(featureSchema, value)
-								if err != nil {
-									return err
-								}
-								if !yield(decoded) {
-									return interrupted
-								}
+								values = append(values, decodeAny(stmt, 0))
 								return nil
-							}}); err != nil && err != interrupted {
+							}}); err != nil {
 						return nil, err
 					}
+					// decode values once the query is finished: it would prevent the next ones otherwise
+					for _, value := range values {
+						decoded, err := s.decodeFeatureValue(featureSchema, value)
+						if err != nil {
+							return nil, err
+						}
+						if !yield(decoded) {
+							break
+						}
+					}
 					return nil, nil
 				})))
 	}
-- 
2.43.0


From dd218a94ee091e3aab3acce22ce0502a6829b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 44/47] fix: queries of a database don't run while its schema
 is modified

---
 ecore/sqlbase.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 5c75d5d..8db26de 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -37,11 +37,12 @@ const (
 )
 
 type query struct {
-	id      int64
-	cmd     string
-	type_   queryType
-	tables  []string
-	promise *promise.Promise[any]
+	id        int64
+	cmd       string
+	type_     queryType
+	tables    []string
+	exclusive bool // no other query is active
+	promise   *promise.Promise[any]
 }
 
 func getTableIdentifiers(sources []sql.Source) (result []string) {
@@ -61,6 +62,7 @@ func getTableIdentifiers(sources []sql.Source) (result []string) {
 func newQuery(cmd string) *query {
 	var queryType queryType
 	var queryTables []string
+	var queryExclusive bool
 	parser := sql.NewParser(strings.NewReader(cmd))
 loop:
 	for {
@@ -70,6 +72,7 @@ loop:
 				// parser error - all tables - write
 				queryType = queryWrite
 				queryTables = nil
+				queryExclusive = true
 			}
 			break loop
 		}
@@ -80,8 +83,10 @@ loop:
 			queryType = queryRead
 			queryTables = append(queryTables, getTableIdentifiers([]sql.Source{s.Source})...)
 		case *sql.CreateTableStatement:
+			// the schema is modified
 			queryType = queryWrite
 			queryTables = append(queryTables, s.Name.Name)
+			queryExclusive = true
 		case *sql.InsertStatement:
 			queryType = queryWrite
 			queryTables = append(queryTables, s.Table.Name)
@@ -95,6 +100,7 @@ loop:
 			// unknown statement - all tables - write
 			queryType = queryWrite
 			queryTables = nil
+			queryExclusive = true
 			break loop
 		}
 	}
@@ -106,10 +112,11 @@ loop:
 	}
 
 	return &query{
-		id:     queryID.Add(1),
-		cmd:    cmd,
-		type_:  queryType,
-		tables: queryTables,
+		id:        queryID.Add(1),
+		cmd:       cmd,
+		type_:     queryType,
+		tables:    queryTables,
+		exclusive: queryExclusive,
 	}
 }
 
@@ -159,6 +166,20 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	// only one write to db is active
 	// multiple read to db is allowed
 	previous := map[*query]struct{}{}
+	if q.exclusive {
+		for _, sqliteQueries := range s.sqliteQueries {
+			for _, query := range sqliteQueries {
+				previous[query] = struct{}{}
+			}
+		}
+	} else {
+		// all the write queries are registered for the empty table
+		for _, query := range s.sqliteQueries[""] {
+			if query.exclusive {
+				previous[query] = struct{}{}
+			}
+		}
+	}
 	for _, table := range q.tables {
 		// previous
 		sqliteQueries := s.sqliteQueries[table]
-- 
2.43.0


From 09694a9ddb981c8074332500d8f933846aa6cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 45/47] fix: classes are encoded concurrently without sharing
 an unguarded map

---
 ecore/sqlencoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 041115e..0b46a24 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -182,6 +182,7 @@ type sqlEncoder struct {
 	*sqlBase
 	isForced         bool
 	isKeepDefaults   bool
+	classDataMutex   sync.Mutex // guards classDataMap: a class may be encoded while another one is
 	classDataMap     map[EClass]*sqlEncoderClassData
 	sqlIDManager     SQLEncoderIDManager
 	sqlObjectManager sqlObjectManager
@@ -584,7 +585,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 	e.sqlLockManager.lock(eClass)
 	defer e.sqlLockManager.unlock(eClass)
 
+	e.classDataMutex.Lock()
 	classData := e.classDataMap[eClass]
+	e.classDataMutex.Unlock()
 	if classData == nil {
 		logger.Debug("class data create")
 
@@ -648,8 +651,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 			features:  classFeatures,
 			hierarchy: classHierarchy,
 		}
+		e.classDataMutex.Lock()
 		e.classDataMap[eClass] = classData
-
+		e.classDataMutex.Unlock()
 	}
 	return classData, nil
 }
-- 
2.43.0


From 19b59d5c7771fccff383dacd89bc96c27d409f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 46/47] fix: reflective objects of classes with several super
 types use the feature numbers of their class

EFeatureID gave the number of the feature in its own class: reading or setting it
was about another feature.
---
 ecore/reflectiveeobject_impl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 995e4cb..2ce886d 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -60,6 +60,17 @@ func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	return isSetValue(o.getProperties()[dynamicFeatureID])
 }
 
+// EFeatureID is the number of a feature in the class of the object : with
+// several super types, it may differ from its number in its own class
+func (o *ReflectiveEObjectImpl) EFeatureID(feature EStructuralFeature) int {
+	return o.AsEObject().EClass().GetFeatureID(feature)
+}
+
+// EOperationID is the number of an operation in the class of the object
+func (o *ReflectiveEObjectImpl) EOperationID(operation EOperation) int {
+	return o.AsEObject().EClass().GetOperationID(operation)
+}
+
 func (o *ReflectiveEObjectImpl) getProperties() []any {
 	if o.properties == nil {
 		o.properties = make([]any, o.EClass().GetFeatureCount())
-- 
2.43.0


From 6ba6f71a3434d879f37359176d2cffa3566abb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 47/47] fix: store-backed objects keep their lists when unset
 values, caches or positions change

Unsetting a list left the previous one with a size and no elements (the listener
of the notification panicked), switching the cache replaced lists in use and
forgot transient values, a refused move left the list locked, and removing a range
told the callbacks the list of removed elements instead of each of them.
---
 ecore/estoreeobject_impl.go | 14 +++++++++++++-
 ecore/estorelist.go         |  5 +++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 8e97a72..525642e 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -110,7 +110,13 @@ func (o *EStoreEObjectImpl) SetCache(cache bool) {
 			}
 		}
 		if o.store != nil {
-			o.properties = nil
+			// forget the values that are in the store, they are read again. Lists
+			// may be in use and transient values are here only.
+			for featureID, v := range o.properties {
+				if _, isList := v.(EList); !isList && v != nil && !o.eDynamicFeature(featureID).IsTransient() {
+					o.properties[featureID] = nil
+				}
+			}
 		}
 	}
 	o.mutex.Unlock()
@@ -256,6 +262,12 @@ func (o *EStoreEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 	o.mutex.Lock()
 	// retrieve previous value and unset properties
 	if o.properties != nil {
+		// the previous list keeps its values : it is the old value of the notification
+		if list, isList := o.properties[dynamicFeatureID].(EList); isList {
+			if sp, isStoreProvider := list.(EStoreProvider); isStoreProvider {
+				sp.SetEStore(nil)
+			}
+		}
 		o.properties[dynamicFeatureID] = nil
 	}
 	eFeature := o.eDynamicFeature(dynamicFeatureID)
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index 8df61ce..f0f40e8 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -324,7 +324,7 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+				listCallbacks.DidRemove(i, object)
 			}
 			listCallbacks.DidChange()
 		} else {
@@ -364,6 +364,8 @@ func (list *EStoreList) performSet(index int, object any) any {
 
 func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 	list.mutex.Lock()
+	// an index out of bounds panics
+	defer list.mutex.Unlock()
 	var result any
 	if list.data != nil {
 		result = list.BasicENotifyingList.performMove(oldIndex, newIndex)
@@ -378,7 +380,6 @@ func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 			_ = list.store.Move(list.owner, list.feature, oldIndex, newIndex, false)
 		}
 	}
-	list.mutex.Unlock()
 	return result
 }
 
-- 
2.43.0

