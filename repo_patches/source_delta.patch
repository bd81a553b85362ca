From b768298ab52a9a24d2cb1265a6a8ded38c192915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 001/163] fix: an unset Long or Double feature reads as zero,
 not as 10

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 331f83588ac140641a4e3a697352a4aeb467a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 002/163] fix: an FSArray is a valid value of a feature whose
 range is a supertype of FSArray

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..c853c8d 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -165,7 +165,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(aType,featTypeCode) && !ts.subsumes(featTypeCode,aType) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 7dc84bfe7124427c288fdf1f2559e83f9d1daa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 003/163] fix: getFSValue refuses features of the boolean,
 byte, short, long and double types

---
 src/cas/featurestructure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c853c8d..3ada8af 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -134,6 +134,11 @@ namespace uima {
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
          || rangeType == uima::internal::gs_tyStringType
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( rTS.getFeatureName( internal::FSPromoter::demoteFeature(crFeature) ) );
-- 
2.43.0


From 2bc0831a8a14d371514b3b7fd4ebb78952619948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 004/163] fix: getStringValue and setStringValue refuse a
 feature which the type does not have

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 3ada8af..e2a3f40 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -439,6 +439,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -454,6 +455,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From 1b1514b29bed36783fca0cf0a23fd48cd60fe987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 005/163] fix: setFSValue of a default constructed feature
 structure is refused instead of dereferencing NULL

---
 src/cas/featurestructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index e2a3f40..ba78051 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -198,7 +198,8 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    if ( !EXISTS(anFS.iv_cas) ||
+         (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
-- 
2.43.0


From 26107fbd362d1b1cb8c3a9f282d75bed187785de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 006/163] fix: addString of a string which is on the string
 heap itself survives the heap's growth

---
 src/cas/uima/lowlevel_fsheap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..a556a57 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -364,9 +364,17 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        UChar const * cpSource = uls.getBuffer();
+        UChar const * cpOldStart = rtyStringHeap.getHeapStart();
+        // the string may itself be on this heap, which moves when it grows
+        bool bOnHeap = cpSource >= cpOldStart && cpSource < cpOldStart + rtyStringHeap.getTopOfHeap();
+        size_t uiOffset = bOnHeap ? (size_t)(cpSource - cpOldStart) : 0;
         int p = rtyStringHeap.increaseHeap(l + 1);
+        if (bOnHeap) {
+          cpSource = rtyStringHeap.getHeapStart() + uiOffset;
+        }
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        memcpy(rtyStringHeap.getHeapStart()+p, cpSource, uls.getSizeInBytes() );
         return p;
       }
 
-- 
2.43.0


From 31609ecdb7a72f0d2482008f9f535d90c220f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 007/163] fix: createFS refuses the array types, which need a
 size

---
 src/cas/cas.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..9c7fd52 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -409,7 +409,17 @@ namespace uima {
     case uima::internal::gs_tyByteType:
     case uima::internal::gs_tyShortType:
     case uima::internal::gs_tyLongType:
-    case uima::internal::gs_tyDoubleType: {
+    case uima::internal::gs_tyDoubleType:
+    // arrays have a size and are created by the create...ArrayFS methods
+    case uima::internal::gs_tyFSArrayType:
+    case uima::internal::gs_tyFloatArrayType:
+    case uima::internal::gs_tyIntArrayType:
+    case uima::internal::gs_tyStringArrayType:
+    case uima::internal::gs_tyBooleanArrayType:
+    case uima::internal::gs_tyByteArrayType:
+    case uima::internal::gs_tyShortArrayType:
+    case uima::internal::gs_tyLongArrayType:
+    case uima::internal::gs_tyDoubleArrayType: {
         ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
         errMessage.addParam( crType.getName() );
         UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
-- 
2.43.0


From 1dcc238434f00fd6f8210d328174a5f387049484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 008/163] fix: clone to an unrelated type copies no features

---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index ba78051..0441e2a 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -262,7 +262,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // copyFeatures takes 0 to mean all features of the type
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From 64c06bf1003ddee8fafff60cf9855c5378411e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 009/163] fix: bulk array copies check the range they touch,
 not its length

---
 src/cas/arrayfs.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..b883684 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -91,6 +91,22 @@ namespace uima {
     }
   }
 
+  // checks that the range [uiStart, uiStart + uiLength) lies in the array
+  void checkArrayRange(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t uiStart, size_t uiLength, TyMessageId tyContext) {
+    size_t uiSize = pFSSystem->getArraySize(tyFS);
+    if (uiStart > uiSize || uiLength > uiSize - uiStart) {
+      ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
+      err.addParam(uiStart + uiLength);
+      err.addParam(uiSize);
+      UIMA_EXC_THROW_NEW(FSArrayOutOfBoundsException,
+                         UIMA_ERR_FS_ARRAY_OUT_OF_BOUNDS,
+                         err,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +186,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd - uiStart, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +221,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 1c5ab9a8ffea196fae2688188fce0f3f3dcb9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 010/163] fix: appending a list to one with which it shares its
 end is refused as circular

---
 src/cas/listfs.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cas/listfs.cpp b/src/cas/listfs.cpp
index b8b31fe..7ac7a02 100644
--- a/src/cas/listfs.cpp
+++ b/src/cas/listfs.cpp
@@ -119,10 +119,16 @@ namespace uima {
   BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>::
   checkCircularity(lowlevel::TyFS tyFS1, lowlevel::TyFS tyFS2, TyMessageId tyContext) const {
     assert(EXISTS(iv_cas));
-    if ( tyFS1 == tyFS2 ) {
-      lowlevel::FSHeap const & crHeap = *iv_cas->getHeap();
-      lowlevel::TyFSType tyType1 = crHeap.getType( tyFS1 );
-      lowlevel::TyFSType tyType2 = crHeap.getType( tyFS2 );
+    lowlevel::FSHeap const & crHeap = *iv_cas->getHeap();
+    lowlevel::TyFSType tyType1 = crHeap.getType( tyFS1 );
+    lowlevel::TyFSType tyType2 = crHeap.getType( tyFS2 );
+    bool bSameEnd = (tyFS1 == tyFS2);
+    // linking the end of one list to the other makes a circle whenever they share their last element
+    if (! bSameEnd && tyType1 == NELIST_TYPE && tyType2 == NELIST_TYPE) {
+      size_t uiSize = 0;
+      bSameEnd = (getLastListElement(tyFS1, uiSize) == getLastListElement(tyFS2, uiSize));
+    }
+    if ( bSameEnd ) {
       // if both lists are empty we don't have any problem
       if (   tyType1 == ELIST_TYPE
              && tyType2 == ELIST_TYPE) {
-- 
2.43.0


From a8d34d7e5cb59d41283ab7489a419f2d3ea68ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 011/163] fix: createAnnotation refuses a type which is not an
 annotation type instead of corrupting the heap

---
 src/cas/cas.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 9c7fd52..bb6c619 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -787,8 +787,7 @@ namespace uima {
       return AnnotationFS();
     }
     assert(EXISTS(iv_heap));
-    assert( getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION).subsumes(type) );
-    if (!type.isValid()) {
+    if (!type.isValid() || !getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION).subsumes(type)) {
       UIMA_EXC_THROW_NEW(InvalidFSTypeObjectException,
                          UIMA_ERR_INVALID_FSTYPE_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FSTYPE_OBJECT,
-- 
2.43.0


From e77b4a8a562b475a4d05fbe5684d72a6cbd87c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 012/163] fix: isStringSubType of an invalid type raises an
 exception like the other queries

---
 src/cas/typesystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/typesystem.cpp b/src/cas/typesystem.cpp
index e4e0f63..405a8c6 100644
--- a/src/cas/typesystem.cpp
+++ b/src/cas/typesystem.cpp
@@ -248,6 +248,7 @@ namespace uima {
   }
 
   bool Type::isStringSubType() const {
+    checkValidity();
     return iv_typeSystem->isStringSubType(iv_tyType);
   }
 
-- 
2.43.0


From 3eb0ee46e952d4bf92a538093231c0d2e2d2cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 013/163] fix: primitive accessors refuse a feature whose range
 is a supertype of the primitive type

---
 src/cas/featurestructure.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 0441e2a..1c2ddff 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -124,6 +124,14 @@ namespace uima {
     }
   }
 
+  // the types whose values are stored in the feature cell and are no feature structures
+  static bool isPrimitiveType(lowlevel::TyFSType aType) {
+    return aType == uima::internal::gs_tyIntegerType || aType == uima::internal::gs_tyFloatType
+           || aType == uima::internal::gs_tyBooleanType || aType == uima::internal::gs_tyByteType
+           || aType == uima::internal::gs_tyShortType || aType == uima::internal::gs_tyLongType
+           || aType == uima::internal::gs_tyDoubleType;
+  }
+
   /**
    * checks if the range type of the feature is not built-in.
    */
@@ -181,7 +189,10 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType )
+                // a feature with range TOP holds references, never primitive values
+                || (isPrimitiveType(aType)
+                    && ts.getRangeType(internal::FSPromoter::demoteFeature(f)) != aType) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 636bf9398142d4f38d90fb2f3408c00d122a5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 014/163] fix: the list accessors refuse invalid structures and
 features which the type does not have

---
 src/cas/featurestructure.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 1c2ddff..d3b6b29 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -585,18 +585,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From b586f5acecae04968f0a9ffaf25e279ff931dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 015/163] fix: createTypeSystemDescription opens the named
 file, not its name's bytes read as UTF-16

---
 src/framework/engine.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..4933ff4 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -584,11 +584,9 @@ namespace uima {
 
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
-    XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    builder.parseTypeSystemDescription(*tsDesc,fileIS);
-	return tsDesc;
+    // the builder converts the file name and remembers it for relative imports
+    TextAnalysisEngineSpecifierBuilder builder;
+    return builder.buildTypeSystemSpecifierFromFile(crFileName);
   }
 
 
-- 
2.43.0


From f43c90295554c65e13c335a20fbe502b854df698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 016/163] fix: createTypeSystem from a file resolves relative
 imports against that file

---
 src/framework/engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 4933ff4..b008fe6 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -466,6 +466,7 @@ namespace uima {
     
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
     pAe->setTypeSystemDescription(tsDesc);
 
-- 
2.43.0


From 0525881973c2c4e0672a5af9f87578a332938d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 017/163] fix: descriptors in UTF-16 buffers are parsed from
 memory which is still alive

---
 src/framework/engine.cpp              | 12 ++++++++----
 src/framework/taespecifierbuilder.cpp |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index b008fe6..c8438c7 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -489,8 +489,10 @@ namespace uima {
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    // the input source keeps a pointer to the buffer
+    std::string utf8(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *)utf8.c_str(),
+		                    utf8.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -577,8 +579,10 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    // the input source keeps a pointer to the buffer
+    std::string utf8(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(),
+		                     utf8.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..e5dcff0 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2032,7 +2032,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
 	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    // the input source keeps a pointer to the buffer
+    std::string utf8(uref.asUTF8());
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From 2c3ebb293b253ee3de3bc4af6713ab4f4e3eb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 018/163] fix: committing a type system description keeps the
 types it imports

---
 src/framework/uima/typesystemdescription.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index f97b343..4225af8 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -364,10 +364,11 @@ namespace uima {
     }
 
     void commit() {
-      iv_bIsModifiable = false;
-
+      // imported types are added to this description, which must still be modifiable
       std::vector<icu::UnicodeString> alreadyImportedLocations;
       resolveImports(alreadyImportedLocations);
+
+      iv_bIsModifiable = false;
       size_t i;
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
-- 
2.43.0


From 8fc57f5fdda893f19d4320c99164a026703bd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 019/163] fix: createTypeSystem from a file, buffer or metadata
 resolves the imports of the description

---
 src/framework/casdefinition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..9c78fbb 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -699,7 +699,11 @@ namespace uima {
 
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(AnalysisEngineMetaData const & casSpecifier) {
-
+      // resolve imports
+      if (casSpecifier.isModifiable()) {
+        AnalysisEngineMetaData & ae = CONST_CAST(AnalysisEngineMetaData &, casSpecifier);
+        ae.commit();
+      }
       uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
       assert( EXISTS(pTypeSystem) );
       CASDefinition * result = new CASDefinition(*pTypeSystem);
-- 
2.43.0


From c71fb94ca417696075564fe68c478dbc9e852f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 020/163] fix: a cycle of supertypes is refused instead of
 recursing without end

---
 src/framework/casdefinition.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 9c78fbb..c68a4a9 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -378,6 +378,22 @@ namespace uima {
       TypeSystemDescription::TyVecpTypeDescriptions const & crTypeDescVector = crTSDesc.getTypeDescriptions();
       TypeSystemDescription::TyVecpTypeDescriptions::const_iterator cit;
 
+      // the supertypes must not form a cycle
+      for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
+        TypeDescription const * pTypeDesc = *cit;
+        size_t steps = 0;
+        while (crTSDesc.hasTypeDescription(pTypeDesc->getSuperTypeName())) {
+          pTypeDesc = crTSDesc.getTypeDescription(pTypeDesc->getSuperTypeName());
+          if (++steps > crTypeDescVector.size()) {
+            UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                               UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                               ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, (*cit)->getName()),
+                               ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                               ErrorInfo::recoverable);
+          }
+        }
+      }
+
       // create types
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
         TypeDescription const * pTypeDesc = *cit;
-- 
2.43.0


From 6a1f65fd0919394c1416224fe09ebf702a8d6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 021/163] fix: a feature declared by a type and its supertype
 is one feature, whatever the order of the descriptions

---
 src/framework/casdefinition.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index c68a4a9..2c6ac04 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -33,6 +33,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
+#include <algorithm>
 
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
@@ -369,6 +370,10 @@ namespace uima {
       return *iv_indexDefinition;
     }
 
+    static bool lessDepth(pair<size_t, TypeDescription const *> const & a, pair<size_t, TypeDescription const *> const & b) {
+      return a.first < b.first;
+    }
+
     void CASDefinition::mergeTypeSystem(TypeSystemDescription const & crTSDesc,
                                         icu::UnicodeString const & crCreatorID) {
       //icu::UnicodeString const & crCreatorID = crAEMDSpecifier.getName();
@@ -401,9 +406,22 @@ namespace uima {
         mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID );
       }
 
-      // create features
+      // supertypes come first, so that a feature which a subtype declares again
+      // is recognised as the inherited one whatever the order of the descriptions
+      vector< pair<size_t, TypeDescription const *> > byDepth;
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
-        TypeDescription const * pTypeDesc = *cit;
+        size_t depth = 0;
+        uima::lowlevel::TyFSType type = rTypeSystem.getTypeByName( (*cit)->getName() );
+        for ( ; rTypeSystem.isValidType(type) && type != rTypeSystem.getTopType(); type = rTypeSystem.getParentType(type)) {
+          ++depth;
+        }
+        byDepth.push_back( pair<size_t, TypeDescription const *>(depth, *cit) );
+      }
+      stable_sort(byDepth.begin(), byDepth.end(), lessDepth);
+
+      // create features
+      for (size_t uiType = 0; uiType < byDepth.size(); ++uiType) {
+        TypeDescription const * pTypeDesc = byDepth[uiType].second;
         uima::lowlevel::TyFSType introType = rTypeSystem.getTypeByName( pTypeDesc->getName() );
         // type must have been merged before
         assert( rTypeSystem.isValidType(introType) );
-- 
2.43.0


From 329a15c2f7c5022895087a6a23ac909dcdb665c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 022/163] fix: the 8, 16 and 64 bit types, their arrays and
 string subtypes are final like the other primitive types

---
 src/cas/uima/lowlevel_typesystem.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..4477645 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -297,8 +297,19 @@ namespace uima {
        */
       bool isAllowedToAddSubTypes(TyFSType tyType) const {
         assert( isValidType(tyType) );
-        // Integer, Float, String, ArrayBase, FSArray, IntArray, FloatArray, StringArray
+        // the primitive types, the string subtypes and the array types
         return (!isBuiltinType(tyType))
+               && !subsumes(uima::internal::gs_tyStringType, tyType)
+               && (tyType != uima::internal::gs_tyBooleanType)
+               && (tyType != uima::internal::gs_tyByteType)
+               && (tyType != uima::internal::gs_tyShortType)
+               && (tyType != uima::internal::gs_tyLongType)
+               && (tyType != uima::internal::gs_tyDoubleType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType)
                && (tyType != uima::internal::gs_tyArrayBaseType)
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
-- 
2.43.0


From 20f361c444edeb1bd2fe8ad023eb56ee714eeab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 023/163] fix: getCreatorID of a feature returns its creator,
 not its name

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..3d47ad3 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From b19d420d6489218292065cbff62ddf49dacc9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 024/163] fix: removing from a sorted index removes the given
 feature structure, not one with an equal or greater key

---
 src/cas/lowlevel_internal_indexes.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..dbdff27 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -650,8 +650,11 @@ namespace uima {
 
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
-        TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
-        if ( it != iv_tyStructures.end() ) {
+        // the feature structures with equal keys are next to each other, in any order
+        pair<TyStructures::iterator, TyStructures::iterator> range =
+          equal_range( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
+        TyStructures::iterator it = std::find( range.first, range.second, fs );
+        if ( it != range.second ) {
           iv_tyStructures.erase(it);
         }
       }
-- 
2.43.0


From 10ddc41882c49fdf27b6bd052544cd247e9e62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 025/163] fix: removing a feature structure which no index
 covers takes it out of the repository

---
 src/cas/uima/lowlevel_indexrepository.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..6d04b44 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -275,6 +275,12 @@ namespace uima {
         assert( (*it)->getType() == type );
         (*it)->remove(fs);
       }
+      if (typeIndexes.empty()) {
+        std::vector<TyFS>::iterator itUndefined = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (itUndefined != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(itUndefined);
+        }
+      }
     }
 
 
-- 
2.43.0


From ba64cfc5136a278b6eacf83fc7b44045a2e68473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 026/163] fix: the indexes of supertypes forget what they
 cached when a feature structure is removed

---
 src/cas/uima/lowlevel_indexrepository.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index 6d04b44..0f5abe9 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -270,6 +270,9 @@ namespace uima {
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
+      assert( type < iv_cacheDirtyFlags.size() );
+      iv_cacheDirtyFlags[type].clear();
+
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
         assert( (*it)->getType() == type );
@@ -287,12 +290,14 @@ namespace uima {
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From be3575ffc2fcc637e1712b6c3bd7370bea56f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 027/163] fix: a set index over a type with subtypes is visited
 in key order, not in heap order

---
 src/cas/lowlevel_internal_indexes.cpp      | 2 +-
 src/cas/uima/lowlevel_internal_indexes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index dbdff27..58a59d5 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -555,7 +555,7 @@ namespace uima {
       SetCompositeIndex::SetCompositeIndex(IndexRepository const & crIndexRepository,
                                            uima::lowlevel::TyFSType tyType,
                                            IndexComparator const * aComparator)
-          : CachedCompositeIndex<set<TyFS> >(crIndexRepository, tyType, aComparator) {}
+          : OrderedCompositeIndex(crIndexRepository, tyType, aComparator) {}
 
 
 
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..619ada5 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -387,7 +387,7 @@ namespace uima {
       /**
        * A composite set index.
        */
-      class SetCompositeIndex : public CachedCompositeIndex<std::set<TyFS> > {
+      class SetCompositeIndex : public OrderedCompositeIndex {
       protected:
       public:
         SetCompositeIndex(IndexRepository const & aIndexRepository,
-- 
2.43.0


From aa1345558b662a4f59d491521cfa948d9ef400a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 028/163] fix: moveTo in a bag index moves to the feature
 structure, not past it

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 58a59d5..9ee0b18 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From e800091d204a458c1352a742c8a521d449466e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 029/163] fix: moveTo of a filtered iterator skips the elements
 which the filter rejects

---
 src/cas/lowlevel_index.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..ea1ac89 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,11 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        if (!iv_pIterator->moveTo(fs)) {
+          return false;
+        }
+        moveToNextUnfiltered();
+        return iv_pIterator->isValid();
       }
 
     };
-- 
2.43.0


From 528d8ea61d5480d639e44d2eaea1539c9e73802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 030/163] fix: a default constructed iterator can be copied and
 assigned

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From 91f98046c47a70d7234789af216d6196d5d44835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 031/163] fix: a feature structure which several indexes hold
 is listed once among the indexed ones

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From 3c25262c7a2842bfaf370aaa2f7f8001e0a046b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 032/163] fix: asking for an index by an unknown label raises
 an exception instead of reading past the map

---
 src/cas/uima/lowlevel_indexdefinition.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexdefinition.hpp b/src/cas/uima/lowlevel_indexdefinition.hpp
index e24a25a..8f48fc5 100644
--- a/src/cas/uima/lowlevel_indexdefinition.hpp
+++ b/src/cas/uima/lowlevel_indexdefinition.hpp
@@ -192,6 +192,9 @@ namespace uima {
       TyFSType getTypeForIndex(TyIndexID const & crID) const {
         //assert( isValidIndexId(crID) );
 	std::map<TyIndexID, TyFSType>::const_iterator cit = iv_mapIndexTypes.find(crID);
+        if (cit == iv_mapIndexTypes.end()) {
+          return TypeSystem::INVALID_TYPE;
+        }
         return (*cit).second;
       }
 
-- 
2.43.0


From c4d6762c6dbf7425cc0ea9021e065194c1c0907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 033/163] fix: a type-set iterator over an index without
 subtypes honours an empty set of types

---
 src/cas/lowlevel_internal_indexes.cpp      | 4 ++++
 src/cas/uima/lowlevel_internal_indexes.hpp | 8 +-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 9ee0b18..c6c5ae0 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -563,6 +563,10 @@ namespace uima {
           : IndexABase(crIndexRepository, tyType) {}
 
       // generic implementation here, may be optimized for subclasses
+      IndexIterator* SingleIndex::createTypeSetIterator(set<uima::lowlevel::TyFSType> const & crTypes) const {
+        return new TypeSetIterator( createIterator(), crTypes );
+      }
+
       bool SingleIndex::contains(TyFS tyFS) const {
         unique_ptr<IndexIterator> it( createIterator() );
         for (it->moveToFirst(); it->isValid(); it->moveToNext()) {
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 619ada5..63e168c 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -91,13 +91,7 @@ namespace uima {
          */
         virtual bool contains(TyFS) const;
 
-        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const {
-          assert( crType.size() <= 1 );
-          if (crType.size() == 1) {
-            assert( *(crType.begin()) == getType() );
-          }
-          return createIterator();
-        }
+        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crTypes) const;
       };
 
 
-- 
2.43.0


From bc356475177c9491fcbe3ec10e9118725e33145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 034/163] fix: getCoveredText of an annotation outside the
 document text raises an exception

---
 src/cas/cas.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index bb6c619..5f370f8 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1322,8 +1322,9 @@ namespace uima {
     if (isValid()) {
       AnnotationFS* grr = const_cast<AnnotationFS*>(this);
       CAS * myCas = grr->getView();
-      if (myCas->iv_uiDocumentLength > 0) {
-        assert( getEndPosition() <= myCas->iv_uiDocumentLength );
+      if (myCas->iv_uiDocumentLength > 0
+          && getBeginPosition() <= getEndPosition()
+          && getEndPosition() <= myCas->iv_uiDocumentLength) {
         size_t uiBegin = getBeginPosition();
         UChar const * puc = myCas->iv_cpDocument;
         puc += uiBegin;
-- 
2.43.0


From b4609ddbc5c93d72a205d809f719928b24f5b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 035/163] fix: backward iteration of a subiterator ends at its
 annotation

---
 src/cas/cas.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 5f370f8..9f47ac4 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1459,6 +1459,19 @@ namespace uima {
         delete iv_pIterator;
       }
 
+      // true if an annotation with the same begin position comes before the FS we
+      // iterate under: it is longer or, if equally long, of a type with higher priority
+      bool isBeforeFirst(TyFS fs) const {
+        int iEnd = iv_heap->getIntValue(fs, uima::internal::gs_tyEndPosFeature);
+        int iFirstEnd = iv_heap->getIntValue(iv_tyMoveToFirstFS, uima::internal::gs_tyEndPosFeature);
+        if (iEnd != iFirstEnd) {
+          return iEnd > iFirstEnd;
+        }
+        uima::lowlevel::TypeSystem const & ts = iv_heap->getTypeSystem();
+        return ts.getTypePriorityNumber(iv_heap->getType(fs))
+               < ts.getTypePriorityNumber(iv_heap->getType(iv_tyMoveToFirstFS));
+      }
+
       void moveToFirst() {
         UIMA_TPRINT("lowlevel::SubIterator::moveToFirst() entered");
         assert( EXISTS(iv_pIterator) );
@@ -1488,7 +1501,10 @@ namespace uima {
         iv_pIterator->moveToPrevious();
         if (isValid()) {
           if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
-            iv_pIterator->moveToPrevious();
+            // nothing before the FS we iterate under belongs to us
+            while (isValid()) {
+              iv_pIterator->moveToPrevious();
+            }
           }
         }
       }
@@ -1546,7 +1562,11 @@ namespace uima {
         TyFS fsCurrent = iv_pIterator->get();
         size_t uiCurrBegPos = iv_heap->getIntValue(fsCurrent, uima::internal::gs_tyBeginPosFeature);
         // true if current begin is between begin and end pos of our span
-        return(uiCurrBegPos >= iv_uiBegPos && uiCurrBegPos < iv_uiEndPos);
+        if (uiCurrBegPos < iv_uiBegPos || uiCurrBegPos >= iv_uiEndPos) {
+          return false;
+        }
+        // and the current FS does not come before the FS we iterate under
+        return uiCurrBegPos > iv_uiBegPos || ! isBeforeFirst(fsCurrent);
       }
 
       IndexIterator* clone() const {
-- 
2.43.0


From 0c13bb17c76a507aed8f738b9edca9b4635249de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 036/163] fix: asking a view without sofa for its sofa data no
 longer crashes

---
 src/cas/cas.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 9f47ac4..765a964 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -850,7 +850,8 @@ namespace uima {
       assertWithMsg(false, "no Sofa data in Base CAS!");
       return FeatureStructure();
     }
-    return getSofa().getLocalFSData();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getLocalFSData() : FeatureStructure();
   }
 
   void CAS::setSofaDataURI(icu::UnicodeString const & uri, icu::UnicodeString const & mime) {
@@ -868,14 +869,16 @@ namespace uima {
       assertWithMsg(false, "no Sofa data in Base CAS!");
       return UnicodeStringRef();
     }
-    return getSofa().getSofaURI();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getSofaURI() : UnicodeStringRef();
   }
 
   SofaDataStream * CAS::getSofaDataStream() {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    return getSofa().getSofaDataStream();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getSofaDataStream() : NULL;
   }
 
 
-- 
2.43.0


From cfc489bbbbe5aa886d842781d4193041471e29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 037/163] fix: view of an annotation created before its view
 had a sofa

---
 src/cas/cas.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 765a964..74be85e 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1180,7 +1180,8 @@ namespace uima {
                                             internal::FSPromoter::demoteType(internal::FSPromoter::promoteFS(tyCell, *this).getType()))) {
       // an annotation. Check that sofaNum agrees with current CAS
       lowlevel::TyFS annSofaAddr = getHeap()->getFSValue(tyCell, internal::gs_tySofaRefFeature);
-      if ( annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
+      if ( annSofaAddr != lowlevel::FSHeap::INVALID_FS
+           && annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
         int annSofaNum = getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         return *getViewBySofaNum(annSofaNum);
@@ -1303,6 +1304,10 @@ namespace uima {
   CAS * AnnotationFS::getView() {
     assert(EXISTS(iv_cas));
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
+    if (annSofaAddr == lowlevel::FSHeap::INVALID_FS) {
+      // created before its view had a Sofa
+      return iv_cas;
+    }
     int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
     return iv_cas->getViewBySofaNum(annSofaNum);
   }
-- 
2.43.0


From ed28ec127d03387691123b30e052068b494ebef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 038/163] fix: mime type given with sofa data is kept when the
 sofa exists already

---
 src/cas/cas.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 74be85e..0a098a7 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -732,6 +732,8 @@ namespace uima {
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mimetype);
+    } else {
+      thisSofa.setSofaMime(mimetype);
     }
     setDocumentText(text);
   }
@@ -841,8 +843,10 @@ namespace uima {
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mime);
+    } else {
+      thisSofa.setSofaMime(mime);
     }
-    getSofa().setLocalSofaData(array);
+    thisSofa.setLocalSofaData(array);
   }
 
   FeatureStructure CAS::getSofaDataArray() {
@@ -858,10 +862,13 @@ namespace uima {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    if (!getSofa().isValid()) {
-      createInitialSofa(mime);
+    SofaFS thisSofa = getSofa();
+    if (!thisSofa.isValid()) {
+      thisSofa = createInitialSofa(mime);
+    } else {
+      thisSofa.setSofaMime(mime);
     }
-    getSofa().setRemoteSofaURI(uri);
+    thisSofa.setRemoteSofaURI(uri);
   }
 
   UnicodeStringRef CAS::getSofaDataURI() {
-- 
2.43.0


From e489c8d5ae18b6f062991be078d382b608e35e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 039/163] fix: createSofa with the reserved name creates the
 sofa of the initial view

---
 src/cas/cas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 0a098a7..45b0dcc 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -953,6 +953,10 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
+    // the Sofa with the reserved name is the one of the initial view
+    if ( 0 == sofaName.compare(icu::UnicodeString(CAS::NAME_DEFAULT_SOFA)) && !isInitialSofaCreated() ) {
+      return createInitialSofa(mimeType);
+    }
     Type sofaT = getTypeSystem().getType(CAS::TYPE_NAME_SOFA);
     lowlevel::TyFS tySofa = iv_heap->createFS(internal::FSPromoter::demoteType(sofaT));
     SofaFS newSofa = (SofaFS)internal::FSPromoter::promoteFS(tySofa, *this->iv_baseCas);
-- 
2.43.0


From 623b05262c1a0c2e2777240b6799c97b9a31eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 040/163] fix: document text can be set again to the empty
 string or to a part of itself

---
 src/cas/cas.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 45b0dcc..adea9ed 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -302,9 +302,10 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
+    this->iv_cpDocument = NULL;
+    if (this->iv_copyOfDocument != NULL) {
+      delete[] this->iv_copyOfDocument;
+      this->iv_copyOfDocument = NULL;
     }
     //initial call to delete object
     if (this->isbaseCas) {
@@ -713,7 +714,7 @@ namespace uima {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
     copyDocumentString(text);
-    thisSofa.setLocalSofaData(text);
+    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
   // internal use only
@@ -722,7 +723,7 @@ namespace uima {
     SofaFS thisSofa = getSofa();
     assert( thisSofa.isValid() );
     thisSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
-                            getHeap()->getTypeSystem()), text);
+                            getHeap()->getTypeSystem()), UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
   void CAS::setSofaDataString(UnicodeStringRef const text, icu::UnicodeString const & mimetype) {
@@ -1047,8 +1048,8 @@ namespace uima {
     if (thisSofa.isValid()) {
       lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(thisSofa);
       UnicodeStringRef pDoc = iv_heap->getStringValue(tySofa, internal::gs_tySofaStringFeature);
-      if (pDoc.length() > 0) {
-        copyDocumentString(pDoc);
+      copyDocumentString(pDoc);
+      if (pDoc.length() > 0 || iv_tyDocumentAnnotation != uima::lowlevel::FSHeap::INVALID_FS) {
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
@@ -1094,16 +1095,18 @@ namespace uima {
   void CAS::copyDocumentString(UnicodeStringRef pDoc) {
     // must have a 2nd copy of the document because the copy in the stringHeap will
     // move when the stringHeap grows, unlike the older segmented heap.
-    if (pDoc.length() == 0) {
-      return;
+    // The new copy is made first, pDoc may be (a part of) the current one.
+    size_t len = pDoc.length();
+    UChar * newCopy = NULL;
+    if (len > 0) {
+      newCopy = new UChar [len + 1];
+      memcpy(newCopy, pDoc.getBuffer(), 2*len);
+      // The internal document must be 0 terminated!
+      newCopy[len] = 0;
     }
     if (iv_copyOfDocument)
       delete [] iv_copyOfDocument;
-    size_t len = pDoc.length();
-    iv_copyOfDocument = new UChar [len + 1];
-    memcpy(iv_copyOfDocument, pDoc.getBuffer(), 2*len);
-    // The internal document must be 0 terminated!
-    iv_copyOfDocument[len] = 0;
+    iv_copyOfDocument = newCopy;
     iv_cpDocument = iv_copyOfDocument;
     iv_uiDocumentLength = len;
   }
-- 
2.43.0


From 72313a42bece190d1f90582bd085059cf843378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 041/163] fix: the document annotation is re-indexed under its
 new span and names its sofa

---
 src/cas/cas.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index adea9ed..f944988 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1051,10 +1051,11 @@ namespace uima {
       copyDocumentString(pDoc);
       if (pDoc.length() > 0 || iv_tyDocumentAnnotation != uima::lowlevel::FSHeap::INVALID_FS) {
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
+        // re-index the annotation, taking it out before its key changes
+        iv_indexRepository->remove(iv_tyDocumentAnnotation);
+        iv_heap->setFSValue( iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature, tySofa);
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
-        // re-index the annotation
-        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_indexRepository->add(iv_tyDocumentAnnotation);
       }
     }
-- 
2.43.0


From 56d760d66cddb0b84fa408be7a6446506db526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 042/163] fix: swapping a blob of the other byte order keeps
 all 8 bytes of 64 bit cells

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..dff0b57 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -732,7 +732,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      in = *(INT64*)output;
       return in;
     }
 
-- 
2.43.0


From ddf1753b81db22297473cc7ac25535eb2692754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 043/163] fix: a blob's FSs are indexed after all heaps holding
 their key values are restored

---
 src/cas/internal_casdeserializer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index dff0b57..5223bbf 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -898,13 +898,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // indexed FSs, added to the indexes when all heaps they refer to are there
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -933,14 +931,16 @@ namespace uima {
       //64 bit heap
       ty64BitHeap.reset();
       size_t ui64BitHeapLength = intPtr[0];
-      if (ui64BitHeapLength > 0) {
+      if (ui64BitHeapLength > 1) {
         //CHECK(intPtr[1] == 0);
         ty64BitHeap.increaseHeap(ui64BitHeapLength-1);
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
-
+      // create FS indexes
+      if (!iv_vecIndexedFSs.empty()) {
+        deserializeIndexedFSs(iv_vecIndexedFSs, *rCAS.getBaseCas());
+      }
     }
 
     void CASDeserializer::deserializeData(uima::internal::SerializedCAS const & crSerializedCAS,
-- 
2.43.0


From 22d2f0771a26737b183ba992a01626fd6c9999cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 044/163] fix: reading a blob replaces the content of every
 view

---
 src/cas/internal_casdeserializer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 5223bbf..bd28ee0 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -635,7 +635,9 @@ namespace uima {
       crIndexRep->reset();
 
       // deserialize base CAS
-      if (loopSize > 0) {
+      if (0 == loopSize) {
+        cit++;
+      } else {
         lastSegmentUsed = 0;
         perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit+1, cit+1+loopSize);
         cit += loopSize + 1;
@@ -855,6 +857,9 @@ namespace uima {
       CHECK(intPtr[0] == ((int*)key)[0]);
       CHECK(intPtr[1] == 1);
 
+      // drop what the CAS and all its views hold
+      rCAS.getBaseCas()->reset();
+
       // get a heap of references
       uima::internal::CASImpl & crCASImpl = uima::internal::CASImpl::promoteCAS(rCAS);
       uima::lowlevel::FSHeap & crHeap = crCASImpl.getHeap();
-- 
2.43.0


From 8c8e71f614f7f13efe5b0d8cd53c69e993aed991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 045/163] fix: a view whose document annotation is not indexed
 gets its text from a blob

---
 src/cas/cas.cpp                      | 15 +++++++++------
 src/cas/internal_casdeserializer.cpp |  3 +++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index f944988..3048ae9 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1066,14 +1066,17 @@ namespace uima {
     ANIndex ai = getAnnotationIndex(iv_heap->getTypeSystem().
                                     getType(CAS::TYPE_NAME_DOCUMENT_ANNOTATION));
     ANIterator ait = ai.iterator();
-    // Not valid if a non-text or remote sofa
-    if ( ! ait.isValid() ) {
+    // Not valid if a non-text or remote sofa, or when it was not indexed
+    if ( ait.isValid() ) {
+      iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
+      iv_uiDocumentLength = ait.get().getEndPosition();
+    }
+    SofaFS thisSofa = getSofa();
+    if ( ! thisSofa.isValid() ) {
       return;
     }
-    iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
-    iv_uiDocumentLength = ait.get().getEndPosition();
-    uima::lowlevel::TyFS sofaAddr = iv_heap->getFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature);
-    UnicodeStringRef pDoc = iv_heap->getStringValue(sofaAddr, internal::gs_tySofaStringFeature);
+    UnicodeStringRef pDoc = iv_heap->getStringValue(internal::FSPromoter::demoteFS(thisSofa),
+                            internal::gs_tySofaStringFeature);
     copyDocumentString(pDoc);
   }
 
diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index bd28ee0..33ae048 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -670,6 +670,9 @@ namespace uima {
         loopSize = *cit;
         if (0 == loopSize) {
           cit++;
+          if (rCAS.getSofa(view).isValid()) {
+            rCAS.getViewBySofaNum(view)->pickupDocumentAnnotation();
+          }
           continue;
         }
 
-- 
2.43.0


From 2dd02c8e22021c14ea95403a9e974664d26e8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 046/163] fix: reading a reference to an annotation without a
 Sofa creates no second initial view

---
 src/cas/featurestructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index d3b6b29..075be9b 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -295,7 +295,8 @@ namespace uima {
             internal::FSPromoter::demoteType(internal::FSPromoter::promoteFS(resultAddr, *iv_cas).getType()))) {
       // an annotation. Check that sofaNum agrees with current CAS
       lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(resultAddr, internal::gs_tySofaRefFeature);
-      if ( annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
+      if ( annSofaAddr != uima::lowlevel::FSHeap::INVALID_FS
+           && annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
         int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         CAS* annTcas = iv_cas->getViewBySofaNum(annSofaNum);
-- 
2.43.0


From 8e697c3db91563dc8768643abe0fd2ee8a232fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 047/163] fix: serialized definitions own their index names

---
 src/cas/internal_casserializer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index de4030b..78382d6 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -259,8 +259,9 @@ namespace uima {
       size_t i;
       for (i=0; i<uiIndexNum; ++i) {
         uima::lowlevel::IndexDefinition::TyIndexID const & crIndexID = vecIndexIDs[i];
-        rSerializedCAS.iv_vecIndexIDTable[i] = createString( crIndexID.getBuffer(),
-                                               crIndexID.length(), rSerializedCAS);
+        // vecIndexIDs does not outlive this call
+        rSerializedCAS.iv_vecIndexIDTable[i] = rSerializedCAS.addString(
+              UnicodeStringRef(crIndexID.getBuffer(), crIndexID.length()) );
         rSerializedCAS.iv_vecIndexKindTable[i] = indexDef.getIndexKind( crIndexID );
         UIMA_TPRINT("Index ID: " << crIndexID );
         // start of the next comparator definition
-- 
2.43.0


From 9c8b54bd35db6ae964050cbac3d8f1bd16203e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 048/163] fix: a stream handler setting that does not end in a
 pair is parsed without reading past it

---
 src/framework/resmgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..7e237fe 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -270,6 +270,8 @@ namespace uima {
         while (*curptr == ' ')
           ++curptr;
         chptr = strchr(curptr, ':');
+        if (chptr == NULL) //no further pair
+          break;
 
         int len = chptr - curptr;
         if (len > 0) {
-- 
2.43.0


From 1e68fe3aa38230b9531ce62f8116848b4211608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 049/163] fix: reading a local sofa stream returns the number
 of whole elements read

---
 src/cas/sofastream.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..fb1922d 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -466,10 +466,15 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    INT64 numbytesread=elementSize*numElements;
-    if (numbytesread > howManyBytesAvailable() ) {
-      numbytesread= howManyBytesAvailable();
+    //only whole elements are read
+    size_t numelementsread = (iv_size - iv_curpos) / elementSize;
+    if (numelementsread == 0) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    if (numelementsread > numElements) {
+      numelementsread = numElements;
     }
+    size_t numbytesread = numelementsread * elementSize;
 
     //read bytes
     memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
@@ -477,7 +482,7 @@ namespace uima {
     //move current read position
     iv_curpos += numbytesread;
 
-    return numbytesread;
+    return numelementsread;        // return number of elements read
   }
 
   //seek
-- 
2.43.0


From e8afc35455c2bfe85d4dbd77d969fc2a286ffd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 050/163] fix: the element size is checked for every kind of
 sofa array

---
 src/cas/sofastream.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index fb1922d..cf75118 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -464,6 +464,51 @@ namespace uima {
                          errMsg,
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
+    } else if (iv_isbooleanarray && elementSize != sizeof(char) ) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_BOOLEAN_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if (iv_isbytearray && elementSize != sizeof(char) ) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_BYTE_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if (iv_isshortarray && elementSize != sizeof(short) ) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_SHORT_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if (iv_islongarray && elementSize != sizeof(INT64) ) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_LONG_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if (iv_isdoublearray && elementSize != sizeof(double) ) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_DOUBLE_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
     }
 
     //only whole elements are read
@@ -530,6 +575,11 @@ namespace uima {
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
   }
 
   //getDataPointer
-- 
2.43.0


From d247c7141ca021be7357bf25e4478358536e0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 051/163] fix: seeking outside of the sofa data is refused

---
 src/cas/sofastream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index cf75118..8898ca3 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -542,15 +542,16 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 newpos = 0;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      newpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      newpos = iv_curpos + offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      newpos = iv_size - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -561,6 +562,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //the position stays inside the data
+    if (newpos < 0 || newpos > iv_size) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = newpos;
     return 0;
   }
 
-- 
2.43.0


From 240b3fc77210d3507cc13a5e5ff7b0fd8ca334d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 052/163] fix: stream handlers get the sofa URI in UTF-8

---
 src/cas/sofastream.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 8898ca3..09534d0 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -86,10 +86,7 @@ namespace uima {
     util::Filename const * pDllFile=NULL;
 
     //get the sofa uri as UTF-8 string
-    iv_psofafs->getSofaURI().extract(0,
-                                     iv_psofafs->getSofaURI().length(),
-                                     sofauri,
-                                     CCSID::getDefaultSBCSInputCCSID() );
+    sofauri = iv_psofafs->getSofaURI().asUTF8();
     //get the uri scheme
     int32_t pos = sofauri.find(":");
     if (pos != -1) {
-- 
2.43.0


From 4ab0722ab63bd4516f412bc9fb0a6df4919733cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 053/163] fix: a local sofa stream without data has size 0 and
 is at its end

---
 src/cas/sofastream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 09534d0..7637ce0 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -399,12 +399,18 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    if (iv_psofadata == NULL) {
+      //open, without any data
+      iv_psofadata = "";
+    }
+
     return 0;
   }
 
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
-    if (iv_size==0) {
+    if (iv_psofadata == NULL) {
+      //not open
       return SOFASTREAMHANDLER_EOF;
     } else return iv_size;
   }
-- 
2.43.0


From 0b5064849bebaf2c212056d32bf689d7b91fb748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 054/163] fix: a local sofa stream follows its array when the
 heap moves it

---
 src/cas/sofastream.cpp      | 32 +++++++++++++++++++++++++-------
 src/cas/uima/sofastream.hpp |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 7637ce0..3ce5a10 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -353,31 +353,24 @@ namespace uima {
       UnicodeStringRef rangeTypeName = rangeType.getName();
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -399,6 +392,9 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    if (!iv_isstring) {
+      locateArrayData();
+    }
     if (iv_psofadata == NULL) {
       //open, without any data
       iv_psofadata = "";
@@ -407,6 +403,22 @@ namespace uima {
     return 0;
   }
 
+  //the heap moves array data when it grows
+  void LocalSofaDataStream::locateArrayData() {
+    Feature arrayfeat = iv_psofafs->getType().getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
+    lowlevel::TyFS tyArray = iv_psofafs->getFSValue(arrayfeat).iv_tyFS;
+    lowlevel::FSHeap * pHeap = iv_psofafs->getCAS().getHeap();
+    if (iv_isintarray || iv_isfloatarray) {
+      iv_psofadata = (char*) pHeap->getCArrayFromFS(tyArray);
+    } else if (iv_isbooleanarray || iv_isbytearray) {
+      iv_psofadata = (char*) pHeap->get8BitArray(tyArray);
+    } else if (iv_isshortarray) {
+      iv_psofadata = (char*) pHeap->get16BitArray(tyArray);
+    } else {
+      iv_psofadata = (char*) pHeap->get64BitArray(tyArray);
+    }
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
     if (iv_psofadata == NULL) {
@@ -525,6 +537,9 @@ namespace uima {
     size_t numbytesread = numelementsread * elementSize;
 
     //read bytes
+    if (!iv_isstring) {
+      locateArrayData();
+    }
     memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
 
     //move current read position
@@ -595,6 +610,9 @@ namespace uima {
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
     TySofaDataPointer dataptr=NULL;
     if (iv_psofadata != NULL) {
+      if (!iv_isstring && iv_size > 0) {
+        locateArrayData();
+      }
       dataptr = (TySofaDataPointer) iv_psofadata;
     }
     return dataptr;
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..d536a03 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -207,6 +207,8 @@ namespace uima {
     const TySofaDataPointer getDataPointer();
 
   private:
+    void locateArrayData();
+
     SofaFS * iv_psofafs;           //the SofaFS
     const char * iv_psofadata;    //ptr to the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
-- 
2.43.0


From ae8043eeea989f4d93c0b1d045fc814cc7e5b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 055/163] fix: escape tab characters in XCAS and XMI output,
 which attribute normalization turns into spaces

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..af0f332 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -81,6 +81,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -89,6 +90,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -115,6 +117,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From 4a9101165c8db9fc3159e7cf2141f310f2dc65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 056/163] fix: close the element of an empty byte array in XCAS
 output

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index af0f332..be2ae3c 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -551,6 +551,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 20118cad8c50edc722a399f870863306e82ac96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 057/163] fix: read the views of a structure from XCAS into a
 string, not a buffer of 256 characters

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..94edaaa 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -457,10 +457,8 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
+          string indexes(UnicodeStringRef(attrValue).asUTF8());
+          char* ptr = strtok (&indexes[0]," ");
           while (ptr != NULL) {
             sofaRef->push_back(atoi(ptr));
             ptr = strtok (NULL, " ");
@@ -529,10 +527,8 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
+        string indexes(UnicodeStringRef(attrValue).asUTF8());
+        char* ptr = strtok (&indexes[0]," ");
         while (ptr != NULL) {
           indexRep->push_back(atoi(ptr));
           ptr = strtok (NULL, " ");
-- 
2.43.0


From 6588b6529dc3b57c09804a31fc81584fafa36bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 058/163] fix: write empty integer, float and string lists to
 XMI instead of throwing

---
 src/cas/xmiwriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..30c9692 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1103,6 +1103,9 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
       //cout << "listToString() Empty FSList SKIP"  << endl;
       break;
-- 
2.43.0


From 827a7152e6858de5d170463bb2571f86b9f75f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 059/163] fix: treat the tail of list nodes in XMI as a
 reference for all list types

---
 src/cas/xmideserializer_handler.cpp | 6 ++++--
 src/cas/xmiwriter.cpp               | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..6147049 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -935,7 +935,8 @@ namespace uima {
       case internal::gs_tyStringListType: 
       case internal::gs_tyFSListType: {
         //cout << "GOT A LIST FEATURE " << endl;
-        if (feat.isMultipleReferencesAllowed()) {
+        // the tail of a list node is always a reference
+        if (feat.isMultipleReferencesAllowed() || iv_cas->getTypeSystem().isListType(iv_casimpl.getHeap().getType(addr))) {
           // do the usual FS deserialization
           if (featVal.length() > 0) {
             int val = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
@@ -1219,7 +1220,8 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
           (iv_cas->getTypeSystem().isArrayType(rangetypecode) && 
           feat.isMultipleReferencesAllowed() ) || 
           (iv_cas->getTypeSystem().isListType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed()) ) {
+          (feat.isMultipleReferencesAllowed() ||
+          iv_cas->getTypeSystem().isListType(uima::internal::FSPromoter::demoteType(type)))) ) {
             //get the current feature value which is the id
             lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
             if (featVal != 0) {
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 30c9692..487f29b 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -715,7 +715,7 @@ namespace uima {
         case internal::gs_tyNEStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From 9b38b4dc47b99d56ffa77facef8978726c7f3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 060/163] fix: write empty arrays to XMI so that references to
 them resolve

---
 src/cas/xmiwriter.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 487f29b..f4f72f2 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -575,23 +575,19 @@ namespace uima {
 
   void XmiWriter::writeBooleanArray(ostream & os, BooleanArrayFS const & array, char const * tag, int xmiid) {
     
-    if (array.size() > 0) {
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\"";
       os << " elements=\"" ;
         os << arrayToString(array, tag).c_str();
         os << "\"/>" << endl;
-    } 
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
       //XCAS os << " size=\"" << array.size() << "\">" << endl;
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
         os << arrayToString(array, "elements").c_str();
         os << "</" << tag << ">" << endl;
-    } 
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -608,9 +604,6 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
             if ( t == iv_intArrayType ) {
                 writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else if ( t == iv_floatArrayType ) {
@@ -636,7 +629,6 @@ namespace uima {
                     cerr << "writeFSFlat unknown array type " << t.getName() << endl;
                 }
             }
-        }
     } else {
       vector<Feature> features;
       fs.getType().getAppropriateFeatures(features);
-- 
2.43.0


From 80ac6edd62f9cf0701506fbc454a9e2ed32b18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 061/163] fix: do not carry the elements of one XMI array over
 to the next

---
 src/cas/xmideserializer_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 6147049..75e672d 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -466,8 +466,8 @@ namespace uima {
 			} else if (iv_cas->getTypeSystem().isArrayType(internal::FSPromoter::demoteType(type)) ) {
 				
         icu::UnicodeString attrName; 
-				int xmiId=0;
-				icu::UnicodeString elements;
+				currentArrayId=0;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
-- 
2.43.0


From 8dffdfe3e100a169b8c0a7ca554b15152782dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 062/163] fix: ignore XMI elements by their prefix, not every
 element with xmi in its name

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 75e672d..78d225b 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From a7fea889b90f81eda01d08a0239ed92a955b3e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 063/163] fix: write null elements of feature structure arrays
 to XMI as id 0

---
 src/cas/xmiwriter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index f4f72f2..a655636 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -527,15 +527,15 @@ namespace uima {
           if (xmiId == 0) {  //if 0 check if its an Oots FS 
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
-            if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  str << arel->xmiId;
-                  break;
-                }                
-              }
+            int ootsId = 0;
+            while (ootsList != NULL && ootsIndex < ootsList->size()) {
+              XmiArrayElement * arel = ootsList->at(ootsIndex++);
+              if (arel->index == (int) j) {
+                ootsId = arel->xmiId;
+                break;
+              }                
             }
+            str << ootsId;
           } else {
             str << xmiId;
           }
-- 
2.43.0


From e21ae90f9ad88fd8422d07f598e1e69a23231ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 064/163] fix: choose distinct well-formed namespace prefixes
 in XMI

---
 src/cas/xmiwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index a655636..6e07424 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
@@ -256,7 +257,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From e7a1cc40828868abc57ae6df88310b8d3be7c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 065/163] fix: do not use the reserved prefixes xml and xmlns
 for namespaces of types in XMI

---
 src/cas/xmiwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 6e07424..ba337af 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -165,6 +165,8 @@ namespace uima {
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
    nsPrefixesUsed.insert(XMI_NS_PREFIX);
+   nsPrefixesUsed.insert("xml");     // reserved
+   nsPrefixesUsed.insert("xmlns");
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
-- 
2.43.0


From 74411b10a14a25ab8e8d69789cc69e2aea6eb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 066/163] fix: write empty string arrays and lists in XMI
 features, which were read as null

---
 src/cas/xmiwriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index ba337af..143c5a7 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -665,6 +665,9 @@ namespace uima {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
             if (arrayFS.isValid() && arrayFS.size() > 0) {
               strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            } else if (arrayFS.isValid()) {
+              // an empty array has no child elements
+              os << " " << f.getName() << "=\"\"";
             }
           }
           break;                             
@@ -717,6 +720,9 @@ namespace uima {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
                 if (listFS.isValid() && str.length() > 0) {
                   strcontent << str;
+                } else {
+                  // an empty list has no child elements
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
-- 
2.43.0


From 5f1b5388e7b3225046f970c2d62d0655055985f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 067/163] fix: read infinite and NaN double values from XCAS
 and XMI

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++----------
 src/cas/xmideserializer_handler.cpp  | 12 ++----------
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 94edaaa..1d6e076 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -670,11 +670,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(UnicodeStringRef(buffer).asUTF8().c_str()));
         break;
       }
     default: {    //array of FSs
@@ -805,11 +801,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, atof(strval.c_str()));
           }
           break;
         }
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 78d225b..0081468 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(buffer.c_str()));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, atof(strval.c_str()));
         }
         break;
       }	  
-- 
2.43.0


From 71b6e54d862062c36654b368e8dc830999cf9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 068/163] fix: follow references without recursion when writing
 XCAS and XMI

---
 src/cas/uima/xmiwriter.hpp |  5 +++++
 src/cas/uima/xmlwriter.hpp |  5 +++++
 src/cas/xmiwriter.cpp      | 14 ++++++++++++++
 src/cas/xmlwriter.cpp      | 14 ++++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/src/cas/uima/xmiwriter.hpp b/src/cas/uima/xmiwriter.hpp
index 8e3966e..6b4b2ea 100644
--- a/src/cas/uima/xmiwriter.hpp
+++ b/src/cas/uima/xmiwriter.hpp
@@ -110,6 +110,11 @@ namespace uima {
     void writeFeatureValue(std::ostream & os, FeatureStructure const & fs, Feature const & f);
     void writeFSFlat(std::ostream & os, FeatureStructure const & fs, std::vector<int>* indexInfo);
     void findReferencedFSs(FeatureStructure const & fs, bool check=true);
+    void visitReferencedFSs(FeatureStructure const & fs);
+    // structures whose references are not followed yet: a path of references
+    // may be longer than the stack allows to follow recursively
+    std::vector<FeatureStructure> iv_toVisit;
+    bool iv_visiting = false;
     bool isReferenceType(Type const & t) const;
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
diff --git a/src/cas/uima/xmlwriter.hpp b/src/cas/uima/xmlwriter.hpp
index 761ba6c..2966a2b 100644
--- a/src/cas/uima/xmlwriter.hpp
+++ b/src/cas/uima/xmlwriter.hpp
@@ -151,6 +151,11 @@ namespace uima {
     void writeFeatureValue(std::ostream & os, FeatureStructure const & fs, Feature const & f);
     void writeFSFlat(std::ostream & os, FeatureStructure const & fs, std::vector<int>* indexInfo);
     void findReferencedFSs(FeatureStructure const & fs, bool check=true);
+    void visitReferencedFSs(FeatureStructure const & fs);
+    // structures whose references are not followed yet: a path of references
+    // may be longer than the stack allows to follow recursively
+    std::vector<FeatureStructure> iv_toVisit;
+    bool iv_visiting = false;
     bool isReferenceType(Type const & t) const;
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 143c5a7..e1ed94a 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -789,6 +789,20 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
         return;
       }
     }
+    iv_toVisit.push_back(fs);
+    if (iv_visiting) {
+      return;
+    }
+    iv_visiting = true;
+    while (!iv_toVisit.empty()) {
+      FeatureStructure next = iv_toVisit.back();
+      iv_toVisit.pop_back();
+      visitReferencedFSs(next);
+    }
+    iv_visiting = false;
+  }
+
+  void XmiWriter::visitReferencedFSs(FeatureStructure const & fs) {
     Type t = fs.getType();
     //cout << "findReferencedFSs() " << t.getName() << endl;
     int tcode = internal::FSPromoter::demoteType(t);
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index be2ae3c..9a1ef67 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -618,6 +618,20 @@ namespace uima {
         return;
       }
     }
+    iv_toVisit.push_back(fs);
+    if (iv_visiting) {
+      return;
+    }
+    iv_visiting = true;
+    while (!iv_toVisit.empty()) {
+      FeatureStructure next = iv_toVisit.back();
+      iv_toVisit.pop_back();
+      visitReferencedFSs(next);
+    }
+    iv_visiting = false;
+  }
+
+  void XCASWriter::visitReferencedFSs(FeatureStructure const & fs) {
     Type t = fs.getType();
     assert( t.isValid() );
     size_t i;
-- 
2.43.0


From 527415b477e4a712da4f2fa0295b821d58731c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 069/163] fix: refuse unknown features given as attributes when
 reading XMI without lenience

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 0081468..c1adae7 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -628,7 +628,7 @@ namespace uima {
 					}
 					//cout << "readFS calling handleFeature " << attrName << " attrvalue= "
 					//	<< attrValue << endl;
-					handleFeature(addr, attrName, attrValue, true);
+					handleFeature(addr, attrName, attrValue, lenient);
 			}
 		}
 
-- 
2.43.0


From 1718e4b0f98d9e01096cc5ac21f7b31fc9369568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 070/163] fix: a reference set after lenient XMI reading
 replaces the one read, which was written as a second attribute

---
 src/cas/xmiwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index e1ed94a..3036f5a 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -744,6 +744,11 @@ namespace uima {
       //attributes
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
+        // a reference that was set since the feature was read replaces what was read
+        Feature feat = t.getFeatureByBaseName(icu::UnicodeString(attr->name.c_str()));
+        if (feat.isValid() && fs.getFSValue(feat).isValid()) {
+          continue;
+        }
         icu::UnicodeString us;
         icu::UnicodeString av(attr->value.c_str());
         normalize( av, us );
-- 
2.43.0


From a8bf9261897b6467f868e0893d94c696ec03decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 071/163] fix: references to unknown feature structures in FS
 arrays were lost when an earlier element is null

---
 src/cas/xmiwriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 3036f5a..6fb2175 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -531,7 +531,9 @@ namespace uima {
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
             int ootsId = 0;
-            while (ootsList != NULL && ootsIndex < ootsList->size()) {
+            // the list is in the order of the indexes; leave entries of later elements for them
+            while (ootsList != NULL && ootsIndex < ootsList->size() 
+                   && ootsList->at(ootsIndex)->index <= (int) j) {
               XmiArrayElement * arel = ootsList->at(ootsIndex++);
               if (arel->index == (int) j) {
                 ootsId = arel->xmiId;
-- 
2.43.0


From 1179cf278655fdbca98d8c249df4b14fb811e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 072/163] fix: write feature structures created after reading
 XMI that only feature structures read refer to

---
 src/cas/xmiwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 6fb2175..11bcee3 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1032,7 +1032,8 @@ void XmiWriter::write(ostream & os) {
     vector<int> fsAddrs;
     this->sharedData->getAllFsAddressesInIdMap(fsAddrs);
     for (size_t i = 0; i < fsAddrs.size(); i++) {
-      enqueueUnindexed(fsAddrs.at(i));
+      // it may refer to feature structures that were created since
+      findReferencedFSs(internal::FSPromoter::promoteFS(fsAddrs.at(i), iv_cas));
     }
   }
 
-- 
2.43.0


From e9cef1989c394fc54df7889b4ec53d66cf161ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 073/163] fix: resolve XCAS references to known ids of fitting
 types only

---
 src/cas/uima/xcasdeserializer_handler.hpp |  3 +
 src/cas/xcasdeserializer_handler.cpp      | 94 ++++++++++++++---------
 2 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index f5f50fa..b13ba36 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -126,6 +126,9 @@ namespace uima {
     void handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
                        bool lenient);
     void finalizeFS(FSInfo & fsInfo);
+    void registerFS(int id, FSInfo * fsInfo);
+    lowlevel::TyFS resolveRef(lowlevel::TyFS id, lowlevel::TyFSType rangeType);
+    void rejectValue(char const * name, icu::UnicodeString const & value);
     void readArray(Type & type, const Attributes & attrs);
     void readArrayElement(icu::UnicodeString & qualifiedName, const Attributes & attrs);
     void addArrayElement(icu::UnicodeString & buffer);
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 1d6e076..71842b6 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <sstream>
 #include <algorithm>
+#include <memory>
 using namespace std;
 
 #include "xercesc/sax2/Attributes.hpp"
@@ -91,8 +92,8 @@ namespace uima {
 
   XCASDeserializerHandler::~XCASDeserializerHandler()   {
     if (DEBUG) std::cout << " XCASDeserializerHandler::destructor " << std::endl;
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0) {
         delete fsinfo->indexRep;
         delete fsinfo;
@@ -278,8 +279,8 @@ namespace uima {
     //cout << " XCASDeserializerHandler::endDocument() " << endl;
 
     //update features that are FSs
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0)
         finalizeFS(*fsinfo);
     }
@@ -334,7 +335,7 @@ namespace uima {
 
     int id = -1;
 //       int sofaRef = -1; // 0 ==> baseCas indexRepository
-    vector<int>* sofaRef = new vector<int>;
+    unique_ptr<vector<int> > sofaRef(new vector<int>);
     icu::UnicodeString attrName;
     icu::UnicodeString attrValue;
     bool nameMapping = false;
@@ -494,19 +495,57 @@ namespace uima {
     }
 
     // sofaRef.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(addr, sofaRef);
+    registerFS(id, new FSInfo(addr, sofaRef.release()));
+    iv_state = CONTENT_STATE;
+
+  }
+
+  // Remember an FS under its id; an id stands for one FS only.
+  void XCASDeserializerHandler::registerFS(int id, FSInfo * fsInfo) {
     if (id < 0) {
       idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
+      return;
     }
-    iv_state = CONTENT_STATE;
+    FSInfo * & entry = fsTree[id];
+    if (entry != NULL) {
+      idLess.push_back(fsInfo);
+      icu::UnicodeString value(icu::UnicodeString(iv_casimpl.getHeap().getTypeSystem().getTypeName(iv_casimpl.getHeap().getType(fsInfo->addr))));
+      rejectValue(ID_ATTR_NAME, value);
+    }
+    entry = fsInfo;
+  }
 
+  // The address of the FS a reference of the given range names, 0 if there is none.
+  lowlevel::TyFS XCASDeserializerHandler::resolveRef(lowlevel::TyFS id, lowlevel::TyFSType rangeType) {
+    if (id == 0) {
+      return 0;
+    }
+    map<int, FSInfo*>::const_iterator it = fsTree.find((int) id);
+    if (it == fsTree.end()) {
+      return 0;
+    }
+    lowlevel::TyFSType refType = iv_casimpl.getHeap().getType(it->second->addr);
+    if (!iv_typesystem->subsumes(rangeType, refType)) {
+      rejectValue(REF_PREFIX, iv_typesystem->getTypeName(refType));
+    }
+    return it->second->addr;
+  }
+
+  void XCASDeserializerHandler::rejectValue(char const * name, icu::UnicodeString const & value) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam(name);
+    msg.addParam(value);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
   }
 
   void XCASDeserializerHandler::readArray(Type & type, const Attributes  & attrs) {
 
-    vector<int>* indexRep = new vector<int>;
+    unique_ptr<vector<int> > indexRep(new vector<int>);
     int id = -1;
     int size=0;
     icu::UnicodeString attrName;
@@ -554,12 +593,7 @@ namespace uima {
     arrayPos=0;
 
     // indexRep.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(currentAddr, indexRep);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, new FSInfo(currentAddr, indexRep.release()));
     iv_state = ARRAY_ELE_STATE;
 
   }
@@ -674,10 +708,10 @@ namespace uima {
         break;
       }
     default: {    //array of FSs
+      // keep the id until finalizeArray replaces it by the address of the FS
       lowlevel::TyFS fsid = atoi(UnicodeStringRef(buffer).asUTF8().c_str());
-      FeatureStructure fsitem(fsid, *iv_cas);
-      ArrayFS fsArrayfs(fs);
-      fsArrayfs.set((size_t) arrayPos, fsitem);
+      lowlevel::TyHeapCell * fsarray = iv_cas->getHeap()->getCArrayFromFS(currentAddr);
+      fsarray[arrayPos] = fsid;
     }
     }
 
@@ -849,7 +883,6 @@ namespace uima {
     vector<Feature> feats;
     type.getAppropriateFeatures(feats);
 
-    FSInfo * fsValInfo;
     for (size_t i = 0; i < feats.size(); i++) {
       Feature feat = (Feature) feats[i];
       Type rangeType;
@@ -863,17 +896,9 @@ namespace uima {
         if (!iv_cas->getTypeSystem().isPrimitive(rangetypecode)) {
           //get the current feature value which is the id
           lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
-          //get the FSInfo object for that id
-          fsValInfo = (FSInfo*) fsTree[featVal];
-          //if there is a FSInfo
-          //set the feature value of this feature to the
-          //address in FSInfo else set it to NULL;
-          if (fsValInfo == NULL) {
-            //nothing to do, reference value already = 0!
-            //iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
-          } else {
-            iv_casimpl.getHeap().setFSValue(addr, featcode, fsValInfo->addr);
-          }
+          //set the feature value of this feature to the address of the FS
+          //with that id or to NULL if there is none
+          iv_casimpl.getHeap().setFeatureInternal(addr, featcode, resolveRef(featVal, rangetypecode));
         }
       }
     }
@@ -890,13 +915,10 @@ namespace uima {
     // *** WARNING ***  *** WARNING ***  *** WARNING ***  *** WARNING ***
     // if implementation of ArrayFS on the heap changes, this code will be invalid
     int size = (int)iv_cas->getHeap()->getHeap().getHeapValue(addr + 1);
-    FSInfo * fsValInfo;
+    lowlevel::TyFSType topType = iv_typesystem->getTopType();
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
-      fsValInfo = fsTree[id];
-      if (fsValInfo != NULL) {
-        iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo->addr);
-      }
+      iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, resolveRef(id, topType));
     }
 
   }
-- 
2.43.0


From 382801dce277b2d05db86ddd7ee34b768e5b57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 074/163] fix: ignore the content of XCAS elements of unknown
 types

---
 src/cas/xcasdeserializer_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 71842b6..fa5bdf5 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -318,6 +318,7 @@ namespace uima {
 
     if (!type.isValid() ) {
       cout << "INFO: invalid type " << typeName << endl;
+      currentAddr = 0; // there is no FS the content could belong to
       iv_state = CONTENT_STATE;
     } else {
       if (iv_cas->getTypeSystem().isArrayType(typecode)) {
@@ -723,6 +724,9 @@ namespace uima {
   // Create a feature value from a string representation.
   void XCASDeserializerHandler::handleFeature(lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal, bool lenient) {
 
+    if (addr == 0) {
+      return;
+    }
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     Type type = uima::internal::FSPromoter::promoteType(fstype, iv_cas->getTypeSystem().getLowlevelTypeSystem());
     handleFeature(type, addr, featName, featVal, lenient);
-- 
2.43.0


From 831c6b6049caed2e641ae4bffd0921e8fe059607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 075/163] fix: refuse negative array sizes in XCAS documents

---
 src/cas/xcasdeserializer_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index fa5bdf5..abb5825 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -561,6 +561,9 @@ namespace uima {
         id = atoi(UnicodeStringRef(attrValue).asUTF8().c_str());
       } else if (attrName.compare(ARRAY_SIZE_ATTR) == 0) {
         size = atoi(UnicodeStringRef(attrValue).asUTF8().c_str());
+        if (size < 0) {
+          rejectValue(ARRAY_SIZE_ATTR, attrValue);
+        }
       } else if (attrName.compare(INDEXED_ATTR_NAME)== 0) {
 //             // suppress indexing of document annotation if old CAS
 //               if (attrValue.compare(TRUE_VALUE) == 0)
-- 
2.43.0


From c5c81013549f16d0f53ba0470cafefd02c806fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 076/163] fix: check sofa names, numbers and index entries of
 XCAS documents

---
 src/cas/uima/xcasdeserializer_handler.hpp |  3 +
 src/cas/xcasdeserializer_handler.cpp      | 83 ++++++++++++++++-------
 2 files changed, 63 insertions(+), 23 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index b13ba36..be36b7c 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -32,6 +32,7 @@
 
 #include "uima/pragmas.hpp" //must be first to surpress warnings
 #include <map>
+#include <set>
 #include <stack>
 #include <utility>
 #include "xercesc/sax2/DefaultHandler.hpp"
@@ -127,6 +128,7 @@ namespace uima {
                        bool lenient);
     void finalizeFS(FSInfo & fsInfo);
     void registerFS(int id, FSInfo * fsInfo);
+    lowlevel::IndexRepository * getIndexRepository(int index);
     lowlevel::TyFS resolveRef(lowlevel::TyFS id, lowlevel::TyFSType rangeType);
     void rejectValue(char const * name, icu::UnicodeString const & value);
     void readArray(Type & type, const Attributes & attrs);
@@ -174,6 +176,7 @@ namespace uima {
     //maps for deserializing v1.x format XCAS documents
     std::vector<int> sofaRefMap;
     std::vector<int> indexMap;
+    std::set<icu::UnicodeString> sofaNames;
     int nextIndex;
 
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index abb5825..0b0464c 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -250,21 +250,22 @@ namespace uima {
     }
     case DOC_TEXT_STATE: {
       // Assume old style TCAS with one text Sofa
+      if (!sofaNames.insert(icu::UnicodeString(CAS::NAME_DEFAULT_SOFA)).second || sofaRefMap.size() > 1) {
+        rejectValue(DEFAULT_DOC_TYPE_NAME, icu::UnicodeString());
+      }
       SofaFS newSofa = iv_cas->createInitialSofa(icu::UnicodeString("text"));
       CAS* cas = iv_cas->getInitialView();
       cas->registerView(newSofa);
       // Set the document text without creating a documentAnnotation
       cas->setDocTextFromDeserializtion(UnicodeStringRef(buffer.getBuffer(), buffer.length()));
 
-      // and assume the new Sofa is at location 1!
-      int addr = 1;
+      // and assume the new Sofa has the id 1!
+      int addr = uima::internal::FSPromoter::demoteFS(newSofa);
       int id = 1;
       sofaRefMap.push_back(id);
 
       // and register the id for this Sofa
-      FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
-//           FSInfo * fsInfo = new FSInfo(addr, -1); //??? Should be 0 or -1 ???
-      fsTree[id] =  fsInfo;
+      registerFS(id, new FSInfo(addr, new vector<int>));
 
       iv_state = FS_STATE;
       break;
@@ -344,6 +345,8 @@ namespace uima {
     UErrorCode errorCode = U_ZERO_ERROR;
     lowlevel::TyFS heapValue = iv_casimpl.getHeap().getType(addr);
 
+    icu::UnicodeString sofaName;
+    int sofaIndex = 0;
     // Special handling for Sofas
     if (sofaTypeCode == heapValue) {
       // create some maps to handle v1 format XCAS ...
@@ -355,7 +358,11 @@ namespace uima {
       if (extsz > 256) {
         cout << "ACK!" << endl;
       }
-      const UChar* sofaID = attrs.getValue(ubuff);
+      const UChar* sofaID = (UChar const *) attrs.getValue(ubuff);
+      if (sofaID == NULL || !sofaNames.insert(icu::UnicodeString(sofaID)).second) {
+        rejectValue(CAS::FEATURE_BASE_NAME_SOFAID, sofaID == NULL ? icu::UnicodeString() : icu::UnicodeString(sofaID));
+      }
+      sofaName = sofaID;
       if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {
         sofaID = ubuff;
       }
@@ -372,13 +379,16 @@ namespace uima {
       if (extsz > 256) {
         cout << "ACK!" << endl;
       }
-      const UChar* aString = attrs.getValue(ubuff);
-      int thisSofaNum = atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      const UChar* aString = (UChar const *) attrs.getValue(ubuff);
+      int thisSofaNum = aString == NULL ? 0 : atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      if (thisSofaNum < 1) {
+        rejectValue(CAS::FEATURE_BASE_NAME_SOFANUM, sofaName);
+      }
 
       // get the sofa's FeatureStructure id
       icu::UnicodeString(ID_ATTR_NAME).extract(ubuff,256, errorCode);
       aString = attrs.getValue(ubuff);
-      int sofaFsId = atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      int sofaFsId = aString == NULL ? 0 : atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // for v1 and v2 formats, create the index map
       // ***we assume Sofas are always received in Sofanum order***
@@ -426,6 +436,10 @@ namespace uima {
         }
       }
 
+      if (thisSofaNum >= (int) indexMap.size()) {
+        rejectValue(CAS::FEATURE_BASE_NAME_SOFANUM, sofaName);
+      }
+
       // Now update the mapping from annotation int to ref values
       if (sofaRefMap.size() == thisSofaNum) {
         // Sofa received in sofaNum order, add new one
@@ -438,6 +452,7 @@ namespace uima {
         sofaRefMap.resize(thisSofaNum + 1);
         sofaRefMap[thisSofaNum] = sofaFsId;
       }
+      sofaIndex = indexMap[thisSofaNum];
     }
 
     Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
@@ -451,6 +466,17 @@ namespace uima {
           id = atoi(UnicodeStringRef(attrValue).asUTF8().c_str());
         } else if (attrName.compare(CONTENT_ATTR_NAME) == 0) {
           currentContentFeat = attrValue;
+          if (sofaTypeCode == heapValue) {
+            // the name and number of a Sofa are fixed by its attributes
+            icu::UnicodeString contentFeat(attrValue);
+            if (contentFeat.startsWith(REF_PREFIX)) {
+              contentFeat.remove(0, icu::UnicodeString(REF_PREFIX).length());
+            }
+            if (contentFeat.compare(CAS::FEATURE_BASE_NAME_SOFAID) == 0
+                || contentFeat.compare(CAS::FEATURE_BASE_NAME_SOFANUM) == 0) {
+              rejectValue(CONTENT_ATTR_NAME, attrValue);
+            }
+          }
         } else if (attrName.compare(INDEXED_ATTR_NAME)== 0) {
 //             if (toIndex)
 //             { // suppress indexing of document annotation if old CAS
@@ -480,6 +506,14 @@ namespace uima {
     if (sofaTypeCode == heapValue) {
       // If a Sofa, create CAS view to get new indexRepository
       SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
+      // Sofas come in the order of their numbers and only the initial view has number 1
+      bool isInitialSofa = sofaName.compare(icu::UnicodeString(CAS::NAME_DEFAULT_SOFA)) == 0;
+      if (sofa.getSofaID().compare(sofaName) != 0
+          || sofaIndex != (isInitialSofa ? 1 : (int) indexRepositories.size())) {
+        rejectValue(CAS::FEATURE_BASE_NAME_SOFANUM, sofaName);
+      }
+      // handle v1.x sofanum values, remapping so that _InitialView always == 1
+      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, sofaIndex);
       //also add to indexes so we can retrieve the Sofa later
       iv_cas->getBaseIndexRepository().addFS(sofa);
       CAS * tcas = iv_cas->getView(sofa);
@@ -737,24 +771,20 @@ namespace uima {
 
   void XCASDeserializerHandler::handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
       bool lenient) {
-    char charFeatVal[10];
+    char charFeatVal[16];
 
     // handle v1.x format annotations, mapping int to ref values
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     if (0==featName.compare("sofa") &&
         iv_typesystem->subsumes(internal::gs_tyAnnotationBaseType, fstype)) {
       int ifeatval = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
+      if (ifeatval < 0 || ifeatval >= (int) sofaRefMap.size()) {
+        rejectValue("sofa", featVal);
+      }
       sprintf(charFeatVal, "%d", sofaRefMap[ifeatval]);
       featVal.setTo(icu::UnicodeString(charFeatVal));
     }
 
-    // handle v1.x sofanum values, remapping so that _InitialView always == 1
-    if (0==featName.compare(CAS::FEATURE_BASE_NAME_SOFAID)
-        && sofaTypeCode == fstype) {
-      int sofaNum = iv_casimpl.getHeap().getIntValue(addr, internal::gs_tySofaNumFeature);
-      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, indexMap[sofaNum]);
-    }
-
     icu::UnicodeString prefix(REF_PREFIX);
     if (featName.startsWith(REF_PREFIX)) {
       featName.remove(0,prefix.length());             // Delete prefix
@@ -868,12 +898,7 @@ namespace uima {
     if (fsInfo.indexRep->size() >= 0) {
       // Now add FS to all specified index repositories
       for (int i = 0; i < (int)fsInfo.indexRep->size(); i++) {
-        lowlevel::IndexRepository *  pIndexRep;
-        if (indexMap.size() == 1) {
-          pIndexRep = indexRepositories[fsInfo.indexRep->at(i)];
-        } else {
-          pIndexRep = indexRepositories[indexMap[fsInfo.indexRep->at(i)]];
-        }
+        lowlevel::IndexRepository *  pIndexRep = getIndexRepository(fsInfo.indexRep->at(i));
         assert(EXISTS(pIndexRep));
         pIndexRep->add(addr);
       }
@@ -912,6 +937,18 @@ namespace uima {
   }
 
 
+  // The index repository an entry of an _indexed attribute stands for.
+  lowlevel::IndexRepository * XCASDeserializerHandler::getIndexRepository(int index) {
+    int number = index;
+    if (indexMap.size() > 1) {
+      number = (index >= 0 && index < (int) indexMap.size()) ? indexMap[index] : -1;
+    }
+    if (number < 0 || number >= (int) indexRepositories.size()) {
+      rejectValue(INDEXED_ATTR_NAME, icu::UnicodeString());
+    }
+    return indexRepositories[number];
+  }
+
   void XCASDeserializerHandler::finalizeArray(Type & type, lowlevel::TyFS addr, FSInfo & fsInfo) {
 
     lowlevel::TyFSType typecode = uima::internal::FSPromoter::demoteType(type);
-- 
2.43.0


From 7a655e535abacffebe953a564a6e8beb44060125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 077/163] fix: release the XCAS parser when reading fails and
 accept file names of any length

---
 src/cas/xcasdeserializer.cpp | 43 ++++++++++++++----------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..f728023 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,12 +84,9 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
-    XCASDeserializer::deserialize(fileIS, cas);
+    string filename;
+    UnicodeStringRef(xcasFilename).extract(filename, NULL);
+    XCASDeserializer::deserialize(filename.c_str(), cas);
   }
 
   void XCASDeserializer::deserialize(char const * xcasFilename, CAS & cas,  uima::AnnotatorContext  * const ctx) {
@@ -103,15 +100,15 @@ namespace uima {
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas) {
     // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
+    unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
     //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, NULL);
-    parser->setContentHandler(contentHandler);
+    XCASDeserializerHandler contentHandler(cas, NULL);
+    parser->setContentHandler(&contentHandler);
 
     //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    XMLErrorHandler errorHandler;
+    parser->setErrorHandler(&errorHandler);
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
@@ -121,6 +118,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -138,6 +136,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
       ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
@@ -150,24 +149,19 @@ namespace uima {
       ExcIllFormedInputError exc(errInfo);
       throw exc;
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas, uima::AnnotatorContext  * const ctx) {
     // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
+    unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
     //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, ctx);
-    parser->setContentHandler(contentHandler);
+    XCASDeserializerHandler contentHandler(cas, ctx);
+    parser->setContentHandler(&contentHandler);
 
     //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    XMLErrorHandler errorHandler;
+    parser->setErrorHandler(&errorHandler);
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
@@ -177,6 +171,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -194,6 +189,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
       ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
@@ -206,11 +202,6 @@ namespace uima {
       ExcIllFormedInputError exc(errInfo);
       throw exc;
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
 
-- 
2.43.0


From 664bd689a9dafdf35d3879ac31f5802c9f383845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 078/163] fix: accept XMI references to feature structures of
 the range type only

---
 src/cas/uima/xmideserializer_handler.hpp |  1 +
 src/cas/xmideserializer_handler.cpp      | 26 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index 4911e1e..b0a0cc5 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -177,6 +177,7 @@ namespace uima {
     int createArray(  lowlevel::TyFSType typeCode,
 		      std::vector<std::string>& featVal, int xmiID);
 
+    void rejectValue(char const * name, icu::UnicodeString const & value);
     void processView(int sofaXmiId, icu::UnicodeString & membersString) ;
 		int getFsAddrForXmiId(int xmiId);
 		void addToOutOfTypeSystemData(XmlElementName * xmlElementName, const Attributes & attrs);
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index c1adae7..4ae8a29 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -745,10 +745,10 @@ namespace uima {
         break;
       }
     default: {    //array of FSs
+      // keep the id until finalizeArray replaces it by the address of the FS
       lowlevel::TyFS fsid = atoi(buffer.c_str());
-      FeatureStructure fsitem(fsid, *iv_cas);
-      ArrayFS fsArrayfs(fs);
-      fsArrayfs.set((size_t) arrayPos, fsitem);
+      lowlevel::TyHeapCell * fsarray = iv_cas->getHeap()->getCArrayFromFS(addr);
+      fsarray[arrayPos] = fsid;
     }
     } //swithch
   }
@@ -1233,7 +1233,13 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
                       ((UnicodeStringRef)feat.getName()).asUTF8(), str.str());
                 }       
               }
-              iv_casimpl.getHeap().setFSValue(addr, featcode, fsValAddr);
+              if (fsValAddr != 0) {
+                lowlevel::TyFSType refType = iv_casimpl.getHeap().getType(fsValAddr);
+                if (!iv_typesystem->subsumes(rangetypecode, refType)) {
+                  rejectValue("invalid reference", iv_typesystem->getTypeName(refType));
+                }
+              }
+              iv_casimpl.getHeap().setFeatureInternal(addr, featcode, fsValAddr);
             }
          }
       }
@@ -1303,6 +1309,18 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 	  }
   }
 
+  void XmiDeserializerHandler::rejectValue(char const * name, icu::UnicodeString const & value) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam(name);
+    msg.addParam(value);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
 	/**
    * Adds a feature sturcture to the out-of-typesystem data.  Also sets the
    * this->outOfTypeSystemElement field, which is referred to later if we have to
-- 
2.43.0


From fc46e392c8cad289ffe0ea3941a900f70cef5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 079/163] fix: check sofa names, numbers and views of XMI
 documents

---
 src/cas/uima/xmideserializer_handler.hpp |  2 ++
 src/cas/xmideserializer_handler.cpp      | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index b0a0cc5..be6ee72 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -32,6 +32,7 @@
 
 #include "uima/pragmas.hpp" //must be first to surpress warnings
 #include <map>
+#include <set>
 #include <stack>
 #include <utility>
 #include "xercesc/sax2/DefaultHandler.hpp"
@@ -219,6 +220,7 @@ namespace uima {
 		icu::UnicodeString currentArrayElements;
 
 		int nextSofaNum; //number of sofas found so far
+		std::set<icu::UnicodeString> sofaNames;
 
 		// Store a separate vector of FSList nodes that were deserialized 
 		// from multivalued properties.
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 4ae8a29..39d5c82 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -514,6 +514,9 @@ namespace uima {
 				//cout << __LINE__ << " calling getFsAddrForXmiId " << sofaXmiId << endl;
 				int sofaAddr = getFsAddrForXmiId(sofaXmiId);
 
+				if ((int) iv_cas->getHeap()->getType(sofaAddr) != sofaTypeCode) {
+					rejectValue(CAS::FEATURE_BASE_NAME_SOFA, iv_typesystem->getTypeName(iv_cas->getHeap()->getType(sofaAddr)));
+				}
 				sofaNum = iv_cas->getHeap()->getIntValue(sofaAddr, internal::gs_tySofaNumFeature);
 			}
 			lowlevel::IndexRepository * indexRep =  indexRepositories.at(sofaNum);
@@ -593,7 +596,10 @@ namespace uima {
 			if (extsz > 256) {
 				cout << "ACK!" << endl;
 			}
-			const UChar* sofaID = attrs.getValue(ubuff);
+			const UChar* sofaID = (UChar const *) attrs.getValue(ubuff);
+			if (sofaID == NULL) {
+				rejectValue(CAS::FEATURE_BASE_NAME_SOFAID, icu::UnicodeString());
+			}
 
 			if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {  
 				// initial view Sofa always has sofaNum = 1
@@ -603,6 +609,13 @@ namespace uima {
 			}  else {
 				thisSofaNum = this->nextSofaNum++;
 			}
+			icu::UnicodeString sofaName(sofaID);
+			if (thisSofaNum == 1) {
+				sofaName = icu::UnicodeString(CAS::NAME_DEFAULT_SOFA);
+			}
+			if (!sofaNames.insert(sofaName).second) {
+				rejectValue(CAS::FEATURE_BASE_NAME_SOFAID, sofaName);
+			}
 		}
 
 		Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
@@ -634,6 +647,7 @@ namespace uima {
 
 		if (sofaTypeCode == heapValue) {
 			// If a Sofa, create CAS view to get new indexRepository
+			iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, thisSofaNum);
 			SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
 			//also add to indexes so we can retrieve the Sofa later
 			iv_cas->getBaseIndexRepository().addFS(sofa);
@@ -982,6 +996,11 @@ namespace uima {
       return;
     }
     lowlevel::TyFSFeature featCode = internal::FSPromoter::demoteFeature(feat);
+    if (fstype == sofaTypeCode
+        && (featName.compare(CAS::FEATURE_BASE_NAME_SOFAID) == 0 || featName.compare(CAS::FEATURE_BASE_NAME_SOFANUM) == 0)) {
+      // the name and number of a Sofa are fixed by its attributes
+      rejectValue("uima.cas.Sofa", featName);
+    }
     Type rtype;
     feat.getRangeType(rtype);
     handleFeature(addr, featCode,internal::FSPromoter::demoteType(rtype), featVal);
-- 
2.43.0


From c7b5980a664b0162255c25d41d4e403a762e2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 080/163] fix: read XMI child elements of array nodes and
 shared containers safely

---
 src/cas/xmideserializer_handler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 39d5c82..c0c2bbb 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -480,7 +480,7 @@ namespace uima {
 
         //cout << "xmiId " << currentArrayId << " type=" << typeName << " elements=" << currentArrayElements << endl;
 				if (internal::FSPromoter::demoteType(type) == internal::gs_tyByteArrayType) {
-					int addr = createByteArray(currentArrayElements, currentArrayId);
+					currentAddr = createByteArray(currentArrayElements, currentArrayId);
 				} 
 
 			} else {
@@ -1011,6 +1011,12 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 					          lowlevel::TyFSType rangeTypeCode,
 					          vector<string> & featVals)  {
     //cout << "handleFeature array/list  " << featVals.size() << endl;
+    Feature feat = internal::FSPromoter::promoteFeature(featCode, *iv_typesystem);
+    if (feat.isMultipleReferencesAllowed()
+        || iv_cas->getTypeSystem().isListType(iv_casimpl.getHeap().getType(addr))) {
+      // the value is a reference to an FS of its own
+      rangeTypeCode = iv_typesystem->getTopType();
+    }
 	 switch(rangeTypeCode) {
 	   case internal::gs_tyBooleanArrayType:
 	   case internal::gs_tyByteArrayType:
-- 
2.43.0


From 944e2a7d3368330efeae41a3a93f686e61c69f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 081/163] fix: numbers of empty XML elements are zero

---
 src/cas/xcasdeserializer_handler.cpp | 8 ++++----
 src/cas/xmideserializer_handler.cpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 0b0464c..25d2ad5 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -721,7 +721,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyShortArrayType: {
-        short val;
+        short val = 0;
         string strval;
         UnicodeStringRef(buffer).extractUTF8(strval);
         stringstream s;
@@ -732,7 +732,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyLongArrayType: {
-        INT64 val;
+        INT64 val = 0;
         stringstream s;
         s << UnicodeStringRef(buffer).asUTF8();
         s >> val;
@@ -850,7 +850,7 @@ namespace uima {
       case internal::gs_tyShortType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            short shortval;
+            short shortval = 0;
             stringstream s;
             s << strval.c_str();
             s >> shortval;
@@ -861,7 +861,7 @@ namespace uima {
       case internal::gs_tyLongType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            INT64 longval;
+            INT64 longval = 0;
             stringstream s;
             s << strval.c_str();
             s >> longval;
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index c0c2bbb..19b1814 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -734,7 +734,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyShortArrayType: {
-        short val;
+        short val = 0;
         //string strval;
         //UnicodeStringRef(buffer).extractUTF8(strval);
         stringstream s;
@@ -745,7 +745,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyLongArrayType: {
-        INT64 val;
+        INT64 val = 0;
         stringstream s;
         s << buffer;
         s >> val;
@@ -876,7 +876,7 @@ namespace uima {
       case internal::gs_tyShortType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          short shortval;
+          short shortval = 0;
           stringstream s;
           s << strval.c_str();
           s >> shortval;
@@ -887,7 +887,7 @@ namespace uima {
       case internal::gs_tyLongType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          INT64 longval;
+          INT64 longval = 0;
           stringstream s;
           s << strval.c_str();
           s >> longval;
-- 
2.43.0


From 4323b88e053004b30b2db1344a56db5064439784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 082/163] fix: XMI files may have names of any length

---
 src/cas/xmideserializer.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..846f3fe 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,12 +84,9 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
-    XmiDeserializer::deserialize(fileIS, cas, lenient);
+    string filename;
+    UnicodeStringRef(xmiFilename).extract(filename, NULL);
+    XmiDeserializer::deserialize(filename.c_str(), cas, lenient);
   }
 
   void XmiDeserializer::deserialize(InputSource const & crInputSource, CAS & cas, bool lenient) {
@@ -112,7 +109,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -133,7 +130,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -217,7 +214,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -238,7 +235,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -314,12 +311,9 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
-    XmiDeserializer::deserialize(fileIS, cas, sharedData);
+    string filename;
+    UnicodeStringRef(xmiFilename).extract(filename, NULL);
+    XmiDeserializer::deserialize(filename.c_str(), cas, sharedData);
   }
 }
 
-- 
2.43.0


From caba9c7e33b362ac20159743e3b45966ef9e0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 083/163] fix: format error messages with parameters of any
 length

---
 src/framework/exceptions.cpp | 56 ++++++++----------------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..426a109 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,9 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      string unknownId;
+      long2String((long) iv_utMsgId, unknownId);
+      return string("Unknown message id ") + unknownId;
     }
 
     //parameter substitution
@@ -207,66 +209,32 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
+    string target;
     while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
-          unsigned long index;
-          int len;
-          string arg;
           // determine the number of the specified argument ...
-          index = (unsigned long) atol(msg);
-          if (index > numparams)       // param not defined
-          {
-            arg = "???";      // replace it by "dont-know"
+          unsigned long index = (unsigned long) atol(msg);
+          if (index == 0 || index > numparams) {      // param not defined
+            target += "???";      // replace it by "dont-know"
           } else {
-            // ... the indexed argument ...
-            arg = iv_vecParams[index - 1]; // zero-based array!
-            //assert(arg.length() > 0);
+            // ... and append the indexed argument
+            target += iv_vecParams[index - 1]; // zero-based array!
           }
-          len = arg.length();
-          // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
-          }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
-          }
-          msg = msg+1;
           while ( isdigit(*msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    return target;
   }
 
   ostream &
-- 
2.43.0


From ae93211d0a2cb0c8b4215ff845bbcf34d410adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 084/163] fix: a CAS heap that cannot grow stays as it is

---
 src/cas/uima/lowlevel_fsheap.hpp        |  9 ++++++---
 src/cas/uima/lowlevel_internal_heap.hpp | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a556a57..17eefd8 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -292,6 +292,9 @@ namespace uima {
         assert( iv_rclTypeSystem.isValidType( tyType ) );
         assert( iv_rclTypeSystem.getFeatureNumber(tyType) == 0 );
         assert( iv_rclTypeSystem.subsumes( uima::internal::gs_tyArrayBaseType, tyType ) );
+        if (uiSize > 0x7ffffff0u) { // more than a heap can hold
+          throw std::bad_alloc();
+        }
         TyFSHeap & rtyHeap = getHeap();
         Ty8BitHeap & rty8BitHeap = get8BitHeap();
         Ty16BitHeap & rty16BitHeap = get16BitHeap();
@@ -301,8 +304,8 @@ namespace uima {
         if (tyType == uima::internal::gs_tyLongArrayType ||
             tyType == uima::internal::gs_tyDoubleArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty64BitHeapResult = rty64BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty64BitHeapResult);
@@ -310,15 +313,15 @@ namespace uima {
         else if (tyType == uima::internal::gs_tyBooleanArrayType ||
                  tyType == uima::internal::gs_tyByteArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty8BitHeapResult = rty8BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty8BitHeapResult);
         } else if (tyType == uima::internal::gs_tyShortArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty16BitHeapResult = rty16BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty16BitHeapResult);
diff --git a/src/cas/uima/lowlevel_internal_heap.hpp b/src/cas/uima/lowlevel_internal_heap.hpp
index afeb69f..494e6b9 100644
--- a/src/cas/uima/lowlevel_internal_heap.hpp
+++ b/src/cas/uima/lowlevel_internal_heap.hpp
@@ -42,6 +42,7 @@
 
 #include "uima/macros.h"
 
+#include <new>
 #include <vector>
 
 #if defined( _MSC_VER )
@@ -179,20 +180,27 @@ namespace uima {
         int increaseHeap(WORD32 n) {
           //assert( n > 0 );
           int result = iv_topOfHeap;
-          iv_topOfHeap += n;
+          // cells are addressed by an int
+          if ( n >= 0x7fffffffu - iv_topOfHeap ) {
+            throw std::bad_alloc();
+          }
 
           // usual case, just return
-          if ( iv_topOfHeap < iv_uiCellNumber ) {
+          if ( iv_topOfHeap + n < iv_uiCellNumber ) {
+            iv_topOfHeap += n;
             return result;
           }
 
           // calculate new heap size to be at least double current size
-          if ( n > iv_uiCellNumber ) {
-            iv_uiCellNumber += n;
+          WORD32 uiNewCellNumber = iv_uiCellNumber;
+          if ( n > uiNewCellNumber ) {
+            uiNewCellNumber += n;
           } else {
-            iv_uiCellNumber *= 2;
+            uiNewCellNumber *= 2;
           }
-          T* iv_pTHeapNew = new T[iv_uiCellNumber];
+          T* iv_pTHeapNew = new T[uiNewCellNumber];
+          iv_topOfHeap += n;
+          iv_uiCellNumber = uiNewCellNumber;
           assert( iv_pTHeapNew != NULL );
           memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));
           memset(iv_pTHeapNew + result, iv_iDefaultValue, (iv_uiCellNumber - result)*sizeof(T));
-- 
2.43.0


From a7c0d232b895eb3f580be3c58b50d63cfa18baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 085/163] fix: escape all text of printed descriptors

---
 src/framework/taespecifier.cpp | 115 ++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 61 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..a651fe5 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -670,6 +670,11 @@ namespace uima {
     }
   }
 
+  // appends text as character data or as an attribute value
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    XMLWriterABase::normalize(UnicodeStringRef(text), s);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -677,7 +682,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -692,7 +697,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -728,10 +733,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -769,7 +774,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -810,7 +815,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -846,7 +851,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -875,10 +880,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -907,7 +912,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -951,7 +956,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -971,15 +976,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1000,7 +1005,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1030,7 +1035,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1068,7 +1073,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1120,7 +1125,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1133,7 +1138,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1142,7 +1147,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1162,15 +1167,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1200,29 +1205,23 @@ namespace uima {
     ///AnalysisEngineMetaData const & md = * getAnalysisEngineMetaData();
     
     //    name
-    icu::UnicodeString out;
     s.append("<name>");
-    XMLWriterABase::normalize(UnicodeStringRef(md.getName()), out);
-    s.append(out);
+    appendText(md.getName(), s);
     s.append("</name>");
 
     //   description
     s.append("<description>");
-    out.setTo("");
-    XMLWriterABase::normalize(UnicodeStringRef(md.getDescription()), out);
-    s.append( out );
+    appendText(md.getDescription(), s);
     s.append("</description>");
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
     s.append("<vendor>");
-    out.setTo("");
-     XMLWriterABase::normalize(UnicodeStringRef(md.getVendor()), out);
-    s.append( out );
+    appendText(md.getVendor(), s);
     s.append("</vendor>");
 
 
@@ -1232,7 +1231,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1262,7 +1261,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1300,7 +1299,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1330,7 +1329,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1354,7 +1353,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1373,11 +1372,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1388,17 +1387,15 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
-          out.setTo("");
-          XMLWriterABase::normalize(UnicodeStringRef(td->getDescription()), out);
-          s.append(out);
+          appendText(td->getDescription(), s);
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1408,19 +1405,17 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
-              out.setTo("");
-              XMLWriterABase::normalize(UnicodeStringRef(fs->getDescription()), out);
-              s.append(out);
+              appendText(fs->getDescription(), s);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1440,12 +1435,10 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
-              out.setTo("");
-              XMLWriterABase::normalize(UnicodeStringRef(value->getDescription()), out);
-              s.append(out);
+              appendText(value->getDescription(), s);
               s.append("</description>");
               s.append("</value>");
             }
@@ -1467,11 +1460,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1485,10 +1478,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1517,7 +1510,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1574,7 +1567,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From e54b23d847477c9d8f98c9c6639c1992be823160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 086/163] fix: print float settings with all their digits

---
 src/framework/taespecifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index a651fe5..dfdaed8 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -715,7 +715,7 @@ namespace uima {
 
   void appendFloat(float f, icu::UnicodeString & s) {
     char c[256];
-    sprintf(c, "%f", f);
+    snprintf(c, sizeof(c), "%.9g", f);
     s.append(c);
   }
 
-- 
2.43.0


From fc6900f54f8f65d6f67d6447be49172bb16ebcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 087/163] fix: print to which delegates the override of a
 parameter is restricted

---
 src/framework/taespecifier.cpp      | 11 +++++++++++
 src/framework/uima/config_param.hpp |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index dfdaed8..f400b1b 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -763,6 +763,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restrictions = confParam->getRestrictions();
+      if (! restrictions.empty()) {
+        s.append("<restrictOverrideTo>");
+        for (size_t j=0; j<restrictions.size(); ++j) {
+          if (j > 0) {
+            s.append(" ");
+          }
+          appendText(restrictions[j], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..22d589a 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -61,7 +61,7 @@ namespace uima {
       SINGLE_VALUE = false, MULTIPLE_VALUES = true
     };
     ConfigurationParameter()
-        :MetaDataObject(), iv_name(), iv_description(), iv_enParamAggregation(SINGLE_VALUE),
+        :MetaDataObject(), iv_name(), iv_description(), iv_enParamType(STRING), iv_enParamAggregation(SINGLE_VALUE),
         iv_mandatory(false), iv_vecRestrictedToDelegates() {}
 
 
@@ -153,9 +153,9 @@ namespace uima {
     * setting this parameter. If the vector is empty, all delegates
     * are possibly affected.
     **/
-    /*       const std::vector<icu::UnicodeString> & getRestrictions() const{ */
-    /*          return iv_vecRestrictedToDelegates;                           */
-    /*       }                                                                */
+    const std::vector<icu::UnicodeString> & getRestrictions() const {
+      return iv_vecRestrictedToDelegates;
+    }
 
   private:
     icu::UnicodeString iv_name;
-- 
2.43.0


From 14818f191745f27972b049850dfabee1af97943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 088/163] fix: print the type priorities of a descriptor where
 the schema has them

---
 src/framework/taespecifier.cpp | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index f400b1b..d3e8119 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1352,26 +1352,6 @@ namespace uima {
       s.append("</flowConstraints>");
     }
 
-    //type priorites
-    const AnalysisEngineMetaData::TyVecpTypePriorities  & prioDesc =  
-                    md.getTypePriorities();
-     if (prioDesc.size() > 0) {
-      s.append("<typePriorities>");
-      for (i=0; i<prioDesc.size() ;++i) {
-        s.append("<priorityList>");
-        TypePriority * prio = prioDesc[i];
-        vector <icu::UnicodeString> vecTypeOrder = prio->getTypeOrder();
-        for ( j = 0; j < vecTypeOrder.size();  ++j) {
-
-          s.append("<type>");
-          appendText(vecTypeOrder[j], s);
-          s.append("</type>");
-        }
-        s.append("</priorityList>");
-      }
-      s.append("</typePriorities>");
-    }
-
     // type system
 
       s.append("<typeSystemDescription>");
@@ -1461,6 +1441,26 @@ namespace uima {
       }
       s.append("</types></typeSystemDescription>");
 
+    //type priorites
+    const AnalysisEngineMetaData::TyVecpTypePriorities  & prioDesc =  
+                    md.getTypePriorities();
+     if (prioDesc.size() > 0) {
+      s.append("<typePriorities>");
+      for (i=0; i<prioDesc.size() ;++i) {
+        s.append("<priorityList>");
+        TypePriority * prio = prioDesc[i];
+        vector <icu::UnicodeString> vecTypeOrder = prio->getTypeOrder();
+        for ( j = 0; j < vecTypeOrder.size();  ++j) {
+
+          s.append("<type>");
+          appendText(vecTypeOrder[j], s);
+          s.append("</type>");
+        }
+        s.append("</priorityList>");
+      }
+      s.append("</typePriorities>");
+    }
+
     //fsIndexCollection
     s.append("<fsIndexCollection>");
     //fsIndexCollection -- imports
-- 
2.43.0


From 316739ca77945cc4b6b9ce33b3acfa56371cbf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 089/163] fix: print aggregate descriptors without a flow

---
 src/framework/taespecifier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index d3e8119..a79af40 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1328,9 +1328,9 @@ namespace uima {
     s.append("</configurationParameterSettings>");
 
     // flow constraints
-    if (!isPrimitive()) {
+    FlowConstraints const * pFlow = md.getFlowConstraints();
+    if (!isPrimitive() && pFlow != NULL) {
       s.append("<flowConstraints>");
-      FlowConstraints const * pFlow = md.getFlowConstraints();
       FlowConstraints * flow = CONST_CAST(FlowConstraints *, pFlow);
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
         s.append("<fixedFlow>");
-- 
2.43.0


From b46f629a05562e66a47a85bf1d3ab17066c11233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 090/163] fix: CDATA sections are text of descriptor elements

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index e5dcff0..f1665d0 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2243,7 +2243,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE
+          || children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From f3f09ccc31343ce7cc51a93e1ef8f7c91271e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 091/163] fix: references to unset environment variables in
 descriptors

---
 src/framework/taespecifierbuilder.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f1665d0..b322684 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2249,9 +2249,12 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
         if (childTag.compare(TAG_ENV_VAR_REF) == 0) {
-          icu::UnicodeString envVarName(convert(children->item(i)->getFirstChild()->getNodeValue()));
-          util::EnvironmentVariableQueryOnly clEnvVar(UnicodeStringRef(envVarName).asUTF8().c_str());
-          spannedText.append(clEnvVar.getValue());
+          icu::UnicodeString envVarName(convert(children->item(i)->getTextContent()));
+          std::string envVarNameUTF8(UnicodeStringRef(envVarName).asUTF8());
+          util::EnvironmentVariableQueryOnly clEnvVar(envVarNameUTF8.c_str());
+          if (clEnvVar.getValue() != NULL) {
+            spannedText.append(clEnvVar.getValue());
+          }
         } else {
           /**
           ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
-- 
2.43.0


From 95243468bbf9fde298c063a73a95a8fd29a2c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 092/163] fix: 1 is a spelling of true in descriptors

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index b322684..4c4a188 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2217,7 +2217,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   bool XMLParser::isTrue(const icu::UnicodeString & value) const {
     /*       cout << "Buffer:" << convert(cpUCBuf) << endl;                       */
     /*       return(XMLString::compareString(cpUCBuf, convert(TRUE_VALUE)) == 0); */
-    return(value.compare(TRUE_VALUE) == 0);
+    // the schema has two spellings of true
+    return(value.compare(TRUE_VALUE) == 0 || value.compare("1") == 0);
   }
 
   XMLCh const * XMLParser::convert(char const * cpBuf) const {
-- 
2.43.0


From 049c840f3d6b33cdaf75bf07dde5cb7e31e28f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 093/163] fix: parameter values may be empty arrays

---
 src/framework/taespecifierbuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 4c4a188..aeb7fde 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -884,7 +884,9 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        DOMElement * firstEntry = findFirstElementNode(arrayEntries);
+        nvPair.define(EXISTS(firstEntry) ? findTypeForValue(firstEntry) : ConfigurationParameter::STRING,
+                      ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
-- 
2.43.0


From 1c5e070f5caa000a9d21c3310625068fc8b385b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 094/163] fix: accept the description and the MIME types of a
 capability

---
 src/framework/taespecifierbuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index aeb7fde..0e3ab2d 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1562,6 +1562,8 @@ namespace uima {
           assert(XMLString::compareString((languages->item(j))->getNodeName(), convert(TAG_CAP_LANG)) == 0);
           capability->addSupportedLanguage(getSpannedText(languages->item(j)));
         }
+      } else if (childTag.compare(TAG_AE_DESCRIPTION) == 0 || childTag.compare("mimeTypesSupported") == 0) {
+        //allowed by the schema, but not used
       } else {//it's either input or output capabilities
         Capability::EnTypeStyle typeStyle;
         if (childTag.compare(TAG_CAP_INPUTS) == 0) {
-- 
2.43.0


From 69daa7c94ff9f034b0730e615538b4f6161e7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 095/163] fix: read the priority lists of a priorityLists
 element

---
 src/framework/taespecifierbuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 0e3ab2d..06563e6 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1207,6 +1207,14 @@ namespace uima {
       if (childTag.compare(TAG_TYPE_PRIORITY_LIST) == 0) {
         TypePriority * prio =  buildTypePriority((DOMElement *)child);
         aeMetaData.addTypePriority(prio);
+      } else if (childTag.compare("priorityLists") == 0) {
+        //the lists may have an element of their own around them
+        DOMNodeList * lists = child->getChildNodes();
+        for (size_t j=0; j < lists->getLength(); j++) {
+          if ((lists->item(j))->getNodeType() == DOMNode::ELEMENT_NODE) {
+            aeMetaData.addTypePriority(buildTypePriority((DOMElement *) lists->item(j)));
+          }
+        }
       } else if (childTag.compare(TAG_IMPORTS)==0) {
         DOMNodeList * importDescs = child->getChildNodes();
         if (EXISTS(importDescs)) {
-- 
2.43.0


From 3e64a6e22755972559124ef9c8bfac6ed7d25cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 096/163] fix: fsIndexes and fsIndexCollection have the same
 content

---
 src/framework/taespecifierbuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 06563e6..ab6894a 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -541,7 +541,9 @@ namespace uima {
         vector <icu::UnicodeString> alreadyImported;
         buildTypePriorities(*aeMetaData, child, xmlFileLoc, alreadyImported);
       } else if (childTag.compare(TAG_FS_INDEXES) == 0) {
-        buildFSIndexes(*aeMetaData, child);
+        //the schema gives both elements the same content
+        vector <icu::UnicodeString> alreadyImported;
+        buildFSIndexCollection(*aeMetaData, child, alreadyImported, xmlFileLoc);
       } else if (childTag.compare(TAG_FS_INDEX_COLLECTION) == 0) {
         vector <icu::UnicodeString> alreadyImported;
         buildFSIndexCollection(*aeMetaData, child, alreadyImported, xmlFileLoc);
@@ -1368,6 +1370,8 @@ namespace uima {
       const icu::UnicodeString & childTag = convert(child->getNodeName());
       if (childTag.compare(TAG_FS_INDEXES) == 0) {
         buildFSIndexes(aeMetaData, child);
+      } else if (childTag.compare(TAG_FS_INDEX_DESC) == 0) {
+        aeMetaData.addFSIndexDescription(buildFSIndexDesc(child));
       } else if (childTag.compare(TAG_IMPORTS)==0) {
 
         DOMNodeList * importDescs = child->getChildNodes();
-- 
2.43.0


From 309cfbf633d313a1274daad220a7934c1a497c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 097/163] fix: refuse aggregate descriptors which import
 themselves

---
 src/framework/taespecifierbuilder.cpp      | 22 +++++++++++++++++++++-
 src/framework/uima/taespecifierbuilder.hpp |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index ab6894a..1037af7 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -123,8 +123,28 @@ namespace uima {
       throw exc;
     }
 
+    for (size_t i=0; i < iv_vecOpenFiles.size(); i++) {
+      if (fn == iv_vecOpenFiles[i]) {
+        ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+        errMsg.addParam(TAG_IMPORT_DESC);
+        errMsg.addParam(fn);
+        UIMA_EXC_THROW_NEW(InvalidXMLException,
+                           UIMA_ERR_CONFIG_INVALID_XML_TAG,
+                           errMsg,
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
+    }
+
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() ); 
-    parseAnalysisEngineDescription(taeSpec, fileIS);
+    iv_vecOpenFiles.push_back(fn);
+    try {
+      parseAnalysisEngineDescription(taeSpec, fileIS);
+    } catch (...) {
+      iv_vecOpenFiles.pop_back();
+      throw;
+    }
+    iv_vecOpenFiles.pop_back();
   }
 
 
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 9a6fc20..d91e692 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -257,6 +257,7 @@ namespace uima {
 
   private:
     ErrorHandler * iv_pXMLErrorHandler;
+    std::vector<icu::UnicodeString> iv_vecOpenFiles;  // the descriptors being parsed, importing one another
 	bool doSchemaValidation;
 	TCHAR * schemaFileName;
    
-- 
2.43.0


From 7d4778ae74129a30a4bac6c825409ac122fcd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 098/163] fix: all features of an imported type can be
 capabilities

---
 src/framework/taespecifierbuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 1037af7..97bed5e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -557,6 +557,10 @@ namespace uima {
 		    aeMetaData->setTypeSystemDescription(tsDesc);
 		  }
           buildTypeSystemDesc( *(aeMetaData->getTypeSystemDescription()), child);
+          //the capabilities may name imported types
+          aeMetaData->getTypeSystemDescription()->setXmlFileLocation(xmlFileLoc);
+          vector <icu::UnicodeString> alreadyImported;
+          aeMetaData->getTypeSystemDescription()->resolveImports(alreadyImported);
       } else if (childTag.compare(TAG_TYPE_PRIORITIES) == 0) {
         vector <icu::UnicodeString> alreadyImported;
         buildTypePriorities(*aeMetaData, child, xmlFileLoc, alreadyImported);
-- 
2.43.0


From 2601f0aa13a5bb6972160bf780fa67663625d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 099/163] fix: parameters without groups have no fallback
 groups

---
 src/framework/taespecifier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index a79af40..0906d1d 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -321,7 +321,9 @@ namespace uima {
 
     //check the fallback groups, if any
     vector < icu::UnicodeString> fallbackGroups;
-    generateFallbackGroups(groupName, strategy, fallbackGroups);
+    if (hasGroups()) {
+      generateFallbackGroups(groupName, strategy, fallbackGroups);
+    }
     size_t i=0;
     while (i< fallbackGroups.size() && (! EXISTS(value))) {
       value = getNameValuePairNoFallback(fallbackGroups[i], paramName, ancKey);
-- 
2.43.0


From e58a0761027d3f71118802bcca2fe5f2fb816166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 100/163] fix: escape names which the type system writer prints

---
 src/cas/xmltypesystemwriter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmltypesystemwriter.cpp b/src/cas/xmltypesystemwriter.cpp
index 02c3a53..48eae57 100644
--- a/src/cas/xmltypesystemwriter.cpp
+++ b/src/cas/xmltypesystemwriter.cpp
@@ -34,6 +34,7 @@
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
 #include "uima/xmltypesystemwriter.hpp"
+#include "uima/xmlwriter.hpp"
 #include "uima/internal_xmlconstants.hpp"
 #include "uima/internal_casimpl.hpp"
 /* ----------------------------------------------------------------------- */
@@ -52,11 +53,18 @@ using namespace std;
 
 namespace uima {
 
+  // a name as it is written in an attribute value
+  static icu::UnicodeString escaped(UnicodeStringRef const & crName) {
+    icu::UnicodeString result;
+    XMLWriterABase::normalize(crName, result);
+    return result;
+  }
+
   XMLTypeSystemWriter::XMLTypeSystemWriter(CAS const & crCAS)
       : iv_crCAS( crCAS) {}
 
   void XMLTypeSystemWriter::writeType(ostream & os, uima::Type const & crType) const {
-    UnicodeStringRef typeName( crType.getName() );
+    icu::UnicodeString typeName = escaped( crType.getName() );
 
     os << "<" << uima::internal::XMLConstants::TAGNAME_TYPE
     << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << typeName << "\">" << endl;
@@ -74,8 +82,8 @@ namespace uima {
         features[i].getRangeType(range);
         assert( range.isValid());
         os <<"<" << uima::internal::XMLConstants::TAGNAME_FEATURE
-        << " " <<  uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << features[i].getName()
-        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << range.getName() << "\"/>" << endl;
+        << " " <<  uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << escaped( features[i].getName() )
+        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << escaped( range.getName() ) << "\"/>" << endl;
 // TODO ? add multiRefs ?
       }
     }
-- 
2.43.0


From 9690a0c5c10ebd906f275bccd63db97ffba14e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 101/163] fix: the type system writer prints multirefs, which
 the reader reads

---
 src/cas/xmltypesystemwriter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmltypesystemwriter.cpp b/src/cas/xmltypesystemwriter.cpp
index 48eae57..ef4d5ee 100644
--- a/src/cas/xmltypesystemwriter.cpp
+++ b/src/cas/xmltypesystemwriter.cpp
@@ -83,8 +83,11 @@ namespace uima {
         assert( range.isValid());
         os <<"<" << uima::internal::XMLConstants::TAGNAME_FEATURE
         << " " <<  uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << escaped( features[i].getName() )
-        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << escaped( range.getName() ) << "\"/>" << endl;
-// TODO ? add multiRefs ?
+        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << escaped( range.getName() ) << "\"";
+        if (features[i].isMultipleReferencesAllowed()) {
+          os << " " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << "=\"true\"";
+        }
+        os << "/>" << endl;
       }
     }
     vector<uima::Type> subTypes;
@@ -103,7 +106,7 @@ namespace uima {
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPE << " (" << uima::internal::XMLConstants::TAGNAME_FEATURE << "|" << uima::internal::XMLConstants::TAGNAME_TYPE << ")*>\n"
     "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_TYPE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED>\n"
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_FEATURE << " EMPTY>\n"
-    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED >\n"
+    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << " CDATA #IMPLIED >\n"
     "]>" << endl;
 
     os << "<" << uima::internal::XMLConstants::TAGNAME_TYPEHIERARCHY << ">" << endl;
-- 
2.43.0


From 19ad9585664a29c6554f6493f3200cb6f5ad3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 102/163] fix: write and read the allowed values of string
 subtypes in type systems

---
 src/cas/internal_xmlconstants.cpp      |  1 +
 src/cas/uima/internal_xmlconstants.hpp |  1 +
 src/cas/uima/xmltypesystemreader.hpp   |  1 +
 src/cas/xmltypesystemreader.cpp        | 20 +++++++++++++++++++-
 src/cas/xmltypesystemwriter.cpp        | 15 ++++++++++++++-
 5 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/cas/internal_xmlconstants.cpp b/src/cas/internal_xmlconstants.cpp
index aefe4bc..2edd6e8 100644
--- a/src/cas/internal_xmlconstants.cpp
+++ b/src/cas/internal_xmlconstants.cpp
@@ -58,6 +58,7 @@ namespace uima {
     char const * XMLConstants::ATTRIBUTENAME_RANGE = "range";
     char const * XMLConstants::ATTRIBUTENAME_NAME = "name";
     char const * XMLConstants::ATTRIBUTENAME_MULTIREFS = "multirefs";
+    char const * XMLConstants::TAGNAME_ALLOWEDVALUE = "allowedValue";
   }
 }
 
diff --git a/src/cas/uima/internal_xmlconstants.hpp b/src/cas/uima/internal_xmlconstants.hpp
index 1bf686f..3f1a630 100644
--- a/src/cas/uima/internal_xmlconstants.hpp
+++ b/src/cas/uima/internal_xmlconstants.hpp
@@ -59,6 +59,7 @@ namespace uima {
       static char const * ATTRIBUTENAME_RANGE;
       static char const * ATTRIBUTENAME_NAME;
       static char const * ATTRIBUTENAME_MULTIREFS;
+      static char const * TAGNAME_ALLOWEDVALUE;
     };
   }
 }
diff --git a/src/cas/uima/xmltypesystemreader.hpp b/src/cas/uima/xmltypesystemreader.hpp
index 3e8cdb3..10acb8b 100644
--- a/src/cas/uima/xmltypesystemreader.hpp
+++ b/src/cas/uima/xmltypesystemreader.hpp
@@ -102,6 +102,7 @@ namespace uima {
 
     void createType(lowlevel::TyFSType, DOMElement* );
     void createFeatures(DOMElement* );
+    void getAllowedValues(DOMElement*, std::vector<icu::UnicodeString> & ) const;
 
     icu::UnicodeString iv_ustrCreatorID;
     lowlevel::TypeSystem & iv_rTypeSystem;
diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index ec43b58..cba9267 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -215,6 +215,18 @@ namespace uima {
   }
 
 
+  void XMLTypeSystemReader::getAllowedValues(DOMElement * pTypeElement, std::vector<icu::UnicodeString> & rResult) const {
+    DOMNodeList * children = pTypeElement->getChildNodes();
+    for (unsigned int i=0; i<children->getLength(); ++i) {
+      DOMNode * kid = children->item(i);
+      if (kid->getNodeType() == DOMNode::ELEMENT_NODE
+          && XMLString::compareString(kid->getNodeName(), convert(uima::internal::XMLConstants::TAGNAME_ALLOWEDVALUE)) == 0) {
+        rResult.push_back( convert( ((DOMElement*) kid)->getAttribute( convert(uima::internal::XMLConstants::ATTRIBUTENAME_NAME) ) ) );
+      }
+    }
+  }
+
+
   void XMLTypeSystemReader::createType(lowlevel::TyFSType tyParentType, DOMElement * pNewTypeElement) {
     UIMA_TPRINT("entering createType");
     assert( XMLString::compareString( pNewTypeElement->getNodeName(), convert(uima::internal::XMLConstants::TAGNAME_TYPE)) == 0 );
@@ -228,7 +240,13 @@ namespace uima {
       UIMA_TPRINT("Checking for type : " << newTypeName);
       if (tyNewType == lowlevel::TypeSystem::INVALID_TYPE) {
         UIMA_TPRINT("Creating type : " << newTypeName);
-        tyNewType = iv_rTypeSystem.createType(tyParentType, newTypeName, iv_ustrCreatorID);
+        if (tyParentType == uima::internal::gs_tyStringType) {
+          std::vector<icu::UnicodeString> allowedValues;
+          getAllowedValues(pNewTypeElement, allowedValues);
+          tyNewType = iv_rTypeSystem.createStringSubtype(newTypeName, allowedValues, iv_ustrCreatorID);
+        } else {
+          tyNewType = iv_rTypeSystem.createType(tyParentType, newTypeName, iv_ustrCreatorID);
+        }
       } else {
         checkValidityCondition( iv_rTypeSystem.getParentType(tyNewType) == tyParentType,
                                 UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE,
diff --git a/src/cas/xmltypesystemwriter.cpp b/src/cas/xmltypesystemwriter.cpp
index ef4d5ee..1790764 100644
--- a/src/cas/xmltypesystemwriter.cpp
+++ b/src/cas/xmltypesystemwriter.cpp
@@ -37,6 +37,8 @@
 #include "uima/xmlwriter.hpp"
 #include "uima/internal_xmlconstants.hpp"
 #include "uima/internal_casimpl.hpp"
+#include "uima/internal_fspromoter.hpp"
+#include "uima/lowlevel_typesystem.hpp"
 /* ----------------------------------------------------------------------- */
 /*       Constants                                                         */
 /* ----------------------------------------------------------------------- */
@@ -68,6 +70,15 @@ namespace uima {
 
     os << "<" << uima::internal::XMLConstants::TAGNAME_TYPE
     << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << typeName << "\">" << endl;
+    if (crType.isStringSubType()) {
+      uima::lowlevel::TypeSystem const & crTypeSystem = uima::lowlevel::TypeSystem::promoteTypeSystem(crType.getTypeSystem());
+      vector<icu::UnicodeString> const & values =
+        crTypeSystem.getStringsForStringSubtype( uima::internal::FSPromoter::demoteType(crType) );
+      for (size_t v=0; v<values.size(); ++v) {
+        os << "<" << uima::internal::XMLConstants::TAGNAME_ALLOWEDVALUE
+        << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << escaped( values[v] ) << "\"/>" << endl;
+      }
+    }
     vector<uima::Feature> features;
     crType.getAppropriateFeatures(features);
     size_t i;
@@ -103,7 +114,9 @@ namespace uima {
     os << "<?xml version=\"1.0\"?>" << endl;
     os << "<!DOCTYPE " << uima::internal::XMLConstants::TAGNAME_TYPEHIERARCHY << " [\n"
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPEHIERARCHY << " (type*)>\n"
-    "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPE << " (" << uima::internal::XMLConstants::TAGNAME_FEATURE << "|" << uima::internal::XMLConstants::TAGNAME_TYPE << ")*>\n"
+    "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPE << " (" << uima::internal::XMLConstants::TAGNAME_FEATURE << "|" << uima::internal::XMLConstants::TAGNAME_TYPE << "|" << uima::internal::XMLConstants::TAGNAME_ALLOWEDVALUE << ")*>\n"
+    "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_ALLOWEDVALUE << " EMPTY>\n"
+    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_ALLOWEDVALUE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED>\n"
     "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_TYPE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED>\n"
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_FEATURE << " EMPTY>\n"
     "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << " CDATA #IMPLIED >\n"
-- 
2.43.0


From eec9bca36db435a9e6b26be7b6f03f7d31a9b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 103/163] fix: remove the temporary descriptor when it does not
 parse

---
 src/framework/engine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index c8438c7..e3af2b7 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -299,7 +299,13 @@ namespace uima {
         ofs.close();
         UIMA_TPRINT("Wrote descriptor to temp file:");
         UIMA_TPRINT(tmpFileName);
-        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
+        try {
+          builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
+        } catch (...) {
+          remove(tmpFileName);
+          free(tmpFileName);
+          throw;
+        }
 
         remove(tmpFileName);                // or unlink ??
         free(tmpFileName);                  // Free storage allocated by tempnam
-- 
2.43.0


From 2df418f97be13c2f96fc65d6c1ed4ff96994e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 104/163] fix: refuse an aggregate without flow or with an
 unknown delegate in its flow

---
 src/framework/annotator_mgr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..49c4f6a 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -157,7 +157,12 @@ namespace uima {
 
       assert( ! crTAESpecifier.isPrimitive() );
       //BSIvector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFixedFlow()->getNodes();
-      vector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints()->getNodes();
+      FlowConstraints const * cpFlow = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints();
+      if (cpFlow == NULL) {
+        iv_pEngine->getAnnotatorContext().getLogger().logError("The aggregate has no flow constraints");
+        return UIMA_ERR_CONFIG_NO_ANNOTATORS_SPECIFIED;
+      }
+      vector < icu::UnicodeString > const & crVecEngineNames = cpFlow->getNodes();
 
       // for all engines in the flow
       size_t ui;
@@ -167,6 +172,10 @@ namespace uima {
 //         clTrace.dump(_TEXT("Delegate name"), crEngineName);
 
         AnnotatorContext * pDelegateANC = rANC.getDelegate(crEngineName);
+        if (pDelegateANC == NULL) {
+          iv_pEngine->getAnnotatorContext().getLogger().logError("The flow names an unknown delegate");
+          return UIMA_ERR_CONFIG_SPECIFIED_ANNOTATOR_NOT_FOUND;
+        }
         ErrorInfo errInfo;
         // create a delegate TAE which owns neither the ANC, nor the TAESpecifier, nor the CAS definition
         AnalysisEngine * pEngine = Framework::createAnalysisEngine(*pDelegateANC,
-- 
2.43.0


From 014b260357536d96f8d0fd098f405538ce45c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 105/163] fix: convert file names of any length in the default
 encoding

---
 src/framework/res_abase.cpp     | 20 ++++++++------------
 src/framework/res_annotator.cpp |  8 +++-----
 src/framework/resmgr.cpp        | 21 +++++++++++----------
 3 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/framework/res_abase.cpp b/src/framework/res_abase.cpp
index eb1307b..18ada02 100644
--- a/src/framework/res_abase.cpp
+++ b/src/framework/res_abase.cpp
@@ -75,10 +75,9 @@ namespace uima {
     file.append(".");
     file.append(getKind());
 
-    char c[2056];
-    int32_t len = file.extract(0, file.length(), c);
-    assert( len == file.length());
-    iv_fileName.setNew( c );   // set filename from extracted C-string
+    std::string c;
+    UnicodeStringRef(file).extract(c);
+    iv_fileName.setNew( c.c_str() );   // set filename from extracted C-string
   }
 
   ////////////////////////////////////////////////////////////////
@@ -104,20 +103,17 @@ namespace uima {
 
 
   void LanguageKindFileResource::resolveFilename() {
-    const size_t bufLen = 2056;
-    char buf[bufLen];
+    std::string buf;
     icu::UnicodeString const & crKey = getKey();
-    int32_t iConvLen = crKey.extract(0, crKey.length(), buf);
-    assert( iConvLen < bufLen );
-    uima::Language lang(buf);
+    UnicodeStringRef(crKey).extract(buf);
+    uima::Language lang(buf.c_str());
 
     icu::UnicodeString crExt(".");
     crExt.append(getKind());
-    iConvLen = crExt.extract(0, crExt.length(), buf);
-    assert( iConvLen < bufLen );
+    UnicodeStringRef(crExt).extract(buf);
 
     ResourceManager::createFilenameForLanguage(lang,
-        buf,
+        buf.c_str(),
         iv_bTryAlternativeTerritories,
         ResourceManager::getInstance().getLocationData(),
         iv_fileName);
diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index fe89f18..b6db105 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -65,11 +65,9 @@ namespace uima {
       icu::UnicodeString const & crAnnotatorFileName = getKey();
 
       // first we must convert our unicode filename to single byte
-      size_t nameLen = crAnnotatorFileName.length();
-      char* buf = new char[1+nameLen];
-      crAnnotatorFileName.extract(0, nameLen, buf);
-      util::Filename filename(buf);
-      delete[] buf;
+      std::string nameBuf;
+      UnicodeStringRef(crAnnotatorFileName).extract(nameBuf);
+      util::Filename filename(nameBuf.c_str());
 
       /* No longer optionally remove the path before loading, or add "itu" prefix.
          Now load only what we're given, i.e. a full filename with path,
diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 7e237fe..0c27aaa 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -798,14 +798,15 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
+    // the names can be longer in the default encoding
+    std::string filename_str;
+    UnicodeStringRef(filename).extract(filename_str);
 
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    std::string lastFilename_str;
+    UnicodeStringRef(lastFilename).extract(lastFilename_str);
 
     //build the filename
-    util::Filename fileLoc(filename_cstr.get());
+    util::Filename fileLoc(filename_str.c_str());
 
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
@@ -818,8 +819,8 @@ namespace uima {
     }
 
     // try in the same directory as lastFilename
-    util::Filename locSameDirAsLast(lastFilename_cstr.get());
-    locSameDirAsLast.setNewName(filename_cstr.get());
+    util::Filename locSameDirAsLast(lastFilename_str.c_str());
+    locSameDirAsLast.setNewName(filename_str.c_str());
 
     if (locSameDirAsLast.isExistent()) {
       return locSameDirAsLast.getAsCString();
@@ -829,7 +830,7 @@ namespace uima {
     util::Location const & fallbackLoc = ResourceManager::getInstance().getLocationData();
 
     std::string nameInDataDir( fallbackLoc.getAsCString() );
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     util::Filename fileInDataDir( nameInDataDir.c_str() );
     fileInDataDir.normalizeAbsolute();                // Normalize to native / or \ separators
     if (fileInDataDir.isExistent()) {
@@ -839,7 +840,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "descriptors/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
@@ -849,7 +850,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "specifiers/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
-- 
2.43.0


From 28f55b86468b1a30ba1653545f055f28bd258879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 106/163] fix: an empty type priority list names no types

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 2c6ac04..3b957ff 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -484,7 +484,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From fa5a770404cacb101c69975258a8a20247b8ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 107/163] fix: refuse an engine description without metadata

---
 src/framework/taespecifierbuilder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 97bed5e..2ce2a6b 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -500,6 +500,16 @@ namespace uima {
           **/
         }
       }
+      if (! EXISTS(taeSpec.getAnalysisEngineMetaData())) {
+        ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+        errMsg.addParam(TAG_AE_METADATA);
+        errMsg.addParam(xmlFileLoc);
+        UIMA_EXC_THROW_NEW(InvalidXMLException,
+                           UIMA_ERR_CONFIG_REQUIRED_SECTION_NOT_FOUND,
+                           errMsg,
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
     } catch (InvalidXMLException & rclException) {
       rclException.getErrorInfo().addContext(ErrorMessage(UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC_FROM_FILE, xmlFileLoc));
       throw rclException;
-- 
2.43.0


From af403d649e59847965b402b9b927186c25fe48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 108/163] fix: a document which the DOM refuses is an
 ill-formed document

---
 src/cas/xmltypesystemreader.cpp       |  9 ++++++-
 src/framework/taespecifierbuilder.cpp | 34 +++++++++++++++++++++------
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index cba9267..39f8922 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -333,7 +333,14 @@ namespace uima {
     }
     parser.setErrorHandler(iv_pXMLErrorHandler);
 
-    parser.parse( crInputSource);
+    try {
+      parser.parse( crInputSource);
+    } catch (DOMException const & e) {
+      // the DOM of Xerces itself refuses the document, e.g. because of its XML version
+      checkValidityCondition( false,
+                              UIMA_MSG_ID_EXC_WRONG_XML_TYPESYSTEM_FORMAT,
+                              icu::UnicodeString((UChar const *) e.getMessage()) );
+    }
     DOMDocument* doc = parser.getDocument();
     assert(EXISTS(doc));
 
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 2ce2a6b..57a87ad 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -73,6 +73,26 @@ namespace uima {
 
   static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
+  static void parseDocument(XercesDOMParser & parser, InputSource const & crInputSource) {
+    try {
+      parser.parse( crInputSource );
+    } catch (DOMException const & e) {
+      // the DOM of Xerces itself refuses the document, e.g. because of its XML version
+      ErrorInfo errInfo;
+      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+      msg.addParam( (UChar const *) crInputSource.getSystemId() );
+      msg.addParam( 0 );
+      msg.addParam( 0 );
+      msg.addParam( (UChar const *) e.getMessage() );
+      errInfo.setMessage(msg);
+      errInfo.setSeverity(ErrorInfo::unrecoverable);
+      ExcIllFormedInputError exc(errInfo);
+      throw exc;
+    }
+  }
+
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
 
@@ -170,7 +190,7 @@ namespace uima {
     parser.setErrorHandler(iv_pXMLErrorHandler);
     
     try {
-      parser.parse( crInputSource );
+      parseDocument(parser, crInputSource);
     } catch (Exception e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -211,7 +231,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( crInputSource );
+      parseDocument(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -256,7 +276,7 @@ namespace uima {
     }
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-    parser.parse( crInputSource );
+    parseDocument(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -296,7 +316,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( crInputSource );
+      parseDocument(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -338,7 +358,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-    parser.parse( crInputSource );
+    parseDocument(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -1953,7 +1973,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( fileIS );
+      parseDocument(parser, fileIS);
     } catch (Exception e) {
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -2034,7 +2054,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     }
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( fileIS );
+      parseDocument(parser, fileIS);
     } catch (Exception e) {
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
-- 
2.43.0


From d80d5ecc7988715847fa49da4c56118b972c515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 109/163] fix: strtrim of a string of white space

---
 src/framework/uima/strtools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 4b769ab..f3b4eba 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1227,14 +1227,14 @@ namespace uima {
       return s;
     }
     size_t beg = 0;
-    size_t end = s.length()-1;
-    while (end >= beg && isspace_templ(s[end]) ) {
+    size_t end = s.length();
+    while (end > beg && isspace_templ(s[end-1]) ) {
       --end;
     }
     while (beg < end && isspace_templ(s[beg]) ) {
       ++beg;
     }
-    return s.substr(beg, end-beg+1);
+    return s.substr(beg, end-beg);
   }
 
   /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 1befd182b2a49eecd57f06837fc538b46bc9b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 110/163] fix: a declared group without parameters is a group

---
 src/framework/taespecifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 0906d1d..2d005e9 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -203,6 +203,9 @@ namespace uima {
     }
     TyConfigGroup::iterator ite = iv_configurationGroups.find(groupName);
     if (ite == iv_configurationGroups.end()) {
+      if (groupName.compare(CONFIG_GROUP_NAME_WHEN_NO_GROUPS) != 0) {
+        iv_hasGroups = true;
+      }
       iv_configurationGroups [groupName] = ConfigurationGroup();
       return UIMA_ERR_NONE;
     } else {
-- 
2.43.0


From 8d65c75febe4e0096515ebfd74404cbb65e7ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 111/163] fix: refuse a built-in type which is declared as a
 string subtype

---
 src/framework/casdefinition.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 3b957ff..7c01e2b 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -120,7 +120,9 @@ namespace uima {
         uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
 
         // if string sub type
-        if (parent == uima::internal::gs_tyStringType) {
+        if (parent == uima::internal::gs_tyStringType
+            && (typeToBeCreated == uima::lowlevel::TypeSystem::INVALID_TYPE
+                || rTypeSystem.getParentType(typeToBeCreated) == parent)) {
           TypeDescription::TyVecpAllowedValues const & crAllowedValues = cpTypeDesc->getAllowedValues();
           vector<icu::UnicodeString> allowedStringValues;
           TypeDescription::TyVecpAllowedValues::const_iterator cit;
-- 
2.43.0


From 9acf93735b36f03cd817d02279d969d59552539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 112/163] fix: an empty array setting has the type of its
 parameter

---
 src/framework/taespecifier.cpp      | 15 +++++++++++++++
 src/framework/uima/config_param.hpp |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 2d005e9..3d5fc80 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -265,6 +265,21 @@ namespace uima {
                            ErrorInfo::recoverable);
       }
     }
+    const ConfigurationParameter * pConfigParm = NULL;
+    TyConfigGroup::const_iterator citGroup = iv_configurationGroups.find(groupName);
+    if (citGroup != iv_configurationGroups.end()) {
+      pConfigParm = citGroup->second.getConfigurationParameter(nvPair->getName());
+    }
+    if (pConfigParm == NULL) {
+      citGroup = iv_configurationGroups.find(CONFIG_GROUP_NAME_COMMON_PARMS);
+      assert(citGroup != iv_configurationGroups.end());
+      pConfigParm = citGroup->second.getConfigurationParameter(nvPair->getName());
+    }
+    assert(EXISTS(pConfigParm));
+    // an empty array has no element which tells its type
+    if (nvPair->isMultiValued() && nvPair->size() == 0) {
+      nvPair->define(pConfigParm->getType(), ConfigurationParameter::MULTIPLE_VALUES);
+    }
     TyConfigSettings::iterator ite = iv_configurationSettings.find(groupName);
     if (ite == iv_configurationSettings.end()) {
       iv_configurationSettings [groupName] = SettingsForGroup();
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index 22d589a..fe9362d 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -237,9 +237,10 @@ namespace uima {
     //Caller assumes memory ownership of string objects in vector
     void extractSingleByteStringValues( std::vector<std::string*> & values) const;
 
+    // the number of values
+    size_t size() const;
 
   private:
-    size_t size() const;
     void ensureType(ConfigurationParameter::EnParameterType t) const;
     void ensureSingleValue() const;
     void ensureMultipleValues() const;
-- 
2.43.0


From 111675399a65751fe4f37177b639866f965d154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 113/163] fix: a parameter set by a delegate must be visible to
 it where it is set

---
 src/framework/annotator_context.cpp      | 25 ++++++++++++++++++++----
 src/framework/uima/annotator_context.hpp |  8 ++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..5c86fcb 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -524,11 +524,21 @@ namespace uima {
     return pValueLocal;
   }
 
-  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
+  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+    const AnalysisEngineMetaData * pMetaData = iv_pTaeSpecifier->getAnalysisEngineMetaData();
+    assert(EXISTS(pMetaData));
+    if (pMetaData->hasGroups() && !pMetaData->hasDefaultGroup()) {
+      return UIMA_ERR_CONFIG_INVALID_GROUP_NAME;
+    }
+    // a value which is set here or at an ancestor must be visible to the requester
+    if (!pMetaData->isParameterDefined(pMetaData->getGroupNameWhenNotSpec(), nvPair.getName(), ancKey)) {
+      return errId;
+    }
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(nvPair);
+      errId = iv_pParentAnC->setNameValuePair(nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
@@ -538,11 +548,18 @@ namespace uima {
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
+      const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+    const AnalysisEngineMetaData * pMetaData = iv_pTaeSpecifier->getAnalysisEngineMetaData();
+    assert(EXISTS(pMetaData));
+    // a value which is set here or at an ancestor must be visible to the requester
+    if (!pMetaData->isParameterDefined(groupName, nvPair.getName(), ancKey)) {
+      return errId;
+    }
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
+      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 5b63687..2cc317c 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -418,17 +418,21 @@ namespace uima {
     /**
     * Sets nvPair in the parent (or one of its ancestors), if possible.
     * If not, it tries to set it in its own AnalysisEngineDescription.
+    * Fails where the parameter is not visible to the delegate ancKey.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair);
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     /**
     * Sets nvPair in group groupName of the parent (or one of its ancestors), if possible.
     * If not, it tries to set it in its own AnalysisEngineDescription.
+    * Fails where the parameter is not visible to the delegate ancKey.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair);
+                               const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     LogFacility * iv_pLogger;
     AnnotatorContext * iv_pParentAnC;
-- 
2.43.0


From aa8ec84a8aefea2363e4bc431c5e06134df31dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 114/163] fix: string references pin bounds, compare whole
 texts and replace unpaired surrogates in UTF-8

---
 src/framework/uima/unistrref.hpp | 54 ++++++++++++++++++++++----------
 src/framework/unistrref.cpp      | 36 ++++++++-------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..341507a 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1461,6 +1461,9 @@ namespace uima {
     inline void
     pinIndices(int32_t& start,
                int32_t& length) const;
+    inline void
+    pinLimits(int32_t& start,
+              int32_t& limit) const;
     // constants
     enum {
       kInvalidUChar=0xffff // invalid UChar index
@@ -1544,9 +1547,7 @@ namespace uima {
 
   inline UChar
   UnicodeStringRef::operator[]( int32_t uiIndex ) const {
-    assert(uiIndex < iv_uiLength);
-    assert(EXISTS(iv_pUChars));
-    return iv_pUChars[uiIndex];  //lint !e613: Possible use of null pointer 'UnicodeStringRef<wchar_t>::iv_pUChars' in left argument to operator '['
+    return charAt(uiIndex);
   }
 
   inline int
@@ -1554,7 +1555,7 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    return u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
@@ -1576,14 +1577,27 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
-    if (length > (iv_uiLength - start)) {
+    if (length < 0) {
+      length = 0;
+    } else if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
   }
 
+  inline void
+  UnicodeStringRef::pinLimits(int32_t& start,
+                              int32_t& limit) const {
+    int32_t length = limit;
+    pinIndices(start, length);
+    length = 0;
+    pinIndices(limit, length);
+  }
+
   inline bool
   UnicodeStringRef::operator> (const UnicodeStringRef& text) const {
     return doCompare(0, iv_uiLength, text, 0, text.iv_uiLength) == 1;
@@ -1670,6 +1684,7 @@ namespace uima {
                               const UnicodeStringRef& srcText,
                               int32_t srcStart,
                               int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompare(start, length, srcChars, srcStart, srcLength);
   }
@@ -1733,6 +1748,7 @@ namespace uima {
       const UnicodeStringRef& srcText,
       int32_t srcStart,
       int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompareCodePointOrder(start, length, srcChars, srcStart, srcLength);
   }
@@ -1802,6 +1818,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCaseCompare(start, length, srcChars, srcStart, srcLength, options);
   }
@@ -1814,7 +1831,7 @@ namespace uima {
   inline int32_t
   UnicodeStringRef::indexOf(const UnicodeStringRef& text,
                             int32_t start) const {
-    return indexOf(text, 0, text.iv_uiLength, start, iv_uiLength - start);
+    return indexOf(text, 0, text.iv_uiLength, start, iv_uiLength);
   }
 
   inline int32_t
@@ -1837,7 +1854,7 @@ namespace uima {
   UnicodeStringRef::indexOf(const UChar *srcChars,
                             int32_t srcLength,
                             int32_t start) const {
-    return indexOf(srcChars, 0, srcLength, start, iv_uiLength - start);
+    return indexOf(srcChars, 0, srcLength, start, iv_uiLength);
   }
 
   inline int32_t
@@ -1868,14 +1885,14 @@ namespace uima {
   inline int32_t
   UnicodeStringRef::indexOf(UChar c,
                             int32_t start) const {
-    return doIndexOf(c, start, iv_uiLength - start);
+    return doIndexOf(c, start, iv_uiLength);
   }
 
   inline int32_t
   UnicodeStringRef::indexOf(UChar32 c,
                             int32_t start) const {
     if (!UTF_NEED_MULTIPLE_UCHAR(c)) {
-      return doIndexOf((UChar)c, start, iv_uiLength - start);
+      return doIndexOf((UChar)c, start, iv_uiLength);
     } else {
       UChar buffer[UTF_MAX_CHAR_LENGTH];
       int32_t length = 0;
@@ -1913,7 +1930,7 @@ namespace uima {
   inline int32_t
   UnicodeStringRef::lastIndexOf(const UnicodeStringRef& text,
                                 int32_t start) const {
-    return lastIndexOf(text, 0, text.iv_uiLength, start, iv_uiLength - start);
+    return lastIndexOf(text, 0, text.iv_uiLength, start, iv_uiLength);
   }
 
   inline int32_t
@@ -1936,7 +1953,7 @@ namespace uima {
   UnicodeStringRef::lastIndexOf(const UChar *srcChars,
                                 int32_t srcLength,
                                 int32_t start) const {
-    return lastIndexOf(srcChars, 0, srcLength, start, iv_uiLength - start);
+    return lastIndexOf(srcChars, 0, srcLength, start, iv_uiLength);
   }
 
   inline int32_t
@@ -1967,14 +1984,14 @@ namespace uima {
   inline int32_t
   UnicodeStringRef::lastIndexOf(UChar c,
                                 int32_t start) const {
-    return doLastIndexOf(c, start, iv_uiLength - start);
+    return doLastIndexOf(c, start, iv_uiLength);
   }
 
   inline int32_t
   UnicodeStringRef::lastIndexOf(UChar32 c,
                                 int32_t start) const {
     if (!UTF_NEED_MULTIPLE_UCHAR(c)) {
-      return doLastIndexOf((UChar)c, start, iv_uiLength - start);
+      return doLastIndexOf((UChar)c, start, iv_uiLength);
     } else {
       UChar buffer[UTF_MAX_CHAR_LENGTH];
       int32_t count = 0;
@@ -2039,6 +2056,7 @@ namespace uima {
   UnicodeStringRef::endsWith(const UnicodeStringRef& srcText,
                              int32_t srcStart,
                              int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     return doCompare(iv_uiLength - srcLength, srcLength,
                      srcText, srcStart, srcLength) == 0;
   }
@@ -2075,6 +2093,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2085,6 +2104,7 @@ namespace uima {
                                    int32_t limit,
                                    UChar *dst,
                                    int32_t dstStart) const {
+    pinLimits(start, limit);
     extract(start, limit - start, dst, dstStart);
   }
 
@@ -2092,6 +2112,7 @@ namespace uima {
   UnicodeStringRef::extractBetween(int32_t start,
                                    int32_t limit,
                                    icu::UnicodeString& dst) const {
+    pinLimits(start, limit);
     extract(start, limit - start, dst);
   }
 
@@ -2122,7 +2143,6 @@ namespace uima {
 
   inline UChar
   UnicodeStringRef::charAt(int32_t offset) const {
-    assert(EXISTS(iv_pUChars));
     if ((uint32_t)offset < (uint32_t)iv_uiLength) {
       return iv_pUChars[offset];
     } else {
@@ -2178,8 +2198,8 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
-    icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
-    return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
+    icu::UnicodeString s((UBool)false, iv_pUChars, iv_uiLength);
+    return s.caseCompare(start, length, srcChars, srcStart, srcLength, options);
   }
 
   inline UnicodeStringRef& UnicodeStringRef::setTo(const UnicodeStringRef& srcText) {
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..44532f1 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -50,11 +50,6 @@ namespace uima {
                                const UChar *srcChars,
                                int32_t srcStart,
                                int32_t srcLength) const {
-    // compare illegal string values
-    if (srcChars==0) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
@@ -62,7 +57,11 @@ namespace uima {
     const UChar *chars = getBuffer();
 
     chars += start;
-    srcChars += srcStart;
+    if (srcChars == 0) {            // a missing text is an empty one
+      srcLength = 0;
+    } else {
+      srcChars += srcStart;
+    }
 
     int32_t minLength;
     int8_t lengthResult;
@@ -119,20 +118,9 @@ namespace uima {
       const UChar *srcChars,
       int32_t srcStart,
       int32_t srcLength) const {
-    if (srcChars==NULL) {
-      return 1;
-    }
-
-    // pin indices to legal values
-    pinIndices(start, length);
-
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
-    /* translate the 32-bit result into an 8-bit one */
-    if (diff!=0) {
-      return (int8_t)(diff >> 15 | 1);
-    } else {
-      return 0;
-    }
+    // This readonly aliasing constructor should be cheap as no copy is done
+    icu::UnicodeString s((UBool)false, getBuffer(), this->length());
+    return s.compareCodePointOrder(start, length, srcChars, srcStart, srcLength);
   }
 
   int32_t UnicodeStringRef::indexOf(UChar const *srcChars,
@@ -295,7 +283,8 @@ namespace uima {
                                     int32_t startLength,
                                     std::string & target,
                                     const char *codepage) const {
-    if (length() == 0) {
+    pinIndices(start, startLength);
+    if (startLength == 0) {
       target.clear();
       return 0;
     }
@@ -347,11 +336,12 @@ namespace uima {
     int32_t len;
 
     UErrorCode err = U_ZERO_ERROR;
-    u_strToUTF8(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), &err);
+    // Unpaired surrogates are replaced, as UTF-8 cannot represent them
+    u_strToUTF8WithSub(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), 0xfffd, NULL, &err);
     if ( err == U_BUFFER_OVERFLOW_ERROR || err == U_STRING_NOT_TERMINATED_WARNING ) {
       buf = heapBuf = new char [len+1];
       err = U_ZERO_ERROR;
-      u_strToUTF8(buf, len+1, &len, getBuffer(), length(), &err);
+      u_strToUTF8WithSub(buf, len+1, &len, getBuffer(), length(), 0xfffd, NULL, &err);
     }
 
     target.assign(buf, len);                   // Copy the result to the string
-- 
2.43.0


From 32e1fa856cf59873af010bed499ad67ebaca1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 115/163] fix: the letter x is legal in a language identifier

---
 src/framework/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..f46fdf0 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
-- 
2.43.0


From 53350834ac8b221148c4396e197d7886e9d56eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 116/163] fix: a language identifier with zeros or variant
 characters is invalid

---
 src/framework/language.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index f46fdf0..d631c8c 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -109,7 +109,8 @@ namespace uima {
 
   void
   Language::_initFromString( const string & crstrLanguageCode ) {
-    init(crstrLanguageCode.c_str());
+    // a zero would end the string early
+    init(crstrLanguageCode.find('\0') == string::npos ? crstrLanguageCode.c_str() : INVALID);
   }
 
   void
@@ -121,7 +122,8 @@ namespace uima {
     u_UCharsToChars(crustrLanguageCode.getBuffer(), buff, uiLen);
     // zero terminate buffer
     buff[uiLen] = char(0);
-    init(buff);
+    // characters that are not invariant are converted to zeros, which would end the string early
+    init(strlen(buff) == uiLen ? buff : INVALID);
   }
 
   Language::Language( TyLanguageAsNumber lLanguageAsNumber ) {
-- 
2.43.0


From 795a93b400f11164583b51fd81bcacc3a617c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 117/163] fix: strtriml keeps the last character

---
 src/framework/uima/strtools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index f3b4eba..9959452 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1287,7 +1287,7 @@ namespace uima {
     const BASIC_STRING_TEMPLATE & s
   ) {
     long beg = 0;
-    long end = s.length()-1;
+    long end = s.length();
     while (beg != end && isspace_templ(s[beg]) ) {
       beg++;
     }
-- 
2.43.0


From e386d2eeabda72836d35605b81a5aff321160050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 118/163] fix: delimited lists are split at every delimiter

---
 src/framework/uima/strtools.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 9959452..7c7e11e 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1816,16 +1816,12 @@ namespace uima {
     }
     BASIC_STRING_TEMPLATE _s;
 
-    while (uiBegin != STRING_NPOS) {
-      //      uiBegin--;
-      uiEnd   = crstrInput.find_first_of(cpszDelimiters, uiBegin+1);
-      if (uiEnd != STRING_NPOS) {
-        uiEnd   = crstrInput.find_first_not_of(cpszDelimiters, uiEnd+1);
-      }
+    while (uiBegin < crstrInput.length()) {
+      uiEnd   = crstrInput.find_first_of(cpszDelimiters, uiBegin);
       if (uiEnd == STRING_NPOS) {
-        uiEnd = crstrInput.length()+1;
+        uiEnd = crstrInput.length();
       }
-      _s = crstrInput.substr(uiBegin, uiEnd-uiBegin-1);
+      _s = crstrInput.substr(uiBegin, uiEnd-uiBegin);
       if (bTrimString) {
         _s = strtrim(_s);
       }
@@ -1833,7 +1829,7 @@ namespace uima {
         rvecstrOutput.push_back(_s);
         uiNumFound++;
       }
-      uiBegin = crstrInput.find_first_not_of(cpszDelimiters, uiEnd);
+      uiBegin = uiEnd + 1;
     }
     return uiNumFound;
   }
-- 
2.43.0


From dfc523ca86384b887be3671d3977d536bc16d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 119/163] fix: an invalid language has no territory

---
 src/framework/language.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index d631c8c..417c556 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -97,9 +97,10 @@ namespace uima {
     } else
       iv_locale[0] = '?';                                 // Illegal length 1,3,4,6,7,...
 
-    if ( strspn(iv_locale, legalChars) < len )            // Illegal characters?
+    if ( strspn(iv_locale, legalChars) < len ) {          // Illegal characters?
+      memset(iv_locale, '\0', 6);                         // Leave no territory
       strcpy(iv_locale, "??");                            // Invalid
-    else {
+    } else {
       if ( len == 5 )
         iv_locale[2] = '-';                               // Normalize to -
     }
-- 
2.43.0


From c1acf8b75ce12f63517e8eb31ed8364db2ed5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 120/163] fix: double2String does not overflow its buffer on
 large numbers

---
 src/framework/uima/strconvert.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/framework/uima/strconvert.hpp b/src/framework/uima/strconvert.hpp
index ce3959e..35946ba 100644
--- a/src/framework/uima/strconvert.hpp
+++ b/src/framework/uima/strconvert.hpp
@@ -180,11 +180,12 @@ namespace uima {
 //    if (d <= DBL_MIN) {
 //       return BASIC_STRING_TEMPLATE("0");
 //    }
-    const int MAXDIGITS = 50;
-    CharT buff[MAXDIGITS];
     assertWithMsg(sizeof(CharT) == sizeof(char), "Double check the use of sprintf() with wchar.");//lint !e506: Constant value Boolean
-    sprintf(buff, "%0#.*f", uiDigitsAfterPeriod, d); //lint !e567 !e557 unrecognized format
-    s = BASIC_STRING_TEMPLATE(buff);
+    // large numbers have hundreds of digits before the period
+    int digits = snprintf(NULL, 0, "%0#.*f", (int)uiDigitsAfterPeriod, d);
+    std::vector<CharT> buff(digits + 1);
+    snprintf(&buff[0], buff.size(), "%0#.*f", (int)uiDigitsAfterPeriod, d); //lint !e567 !e557 unrecognized format
+    s = BASIC_STRING_TEMPLATE(&buff[0]);
     return s;
   }
 
-- 
2.43.0


From 72644d7ce4193a4fd32e3aa4a7dd42ce3b34b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 121/163] fix: process of an engine reports the error of its
 annotator

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..1645c79 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,7 +203,7 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
-- 
2.43.0


From c2931b88c17acf3662dedd4ae536870d275ba36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 122/163] fix: no annotator runs behind one that failed

---
 src/framework/annotator_mgr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 49c4f6a..523c6bf 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -563,7 +563,9 @@ namespace uima {
 
           if (utErrorId != UIMA_ERR_NONE) {
             clTrace.dump(_TEXT("Error"), (long) utErrorId);
-            utRetVal = utErrorId;                  /* I know, this overwrites a previous error */
+            // the annotators behind it must not work on an incomplete result
+            UIMA_ANNOTATOR_TIMING(iv_clTimerLaunchProcess.stop());
+            return utErrorId;
           } else {
             // now remove TOFs from ResultSpec
             vector<TypeOrFeature>::const_iterator citTOF;
-- 
2.43.0


From e20e540fdb0827cca1296ffa14012c227bb6300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 123/163] fix: annotators get the initial view when it has no
 sofa yet

---
 src/cas/uima/cas.hpp            |  2 ++
 src/framework/annotator_mgr.cpp | 22 ++++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cas/uima/cas.hpp b/src/cas/uima/cas.hpp
index bd88b59..fc6eb7e 100644
--- a/src/cas/uima/cas.hpp
+++ b/src/cas/uima/cas.hpp
@@ -103,6 +103,7 @@ namespace uima {
   namespace internal {
     class CASDefinition;
     class EngineBase;
+    class AnnotatorManager;
     class CASSerializer;
     class CASDeserializer;
     class CASImpl;
@@ -160,6 +161,7 @@ namespace uima {
     friend class FeatureStructure;
     friend class SofaFS;
     friend class uima::internal::EngineBase;
+    friend class uima::internal::AnnotatorManager;
     friend class uima::internal::CASSerializer;
     friend class uima::internal::CASDeserializer;
     friend class uima::XCASWriter;
diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 523c6bf..7e003b1 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -549,13 +549,23 @@ namespace uima {
           }
 
           if (requiresTCas) {
-	    SofaFS defSofa = cas.getSofa(pEngine->getAnnotatorContext().mapToSofaID(CAS::NAME_DEFAULT_TEXT_SOFA));
-	    if (!defSofa.isValid()) {
-	      //TODO: throw exception
-	      cerr << "could not get default text sofa " << endl;
-	      return 99;
+	    SofaID const & defSofaId = pEngine->getAnnotatorContext().mapToSofaID(CAS::NAME_DEFAULT_TEXT_SOFA);
+	    if (defSofaId.getSofaId().compare(CAS::NAME_DEFAULT_SOFA) == 0) {
+	      // the sofa of the initial view may not exist yet
+	      tcas = cas.getInitialView();
+	    } else {
+	      SofaFS defSofa = cas.getSofa(defSofaId);
+	      if (!defSofa.isValid()) {
+	        ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFA_NAME_NOT_FOUND);
+	        errMessage.addParam(defSofaId.getSofaId());
+	        UIMA_EXC_THROW_NEW(ExcInvalidRequest,
+	                           UIMA_ERR_RESOURCE_NOT_FOUND,
+	                           errMessage,
+	                           UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,
+	                           ErrorInfo::unrecoverable);
+	      }
+	      tcas = cas.getView(defSofa);
 	    }
-	    tcas = cas.getView(defSofa);
 	    utErrorId = pEngine->process(*tcas, annResSpec);
           } else {
             utErrorId = ((AnalysisEngine*) pEngine)->process(cas, annResSpec);
-- 
2.43.0


From 61d1724af2916567e17bedcaa4cb3ada16adccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 124/163] fix: a CAS does not refer to an annotator context
 after processing

---
 src/framework/internal_engine_base.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..5a3f21c 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -379,6 +379,19 @@ namespace uima {
         // Removed code that used to skip the processing if the document
         // was empty, since not all Sofas have local text. (bll)
 
+        // The sofa mappings of the annotator only apply while it is running,
+        // except for a CAS multiplier which will go on with next().
+        struct ComponentInfo {
+          CAS * base;
+          AnnotatorContext * info;
+          bool keep;
+          ~ComponentInfo() {
+            if (!keep) {
+              base->iv_componentInfo = info;
+            }
+          }
+        } restore = { cas.getBaseCas(), cas.getBaseCas()->iv_componentInfo, getCasInstancesRequiredImpl() > 0 };
+
         return processImpl(cas, resultSpec);
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-- 
2.43.0


From 442b897795f77bff5f790c140910bbd4c31ff5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 125/163] fix: an annotator is deleted when its destroy throws
 an exception

---
 src/framework/annotator.cpp                 |  9 ++++++++-
 src/framework/internal_primitive_engine.cpp | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/framework/annotator.cpp b/src/framework/annotator.cpp
index e4ba553..9344a8e 100644
--- a/src/framework/annotator.cpp
+++ b/src/framework/annotator.cpp
@@ -384,7 +384,14 @@ namespace uima {
     assert(EXISTS(iv_hUserData));
     clTrace.dump("DestroyAnnotator...");
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.start());
-    TyErrorId utRetVal = iv_hUserData->destroy();
+    TyErrorId utRetVal = UIMA_ERR_NONE;
+    try {
+      utRetVal = iv_hUserData->destroy();
+    } catch (...) {
+      delete iv_hUserData;
+      iv_hUserData = 0;
+      throw;
+    }
 
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.stop());
     clTrace.dump(_TEXT("rc"), utRetVal);
diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index 1645c79..62908f3 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -32,6 +32,7 @@
 /* ----------------------------------------------------------------------- */
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
+#include <memory>
 #include "uima/pragmas.hpp"
 #include "uima/macros.h"
 #include "uima/internal_primitive_engine.hpp"
@@ -216,18 +217,19 @@ namespace uima {
       util::Trace trace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
 
       TyErrorId utErrorId = UIMA_ERR_NONE;
-      if (iv_pAnnotator != NULL ) {
-        if (iv_pAnnotator->isInitialized()) {
-          assert( iv_pAnnotator->isValid() );
-          utErrorId = iv_pAnnotator->deInit();
-        }
-        delete iv_pAnnotator;
-        iv_pAnnotator = NULL;
-      }
       if (iv_pCapContainer != NULL) {
         delete iv_pCapContainer;
         iv_pCapContainer = NULL;
       }
+      // released as well when the annotator throws an exception
+      unique_ptr<AnnotatorProxy> apAnnotator(iv_pAnnotator);
+      iv_pAnnotator = NULL;
+      if (apAnnotator.get() != NULL ) {
+        if (apAnnotator->isInitialized()) {
+          assert( apAnnotator->isValid() );
+          utErrorId = apAnnotator->deInit();
+        }
+      }
       return utErrorId;
     }
 
-- 
2.43.0


From cd487a9571044d3d713b7b2d5051c4a7034a6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 126/163] fix: an aggregate passes batchProcessComplete on as
 such

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From 6e160c4e43628d404150d4e83d1f1ffdcb4bda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 127/163] fix: an engine is not initialized when its
 initialization throws

---
 src/framework/internal_engine_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 5a3f21c..3f2fcfd 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -288,6 +288,8 @@ namespace uima {
         return utErrorId;
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
+        // as for any other failure
+        destroy();
         return rclException.getErrorInfo().getErrorId();
       }
 
-- 
2.43.0


From fb36de07fd2e136464032d704179b58f1b1b32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 128/163] fix: an iterator over CASes does not reach a
 destroyed annotator

---
 src/framework/internal_engine_base.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 3f2fcfd..e7e13a7 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -437,11 +437,10 @@ namespace uima {
     bool EngineBase::hasNext() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this ?? (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-           return false;
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          return false;
+        }
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
@@ -452,10 +451,15 @@ namespace uima {
     CAS &  EngineBase::next() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+
+          UIMA_EXC_THROW_NEW(CASIteratorException,
+                             UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             ErrorInfo::unrecoverable);
+        }
         return nextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-- 
2.43.0


From a633d82a1b386b5a269437fb38c9074390bbf221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:09 +0000
Subject: [PATCH 129/163] fix: an engine is deleted when an annotator throws a
 standard exception

---
 src/framework/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index e3af2b7..f4e6948 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -235,6 +235,10 @@ namespace uima {
       return  pResult;
     } catch (Exception & rExc) {
       rErrorInfo = rExc.getErrorInfo();
+    } catch (...) {
+      // thrown by an annotator
+      delete pResult;
+      throw;
     }
     assert( rErrorInfo.getErrorId() != UIMA_ERR_NONE );
     if (pResult != NULL) {
-- 
2.43.0


From 789a28090a6727c903070b96576ee009fa51fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 130/163] fix: sofa mappings of nested aggregates are composed
 with those around them

---
 src/framework/annotator_context.cpp      | 45 ++++++++----------------
 src/framework/uima/annotator_context.hpp |  7 +++-
 2 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 5c86fcb..b8a732e 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -78,38 +78,23 @@ namespace uima {
         // where component sofa name is the key and
         // aggregate sofaname is the value
         // if component sofa name is not set,
-        // set it to the default for tcas sofas.
-        if (sofamap->getComponentSofaName().length() == 0) {
-          icu::UnicodeString ustr(CAS::NAME_DEFAULT_TEXT_SOFA);
-          sofamap->setComponentSofaName(ustr);
-        }
-        SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
-        pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
+        // it is the default for tcas sofas.
         icu::UnicodeString astr = sofamap->getComponentSofaName();
-        iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
+        if (astr.length() == 0) {
+          astr = icu::UnicodeString(CAS::NAME_DEFAULT_TEXT_SOFA);
         }
-
-
+        // the aggregate sofaname is a name of the enclosing context
+        // which may itself be mapped
+        icu::UnicodeString absName = sofamap->getAggregateSofaName();
+        if (EXISTS(parent)) {
+          absName = parent->mapToSofaID(absName).getSofaId();
+        }
+        SofaID * & rpSofaid = iv_mapSofaMappings[astr];
+        if (rpSofaid == NULL) {
+          rpSofaid = new SofaID();
+        }
+        rpSofaid->setSofaId(absName);
+        rpSofaid->setComponentSofaName(astr);
       }
 
     }
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 2cc317c..abc4e85 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -160,7 +160,12 @@ namespace uima {
       } else {
         SofaID * pSofaid = new SofaID();
         pSofaid->setComponentSofaName(componentSofaName);
-        pSofaid->setSofaId(componentSofaName);
+        // an unmapped name is a name of the enclosing context
+        if (iv_pParentAnC != NULL) {
+          pSofaid->setSofaId(iv_pParentAnC->mapToSofaID(componentSofaName).getSofaId());
+        } else {
+          pSofaid->setSofaId(componentSofaName);
+        }
         icu::UnicodeString astr = pSofaid->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
         return *pSofaid;
-- 
2.43.0


From 31cafa59c7f664007420dc0a94450f1314612aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 131/163] fix: a CAS pool takes back only what it has handed
 out

---
 src/framework/caspool.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..e2faab2 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -34,6 +34,8 @@
 #include "uima/err_ids.h"
 #include "uima/msg.h"
 
+#include <algorithm>
+
 using namespace std;
 namespace uima {
 
@@ -113,8 +115,15 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
+    // any view of the CAS may be released
+    CAS * pCas = aCas.getInitialView();
+    // only a CAS of this pool which is in use can be taken back
+    if (find(iv_vecAllInstances.begin(), iv_vecAllInstances.end(), pCas) == iv_vecAllInstances.end()
+        || find(iv_vecFreeInstances.begin(), iv_vecFreeInstances.end(), pCas) != iv_vecFreeInstances.end()) {
+      return;
+    }
+    pCas->reset();
+    iv_vecFreeInstances.push_back(pCas);
     return;
   }
 
-- 
2.43.0


From 732d2c7a58c5678094a78d22093bcc98debbd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 132/163] fix: exceptions of CAS multipliers keep their class

---
 src/framework/internal_engine_base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index e7e13a7..8323616 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -444,7 +444,7 @@ namespace uima {
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-        throw rclException;
+        throw;
       }
     }
 
@@ -464,7 +464,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -480,7 +480,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -509,7 +509,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
-- 
2.43.0


From 11a8f7bd6d7cbebfb33945e044f4a593b6a0ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 133/163] fix: outputs for every language are added to those of
 each language also without inputs

---
 src/framework/internal_capability_container.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..be6e99a 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -253,8 +253,8 @@ namespace uima {
         return;
       }
       assert(EXISTS(iv_psetInputTOFsForUnspecifiedLang));
+      TyMapLang2TypeOrFeatures::iterator it;
       if (iv_psetInputTOFsForUnspecifiedLang->size() != 0) {
-        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2InputTypesOrFeatures.begin(); it != iv_mapLang2InputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetInputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
@@ -270,13 +270,15 @@ namespace uima {
             }
           }
         }
+      }
 
-        // Now do the same copying for the output
+      // Now do the same copying for the output, there may be outputs without inputs
 
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      // if it is in the input it must be in the output too
+      assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
+      assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
 
+      if (iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From 2732d81d53222360fc853fe02243de4492b8bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 134/163] fix: two delegates with one key are refused

---
 src/framework/uima/taespecifier.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/framework/uima/taespecifier.hpp b/src/framework/uima/taespecifier.hpp
index f74945f..3eea58d 100644
--- a/src/framework/uima/taespecifier.hpp
+++ b/src/framework/uima/taespecifier.hpp
@@ -985,6 +985,15 @@ namespace uima {
       if (! isModifiable()) {
         return UIMA_ERR_CONFIG_OBJECT_COMITTED;
       }
+      if (iv_pMapDelegateSpecifiers->find(key) != iv_pMapDelegateSpecifiers->end()) {
+        icu::UnicodeString text("Duplicate delegate analysis engine: ");
+        text.append(key);
+        UIMA_EXC_THROW_NEW(DuplicateConfigElemException,
+                           UIMA_ERR_DUPLICATE_EXISTS,
+                           ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, text),
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
       (*iv_pMapDelegateSpecifiers)[key] = taeSpec;
       return UIMA_ERR_NONE;
     }
-- 
2.43.0


From 09f60ffa06b7ba57a0704957af7579c7536e7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 135/163] fix: settings in descriptors need the type and
 multiplicity of their parameter

---
 src/framework/taespecifier.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 3d5fc80..3f61941 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -280,6 +280,15 @@ namespace uima {
     if (nvPair->isMultiValued() && nvPair->size() == 0) {
       nvPair->define(pConfigParm->getType(), ConfigurationParameter::MULTIPLE_VALUES);
     }
+    if (pConfigParm->getType() != nvPair->getType() || pConfigParm->isMultiValued() != nvPair->isMultiValued()) {
+      icu::UnicodeString text("The value has not the type of the configuration parameter: ");
+      text.append(nvPair->getName());
+      UIMA_EXC_THROW_NEW(ConfigException,
+                         UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM,
+                         ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, text),
+                         ErrorMessage(UIMA_MSG_ID_EXCON_CONFIG_PARAM_SEARCH, nvPair->getName()),
+                         ErrorInfo::recoverable);
+    }
     TyConfigSettings::iterator ite = iv_configurationSettings.find(groupName);
     if (ite == iv_configurationSettings.end()) {
       iv_configurationSettings [groupName] = SettingsForGroup();
-- 
2.43.0


From 646507dfdfbe3f9b6e2f55b5a84318d6ab04eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 136/163] fix: type priorities of delegates hold in the CAS of
 an aggregate

---
 src/framework/casdefinition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 7c01e2b..bb617cf 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -217,6 +217,12 @@ namespace uima {
     void CASDefinition::addTypePriorities(AnalysisEngineDescription const & crTAESpecifier) {
       uima::AnalysisEngineMetaData::TyVecpTypePriorities const & crTypePriorities = crTAESpecifier.getAnalysisEngineMetaData()->getTypePriorities();
       addTypePriorities(crTypePriorities);
+      // and those of its delegates
+      AnalysisEngineDescription::TyMapDelegateSpecs const & crDelegates = crTAESpecifier.getDelegates();
+      AnalysisEngineDescription::TyMapDelegateSpecs::const_iterator cit;
+      for (cit = crDelegates.begin(); cit != crDelegates.end(); ++cit) {
+        addTypePriorities(* (*cit).second);
+      }
     }
 
     void CASDefinition::createIndexesFromANC(AnnotatorContext const & crANC) {
-- 
2.43.0


From 81afad38fed858db7782865d6eb39a27a47bd1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 137/163] fix: indexes can be ordered by strings with allowed
 values

---
 src/cas/lowlevel_indexcomparator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..8f533ab 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,7 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (crTypeSystem.subsumes( crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING), tyAppropType)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
-- 
2.43.0


From 6e811f551f5ecb52ee7099faf9fd8b3b4e8f49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 138/163] fix: an index ordered by a feature without order is
 refused

---
 src/framework/casdefinition.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index bb617cf..10aa66c 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -528,6 +528,21 @@ namespace uima {
     }
 
 
+    // true iff the values of a type have an order which an index can use
+    static bool isOrdered(uima::lowlevel::TypeSystem const & crTypeSystem, uima::lowlevel::TyFSType type) {
+      static const char * const cppTypes[] = {
+        CAS::TYPE_NAME_INTEGER, CAS::TYPE_NAME_FLOAT, CAS::TYPE_NAME_STRING, CAS::TYPE_NAME_BOOLEAN,
+        CAS::TYPE_NAME_BYTE, CAS::TYPE_NAME_SHORT, CAS::TYPE_NAME_LONG, CAS::TYPE_NAME_DOUBLE
+      };
+      for (size_t i=0; i<NUMBEROF(cppTypes); ++i) {
+        if (type == crTypeSystem.getTypeByName(cppTypes[i])) {
+          return true;
+        }
+      }
+      // strings with a list of allowed values
+      return crTypeSystem.subsumes(crTypeSystem.getTypeByName(CAS::TYPE_NAME_STRING), type);
+    }
+
     void CASDefinition::createIndexesFromSpecifier(AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & crIndexDescVec) {
       uima::lowlevel::TypeSystem const & crTypeSystem = *iv_typeSystem;
 
@@ -594,6 +609,15 @@ namespace uima {
 
             }
             assert( crTypeSystem.isValidFeature(feat) );
+            if (kind != uima::lowlevel::IndexDefinition::enFIFO && ! isOrdered(crTypeSystem, crTypeSystem.getRangeType(feat)) ) {
+              ErrorMessage errMessage(UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE, crFeatureName);
+              errMessage.addParam( crTypeSystem.getTypeName(crTypeSystem.getRangeType(feat)) );
+              UIMA_EXC_THROW_NEW(IncompatibleRangeTypeException,
+                                 UIMA_ERR_INCOMPATIBLE_RANGE_TYPE,
+                                 errMessage,
+                                 ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_INDEXES_FROM_CONFIG),
+                                 ErrorInfo::recoverable);
+            }
           } else {
             // use INVALID_FEATURE as a marker for type priority
             feat = uima::lowlevel::TypeSystem::INVALID_FEATURE;
-- 
2.43.0


From 3a766c07b2769e9d17d706888336ee4b51dabdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 139/163] fix: the message of a library which cannot be loaded
 is kept

---
 src/framework/uima/dllfile.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/dllfile.hpp b/src/framework/uima/dllfile.hpp
index 9aa00ce..938678d 100644
--- a/src/framework/uima/dllfile.hpp
+++ b/src/framework/uima/dllfile.hpp
@@ -142,6 +142,7 @@ namespace uima {
       apr_status_t               aprError2;
 #endif
       /* --- functions --- */
+      void                       keepErrorMsg(void);
       /* BASE CONSTRUCTOR NOT SUPPORTED */
       DllProcLoaderFile(void); //lint !e1704
       /* COPY CONSTRUCTOR NOT SUPPORTED */
@@ -205,6 +206,7 @@ namespace uima {
           iv_clFilename.setNewExtension(DSO_EXTN);
         aprError = apr_dso_load(&dsoHandle, iv_clFilename.getAsCString(), dsoPool);
         isLoaded = ( aprError == APR_SUCCESS );
+        keepErrorMsg();
 
 #ifdef WIN32
         // WIN32: LoadLibraryEx falsely reports ERROR_MOD_NOT_FOUND when the dll cannot be loaded.
@@ -256,10 +258,20 @@ namespace uima {
         aprError = apr_dso_sym(&procAddr, dsoHandle, cpszProcName);
         if (aprError == APR_SUCCESS)
           return (TyProcedure) procAddr;
+        keepErrorMsg();
       }
       return NULL;
     }
 
+    // the message of the system does not outlive the next call to the loader
+    inline void DllProcLoaderFile::keepErrorMsg(void)
+    /* ----------------------------------------------------------------------- */
+    {
+      *dsoBuffer = '\0';
+      if ( dsoHandle != NULL )
+        apr_dso_error ( dsoHandle, dsoBuffer, DSOBUFLEN );
+    }
+
     inline const char * DllProcLoaderFile::getErrorMsg(void) const
     /* ----------------------------------------------------------------------- */
     {
@@ -270,7 +282,7 @@ namespace uima {
         if ( aprError == aprError2 )
           return apr_strerror ( aprError2, dsoBuffer, DSOBUFLEN );
 #endif
-        return apr_dso_error ( dsoHandle, dsoBuffer, DSOBUFLEN );
+        return dsoBuffer;
       }
 
     }
-- 
2.43.0


From 41e580c15bc5caeed53956608e7bd3175afc2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 140/163] fix: no view for an invalid sofa

---
 src/cas/cas.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 3048ae9..80684c3 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -554,6 +554,13 @@ namespace uima {
 
   CAS* CAS::getView(SofaFS aSofa) {
     CAS* aTcas;
+    if (! aSofa.isValid() ) {
+      UIMA_EXC_THROW_NEW(InvalidFSObjectException,
+                         UIMA_ERR_INVALID_FS_OBJECT,
+                         UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
+                         ErrorMessage(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE),
+                         ErrorInfo::recoverable);
+    }
     int sofaNum = iv_heap->getIntValue(internal::FSPromoter::demoteFS(aSofa), internal::gs_tySofaNumFeature);
     map<int, CAS*>::iterator cit = iv_baseCas->iv_sofa2tcasMap.find(sofaNum);
     if (cit == iv_baseCas->iv_sofa2tcasMap.end()) {
-- 
2.43.0


From 2fd1f841d3013550cca120e118d0bdfc62f681c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 141/163] fix: the Java bridge reports the error of the engine

---
 src/jni/jni.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index ac96190..069cabb 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -234,6 +234,21 @@ using namespace std;
       cout << "JNILogger::log(...) Exception in JavaLogging()" << endl;
     }
   }
+/********************************************************************
+ * throw the last error an engine logged if it is the one it returned,
+ * or just the error it returned
+ */
+static void throwLastError(JNIEnv * jeEnv, uima::AnalysisEngine & rEngine, uima::TyErrorId tyErrorId) {
+  uima::ErrorInfo const & lastError = rEngine.getAnnotatorContext().getLogger().getLastError();
+  if (lastError.getErrorId() == tyErrorId) {
+    JNIUtils::throwNewInternalException(jeEnv, lastError);
+  } else {
+    uima::ErrorInfo newError;
+    newError.setErrorId(tyErrorId);
+    JNIUtils::throwNewInternalException(jeEnv, newError);
+  }
+}
+
 /********************************************************************
  ***** JNI Functions
  ********************************************************************/
@@ -550,7 +565,12 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     deSerializer.deserializeDefinitions( rSerCAS, casDef );
     UIMA_TPRINT("   done deserializing definitions");
 
-    engineBase.reinitTypeSystem();
+    uima::TyErrorId tyErrorId = engineBase.reinitTypeSystem();
+    if (tyErrorId != UIMA_ERR_NONE) {
+      UIMA_TPRINT("Error during typeSystemInit (code= " << tyErrorId << ")" );
+      throwLastError(jeEnv, *pEngine, tyErrorId);
+      return;
+    }
 
     uima::CAS * pCAS = pInstance->getCAS();
     if (pCAS != NULL) {
@@ -655,11 +675,14 @@ JNIEXPORT void JNICALL JAVA_PREFIX(destroyJNI) (JNIEnv* jeEnv, jobject joJTaf) {
 
     uima::AnalysisEngine * pEngine =  pInstance->getEngine();
 
-    uima::TyErrorId tyErrorId = pEngine->destroy();
-    if (tyErrorId != UIMA_ERR_NONE) {
-      UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
-      return;
+    // an engine which refused the type system is no longer initialized
+    if (pEngine != NULL && pEngine->isInitialized()) {
+      uima::TyErrorId tyErrorId = pEngine->destroy();
+      if (tyErrorId != UIMA_ERR_NONE) {
+        UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
+        throwLastError(jeEnv, *pEngine, tyErrorId);
+        return;
+      }
     }
 
     if (pEngine != NULL) {
@@ -1105,7 +1128,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(batchProcessCompleteJNI) (JNIEnv* jeEnv, jobj
     uima::TyErrorId tyErrorId = pEngine->batchProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwLastError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
@@ -1138,7 +1161,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(collectionProcessCompleteJNI) (JNIEnv* jeEnv,
     uima::TyErrorId tyErrorId = pEngine->collectionProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwLastError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
-- 
2.43.0


From 6d645e37a3b9943cfe932321612905b6887539e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 142/163] fix: arrays are freed as arrays by the Java bridge

---
 src/jni/jni_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jni/jni_utils.cpp b/src/jni/jni_utils.cpp
index 2939c42..d8a084b 100644
--- a/src/jni/jni_utils.cpp
+++ b/src/jni/jni_utils.cpp
@@ -193,7 +193,7 @@ jintArray JNIUtils::createIntArray(JNIEnv* jeEnv, vector<uima::internal::Seriali
 
     jeEnv->SetIntArrayRegion(jiArr, 0, uiLength, pJIntArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJIntArray;
+    delete[] pJIntArray;
   }
 
   return jiArr;
@@ -270,7 +270,7 @@ jbyteArray JNIUtils::createByteArray(JNIEnv* jeEnv, vector<char> const & crVec)
 
     jeEnv->SetByteArrayRegion(jiArr, 0, uiLength, pJByteArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJByteArray;
+    delete[] pJByteArray;
   }
 
   return jiArr;
@@ -306,7 +306,7 @@ jshortArray JNIUtils::createShortArray(JNIEnv* jeEnv, vector<short> const & crVe
 
     jeEnv->SetShortArrayRegion(jiArr, 0, uiLength, pJShortArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJShortArray;
+    delete[] pJShortArray;
   }
 
   return jiArr;
@@ -343,7 +343,7 @@ jlongArray JNIUtils::createLongArray(JNIEnv* jeEnv, vector<INT64> const & crVec)
 
     jeEnv->SetLongArrayRegion(jiArr, 0, uiLength, pJLongArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJLongArray;
+    delete[] pJLongArray;
   }
 
   return jiArr;
-- 
2.43.0


From 4ec084ee90548e7429a280c9fdbac2d13a7af55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 143/163] fix: CASes of a CAS multiplier have the types the
 Java bridge was given

---
 src/framework/annotator_context.cpp      | 10 ++++++++++
 src/framework/caspool.cpp                | 21 +++++++++++++++++++--
 src/framework/internal_engine_base.cpp   |  6 ++++++
 src/framework/uima/annotator_context.hpp |  7 +++++++
 src/framework/uima/caspool.hpp           |  9 +++++++++
 src/jni/jni.cpp                          |  3 +++
 6 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index b8a732e..1c213d4 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -157,6 +157,16 @@ namespace uima {
     return UIMA_ERR_NONE;
   }
 
+  TyErrorId AnnotatorContext::defineCASPool(size_t numInstances, uima::internal::CASDefinition & casDef) {
+    CASPool * pPool = new CASPool(casDef, numInstances);
+    if (pPool == NULL) {
+      return UIMA_ERR_USER_ANNOTATOR_OUT_OF_MEMORY;
+    }
+    delete iv_pCasPool;
+    iv_pCasPool = pPool;
+    return UIMA_ERR_NONE;
+  }
+
   AnnotatorContext * AnnotatorContext::getDelegate(const icu::UnicodeString & key) const {
     TyMapDelegateAnCs::const_iterator ite = iv_mapDelegateAncs.find(key);
     if (ite != iv_mapDelegateAncs.end()) {
diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index e2faab2..bc0994b 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -52,6 +52,7 @@ namespace uima {
       :iv_vecAllInstances(),
       iv_vecFreeInstances(),
       iv_pCasDef(NULL),
+      iv_bOwnsCasDef(true),
       iv_numInstances(numInstances) {
 
     iv_pCasDef = uima::internal::CASDefinition::createCASDefinition(taeSpec);
@@ -64,7 +65,23 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    for (size_t i=0; i < numInstances; i++) {
+    createInstances();
+  }
+
+
+  CASPool::CASPool(uima::internal::CASDefinition & casDef,
+                   size_t numInstances)
+      :iv_vecAllInstances(),
+      iv_vecFreeInstances(),
+      iv_pCasDef(&casDef),
+      iv_bOwnsCasDef(false),
+      iv_numInstances(numInstances) {
+    createInstances();
+  }
+
+
+  void CASPool::createInstances() {
+    for (size_t i=0; i < iv_numInstances; i++) {
       CAS  * pCas = uima::internal::CASImpl::createCASImpl(*iv_pCasDef,false);
       if (pCas == NULL) {
         UIMA_EXC_THROW_NEW(CASPoolException,
@@ -83,7 +100,7 @@ namespace uima {
     for (size_t i=0; i < iv_vecAllInstances.size(); i++) {
       delete iv_vecAllInstances[i];
     }
-    if (iv_pCasDef)
+    if (iv_bOwnsCasDef && iv_pCasDef)
       delete iv_pCasDef;
   }
 
diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 8323616..87aae72 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -312,6 +312,12 @@ namespace uima {
           destroy();
           return utErrorId;
         }
+
+        // and so have the CASes a CAS multiplier fills
+        int numCasRequired =  getCasInstancesRequiredImpl();
+        if (numCasRequired > 0) {
+          utErrorId = iv_pAnnotatorContext->defineCASPool(numCasRequired, *iv_casDefinition);
+        }
         return utErrorId;
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index abc4e85..ac290f3 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -191,6 +191,13 @@ namespace uima {
       */
     TyErrorId defineCASPool(size_t numInstances);
 
+    /**
+      * Defines the CAS pool anew, for CASes with the given definition. 
+      * For internal use only: this is how a component whose type system was replaced gets 
+      * CASes with the new one. CASes of the previous pool are deleted.
+      */
+    TyErrorId defineCASPool(size_t numInstances, uima::internal::CASDefinition & casDef);
+
     /**
     * Returns an empty CAS from the CASPool. This AnnotatorContext retains ownership of 
     * the CAS instance. To return the CAS to the pool, call releaseCAS.
diff --git a/src/framework/uima/caspool.hpp b/src/framework/uima/caspool.hpp
index 208b1ca..a8e64a1 100644
--- a/src/framework/uima/caspool.hpp
+++ b/src/framework/uima/caspool.hpp
@@ -67,6 +67,9 @@ namespace uima {
     std::vector<CAS *> iv_vecFreeInstances;
     size_t    iv_numInstances;
     uima::internal::CASDefinition * iv_pCasDef;
+    bool      iv_bOwnsCasDef;
+
+    void createInstances();
 
   public:
 
@@ -76,6 +79,12 @@ namespace uima {
     */
     CASPool(const AnalysisEngineDescription & taeSpec, size_t numInstances);
 
+    /** Constructor
+    * Creates the specified number of CAS instances based on a CAS definition
+    * which is not owned by the pool and must outlive it.
+    */
+    CASPool(uima::internal::CASDefinition & casDef, size_t numInstances);
+
     /** Destructor */
     ~CASPool(void);
 
diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index 069cabb..67a629b 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -559,6 +559,9 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     uima::internal::EngineBase & engineBase = uima::internal::EngineBase::promoteEngine(*pEngine);
     uima::internal::CASDefinition & casDef = engineBase.getCASDefinition();
 
+    // the engine will replace its CASes
+    pInstance->releaseSegment();
+
     UIMA_TPRINT("deserializng definitions");
     // deserialize CAS definitions (type system and index info)
     uima::internal::CASDeserializer deSerializer;
-- 
2.43.0


From d10c55edf98e7eaa3f68f13470ccf355205f61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 144/163] fix: runAECpp resets the CAS between the runs over
 one file

---
 src/utils/runAECpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index a65c6ca..48a8865 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -610,6 +610,8 @@ void processInputFiles(AnalysisEngine * pEngine) {
       } else {
         //process the cas
         process(pEngine,cas, in, out);
+        //reset the cas for the next iteration
+        cas->reset();
       }
       /* call collectionProcessComplete */
       utErrorId = pEngine->collectionProcessComplete();
-- 
2.43.0


From c41f14e0f68db8fffa9fc394cc7c4bf4a229d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 145/163] fix: the dump shows values of all primitive types and
 string subtypes

---
 src/cas/xmlwriter.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 9a1ef67..954528e 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -219,7 +219,22 @@ namespace uima {
       } else if (tyRange == iv_tyFloatType) {
         os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
         os << " value=\"" << lowlevel::FSHeap::getFSAsFloat(tyValue) << "\" />" << endl;
-      } else if (tyRange == iv_tyStringType) {
+      } else if (tyRange == uima::internal::gs_tyBooleanType) {
+        os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
+        os << " value=\"" << (int)iv_rFSHeap.getBooleanValue(tyFS, tyFeat) << "\" />" << endl;
+      } else if (tyRange == uima::internal::gs_tyByteType) {
+        os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
+        os << " value=\"" << (int)iv_rFSHeap.getByteValue(tyFS, tyFeat) << "\" />" << endl;
+      } else if (tyRange == uima::internal::gs_tyShortType) {
+        os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
+        os << " value=\"" << iv_rFSHeap.getShortValue(tyFS, tyFeat) << "\" />" << endl;
+      } else if (tyRange == uima::internal::gs_tyLongType) {
+        os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
+        os << " value=\"" << iv_rFSHeap.getLongValue(tyFS, tyFeat) << "\" />" << endl;
+      } else if (tyRange == uima::internal::gs_tyDoubleType) {
+        os << newTab << "<" << gs_cpszFeatTagName << " name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
+        os << " value=\"" << iv_rFSHeap.getDoubleValue(tyFS, tyFeat) << "\" />" << endl;
+      } else if (iv_rTypeSystem.subsumes(iv_tyStringType, tyRange)) {
         if (tyValue != 0) {
           UnicodeStringRef  ulsString = iv_rFSHeap.getFSAsString(tyValue);
           icu::UnicodeString usNormalized;
-- 
2.43.0


From dd80b7930bab430dd8bb1ddb6ba24bf1aaad3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 146/163] fix: the dump of annotations that do not cover any
 text

---
 src/cas/xmlwriter.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 954528e..07183cc 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -185,11 +185,16 @@ namespace uima {
 
     if ( iv_addDocument && iv_rTypeSystem.subsumes( iv_tyAnnotationType, tyFSType ) ) {
       AnnotationFS fs(internal::FSPromoter::promoteFS(tyFS, iv_crCAS ));
-      UnicodeStringRef ulsSpan = fs.getCoveredText();
-
       icu::UnicodeString usNormalizedSpan;
-      normalize(ulsSpan, usNormalizedSpan);
-      os << "<annotation_span>" << usNormalizedSpan << "</annotation_span>" << endl;
+      bool bHasSpan = true;
+      try {
+        normalize(fs.getCoveredText(), usNormalizedSpan);
+      } catch (InvalidFSObjectException const &) {
+        bHasSpan = false; // the annotation does not cover any text
+      }
+      if (bHasSpan) {
+        os << "<annotation_span>" << usNormalizedSpan << "</annotation_span>" << endl;
+      }
     }
 
     /*          TBD: when can this happen ? */
-- 
2.43.0


From 41bfbabd31c5b2de840d2bde7980b2e67eb20bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 147/163] fix: the dump shows arrays of all kinds and null
 elements

---
 src/cas/uima/xmlwriter.hpp |  3 ++-
 src/cas/xmlwriter.cpp      | 47 +++++++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/cas/uima/xmlwriter.hpp b/src/cas/uima/xmlwriter.hpp
index 2966a2b..5d10c59 100644
--- a/src/cas/uima/xmlwriter.hpp
+++ b/src/cas/uima/xmlwriter.hpp
@@ -114,7 +114,8 @@ namespace uima {
 
     icu::UnicodeString getTab(int tab) const;
     void writeFS(int tab, std::ostream& os, lowlevel::TyFS, bool bWriteShortStyle) const;
-    void writeArray(int iTab, std::ostream& os, lowlevel::TyFSFeature & tyFeat, lowlevel::TyFS & tyValue, lowlevel::TyFSType tyRange, icu::UnicodeString & newTab) const;
+    void writeArray(int iTab, std::ostream& os, lowlevel::TyFSFeature & tyFeat, lowlevel::TyFS & tyValue, icu::UnicodeString & newTab) const;
+    void writeArrayValue(int iTab, std::ostream& os, lowlevel::TyFS tyValue) const;
   public:
     XMLDumpWriter(CAS const & crCAS, bool bAddDocBuffer);
     ~XMLDumpWriter();
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 07183cc..6909918 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -208,6 +208,12 @@ namespace uima {
       return;
     }
 
+    if (iv_rTypeSystem.subsumes(iv_tyArrayType, tyFSType)) {
+      writeArrayValue(iTab, os, tyFS);
+      os << usTab << "</"<< gs_cpszFSTagName << ">" << endl;
+      return;
+    }
+
     vector<lowlevel::TyFSFeature> vecFeatures;
     iv_rTypeSystem.getAppropriateFeatures( tyFSType, vecFeatures );
     size_t i;
@@ -248,7 +254,7 @@ namespace uima {
           os << " value=\"" << usNormalized << "\" />" << endl;
         }
       } else if (iv_rTypeSystem.subsumes(iv_tyArrayType, tyRange)) {
-        writeArray(iTab, os, tyFeat, tyValue, tyRange, newTab);
+        writeArray(iTab, os, tyFeat, tyValue, newTab);
       } else {
         // "normal" FS
         if (tyValue != 0) {
@@ -264,10 +270,19 @@ namespace uima {
   }
 
 
-  void XMLDumpWriter::writeArray(int iTab, ostream& os, lowlevel::TyFSFeature & tyFeat, lowlevel::TyFS & tyValue, lowlevel::TyFSType tyRange, icu::UnicodeString & newTab) const {
+  void XMLDumpWriter::writeArray(int iTab, ostream& os, lowlevel::TyFSFeature & tyFeat, lowlevel::TyFS & tyValue, icu::UnicodeString & newTab) const {
     if (tyValue != 0) {
       os << newTab << "<"<< gs_cpszFeatTagName<<" name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
       os << ">" << endl;
+      writeArrayValue(iTab, os, tyValue);
+      os << newTab << "</" << gs_cpszFeatTagName << ">" << endl;
+    }
+  }
+
+
+  void XMLDumpWriter::writeArrayValue(int iTab, ostream& os, lowlevel::TyFS tyValue) const {
+      // the range of a feature may be more general than the type of the array
+      lowlevel::TyFSType tyRange = iv_rFSHeap.getType( tyValue );
       icu::UnicodeString uiArrayTab = getTab( iTab + (2*TAB_INCREMENT) );
       icu::UnicodeString uiArrayValTab = getTab( iTab + (3*TAB_INCREMENT) );
       int iArraySize = iv_rFSHeap.getArraySize( tyValue );
@@ -295,16 +310,36 @@ namespace uima {
           os << uiArrayValTab << "<string_value>" << usNormalizedString << "</string_value>" << endl;
           os << uiArrayTab << "</array_element>" << endl;
         }
-      } else { // FSArray
+      } else if (tyRange == uima::internal::gs_tyFSArrayType) {
         for (j=0; j < iArraySize; ++j) {
           os << uiArrayTab << "<array_element>" << endl;
-          writeFS(uiArrayValTab.length() , os, (lowlevel::TyFS) ptyCArray[j], /*rFoundFSs,*/ true );
+          if (ptyCArray[j] != 0) {
+            writeFS(uiArrayValTab.length() , os, (lowlevel::TyFS) ptyCArray[j], /*rFoundFSs,*/ true );
+          }
+          os << uiArrayTab << "</array_element>" << endl;
+        }
+      } else {
+        // these are not stored as heap cells
+        FeatureStructure fs(internal::FSPromoter::promoteFS(tyValue, iv_crCAS));
+        for (j=0; j < iArraySize; ++j) {
+          os << uiArrayTab << "<array_element>" << endl;
+          os << uiArrayValTab;
+          if (tyRange == uima::internal::gs_tyBooleanArrayType) {
+            os << "<boolean_value>" << (int)BooleanArrayFS(fs).get(j) << "</boolean_value>";
+          } else if (tyRange == uima::internal::gs_tyByteArrayType) {
+            os << "<byte_value>" << (int)ByteArrayFS(fs).get(j) << "</byte_value>";
+          } else if (tyRange == uima::internal::gs_tyShortArrayType) {
+            os << "<short_value>" << ShortArrayFS(fs).get(j) << "</short_value>";
+          } else if (tyRange == uima::internal::gs_tyLongArrayType) {
+            os << "<long_value>" << LongArrayFS(fs).get(j) << "</long_value>";
+          } else {
+            os << "<double_value>" << DoubleArrayFS(fs).get(j) << "</double_value>";
+          }
+          os << endl;
           os << uiArrayTab << "</array_element>" << endl;
         }
       }
       os << uiArrayTab << "</array>" << endl;
-      os << newTab << "</" << gs_cpszFeatTagName << ">" << endl;
-    }
   }
 
   void XMLDumpWriter::write(ostream& os) {
-- 
2.43.0


From eed6822750e7880b920eba19ed35630be379c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 148/163] fix: the dump of feature structures that refer to
 themselves ends

---
 src/cas/uima/xmlwriter.hpp |  2 ++
 src/cas/xmlwriter.cpp      | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/xmlwriter.hpp b/src/cas/uima/xmlwriter.hpp
index 5d10c59..cdf2431 100644
--- a/src/cas/uima/xmlwriter.hpp
+++ b/src/cas/uima/xmlwriter.hpp
@@ -112,6 +112,8 @@ namespace uima {
     lowlevel::TyFSFeature iv_tyBeginPosFeature;
     lowlevel::TyFSFeature iv_tyEndPosFeature;
 
+    mutable std::vector<lowlevel::TyFS> iv_vecOpenFSs; // the feature structures being dumped
+
     icu::UnicodeString getTab(int tab) const;
     void writeFS(int tab, std::ostream& os, lowlevel::TyFS, bool bWriteShortStyle) const;
     void writeArray(int iTab, std::ostream& os, lowlevel::TyFSFeature & tyFeat, lowlevel::TyFS & tyValue, icu::UnicodeString & newTab) const;
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 6909918..9aa678c 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -34,6 +34,8 @@
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
 
+#include <algorithm>
+
 #include "uima/xmlwriter.hpp"
 #include "uima/arrayfs.hpp"
 #include "uima/lowlevel_indexrepository.hpp"
@@ -176,10 +178,13 @@ namespace uima {
     //if a feature value-FS is not in any index, e.g. a List FS,
     //it will be dumped in its expanded
     //form (i.e. with all features)
-    if (bWriteShortStyle && crIxRep.contains(tyFS)) {
+    //unless it is being dumped already, i.e. refers to itself
+    bool bInside = find(iv_vecOpenFSs.begin(), iv_vecOpenFSs.end(), tyFS) != iv_vecOpenFSs.end();
+    if (bWriteShortStyle && (bInside || crIxRep.contains(tyFS))) {
       os << "/>" << endl;
       return;
     }
+    iv_vecOpenFSs.push_back(tyFS);
 
     os << ">" <<  endl;
 
@@ -205,12 +210,14 @@ namespace uima {
 
       os << "<string_value>" << usNormalizedString << "</string_value>" << endl;
       os << "</" << gs_cpszFSTagName << ">" << endl;
+      iv_vecOpenFSs.pop_back();
       return;
     }
 
     if (iv_rTypeSystem.subsumes(iv_tyArrayType, tyFSType)) {
       writeArrayValue(iTab, os, tyFS);
       os << usTab << "</"<< gs_cpszFSTagName << ">" << endl;
+      iv_vecOpenFSs.pop_back();
       return;
     }
 
@@ -267,6 +274,7 @@ namespace uima {
 
     }
     os << usTab << "</"<< gs_cpszFSTagName << ">" << endl;
+    iv_vecOpenFSs.pop_back();
   }
 
 
@@ -274,7 +282,14 @@ namespace uima {
     if (tyValue != 0) {
       os << newTab << "<"<< gs_cpszFeatTagName<<" name=\"" << iv_rTypeSystem.getFeatureName( tyFeat ) << "\"";
       os << ">" << endl;
-      writeArrayValue(iTab, os, tyValue);
+      if (find(iv_vecOpenFSs.begin(), iv_vecOpenFSs.end(), tyValue) != iv_vecOpenFSs.end()) {
+        // the array is being dumped already
+        writeFS(iTab + (2*TAB_INCREMENT), os, tyValue, true);
+      } else {
+        iv_vecOpenFSs.push_back(tyValue);
+        writeArrayValue(iTab, os, tyValue);
+        iv_vecOpenFSs.pop_back();
+      }
       os << newTab << "</" << gs_cpszFeatTagName << ">" << endl;
     }
   }
-- 
2.43.0


From 85aef6536536b18d16481a42a6c6a843c934911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 149/163] fix: document texts in the dump

---
 src/cas/xmlwriter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 9aa678c..e9d4016 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -370,8 +370,17 @@ namespace uima {
       os << "<doc_buffer>" << endl;
       os << "<![CDATA[";
       std::string s;
-      ulstrBuffer.extract(s, CCSID::getDefaultSBCSInputCCSID() );
-      os << s;
+      ulstrBuffer.extractUTF8(s);
+      for (size_t pos = 0; pos < s.length(); ++pos) {
+        if (s[pos] == '\r') {
+          os << "]]>&#13;<![CDATA[";
+        } else if (s.compare(pos, 3, "]]>") == 0) {
+          os << "]]]]><![CDATA[";
+          ++pos;
+        } else {
+          os << s[pos];
+        }
+      }
       os << "]]>" << endl;
       os << "</doc_buffer>" << endl;
     }
-- 
2.43.0


From 36b47db3aeec88be49c256fd66964b2334b3a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 150/163] fix: log entries name the engine they come from

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..0ada0a4 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+   UnicodeStringRef ref(crEngineName);
+   ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -268,11 +268,11 @@ namespace uima {
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
 
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From f6581dcd0160492aee697037adf7ce66a63ec939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 151/163] fix: pending text of a log stream is logged once,
 with its own type

---
 src/framework/log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 0ada0a4..09e61bc 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -226,8 +226,9 @@ namespace uima {
   }
 
   LogStream & LogFacility::getLogStream(LogStream::EnEntryType enLogEntryType) {
-    iv_logStream.iv_enLogEntryType = enLogEntryType;
+    // text which is pending belongs to the previous type of entry
     flushLogStream();
+    iv_logStream.iv_enLogEntryType = enLogEntryType;
     return iv_logStream;
   }
 
@@ -236,6 +237,7 @@ namespace uima {
     if (strMsg.size() == 0) {
       return;
     }
+    iv_logStream.str("");
     log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
   }
 
-- 
2.43.0


From b72c6178025c9db1a56743b9906501b600e34e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 152/163] fix: asking for the last error leaves it as it is

---
 src/framework/log.cpp      | 4 ++--
 src/framework/uima/log.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 09e61bc..ce76f78 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -297,8 +297,8 @@ namespace uima {
     if (errInfo.getErrorId() == UIMA_ERR_NONE) {
       return (NULL);
     }
-    pclThis->iv_strLastError = getLastError().asString();
-    return(iv_strLastError.c_str());
+    pclThis->iv_strLastErrorInfo = errInfo.asString();
+    return(iv_strLastErrorInfo.c_str());
   }
 
   ErrorInfo const & LogFacility::getLastError() const {
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index 4f0e56f..31df3f1 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -262,6 +262,7 @@ namespace uima {
     /* --- variables --- */
     std::string       iv_strOrigin;
     std::string       iv_strLastError;
+    std::string       iv_strLastErrorInfo; // result of getLastErrorAsCStr()
     long              iv_lLastUserCode;
     ErrorInfo         iv_errInfo;
     LogStream         iv_logStream;
-- 
2.43.0


From a8769e84b36a20c47dcf9e2a1e87ef6cd10eead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:56 +0000
Subject: [PATCH 153/163] fix: the lock of the loggers outlives the resource
 manager and loggers that throw

---
 src/framework/log.cpp | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index ce76f78..6b792af 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -35,6 +35,7 @@
 /* ----------------------------------------------------------------------- */
 
 #include <time.h>
+#include <mutex>
 #include "uima/log.hpp"
 
 #include "uima/trace.hpp"
@@ -49,8 +50,7 @@
 
 #define UIMA_LOG_APPLICATION_KEY_UNKNOWN      _TEXT("???")
 const size_t                  UIMA_LOG_STATIC_CONVERSION_BUFSIZE = 1024;
-static apr_pool_t         * logPool=0;
-static apr_thread_mutex_t * logMutex=0;
+static std::mutex logMutex;
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -148,7 +148,7 @@ namespace uima {
   void LogFacility::doLog(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    apr_thread_mutex_lock(logMutex);
+    std::lock_guard<std::mutex> lock(logMutex);
     string method="";
     if (isLoggable(enType)) {
       for (int i=0; i < vecLoggers.size(); i++) {
@@ -156,7 +156,6 @@ namespace uima {
                                      method,cpszMsg,lUserCode);
       }
     }
-    apr_thread_mutex_unlock(logMutex);
   }
 
   bool LogFacility::isLoggable(LogStream::EnEntryType enType) const {
@@ -249,18 +248,6 @@ namespace uima {
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
    UnicodeStringRef ref(crEngineName);
    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
-   if (logPool == NULL) {
-      apr_status_t rv = apr_pool_create( &logPool,NULL );
-      if ( rv == APR_SUCCESS ) {
-        apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
-      } else {
-        UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-          UIMA_ERR_ENGINE_OUT_OF_MEMORY,
-          UIMA_MSG_ID_EXC_OUT_OF_MEMORY,
-          ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_POOL_FOR_CLASS,"uima::LogFacility"),
-          ErrorInfo::unrecoverable);
-      }
-   }
   }
 
   LogFacility::LogFacility(icu::UnicodeString const & crEngineName,
@@ -272,18 +259,6 @@ namespace uima {
 
     UnicodeStringRef ref(crEngineName);
     ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
-    if (logPool == NULL) {
-      apr_status_t rv = apr_pool_create( &logPool,NULL );
-      if ( rv == APR_SUCCESS ) {
-        apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
-      } else {
-        UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-          UIMA_ERR_ENGINE_OUT_OF_MEMORY,
-          UIMA_MSG_ID_EXC_OUT_OF_MEMORY,
-          ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_POOL_FOR_CLASS,"uima::LogFacility"),
-          ErrorInfo::unrecoverable);
-      }
-    }
   }
 
   LogFacility::~LogFacility() {
-- 
2.43.0


From 01e37846294b8b213b181a804dfd59b08bdb4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:56 +0000
Subject: [PATCH 154/163] fix: threads that report errors through one log
 facility

---
 src/framework/log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 6b792af..095151c 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -179,6 +179,7 @@ namespace uima {
     if (enType == LogStream::EnError) {
       LogFacility * pclThis = CONST_CAST(LogFacility *, this);
       assert(pclThis == this);
+      std::lock_guard<std::mutex> lock(logMutex);
       //remember last error as string/number
       pclThis->iv_lLastUserCode = lUserCode;
       pclThis->iv_strLastError  = string(cpszMsg);
@@ -195,6 +196,7 @@ namespace uima {
 
     LogFacility * pclThis = CONST_CAST(LogFacility *, this);
     assert(pclThis == this);
+    std::lock_guard<std::mutex> lock(logMutex);
     //remember last error as error info object
     pclThis->iv_errInfo = errInfo;
     //reset string/number
@@ -278,6 +280,7 @@ namespace uima {
 
   ErrorInfo const & LogFacility::getLastError() const {
     /* ----------------------------------------------------------------------- */
+    std::lock_guard<std::mutex> lock(logMutex);
     // check if we have a string or info based information on last error
     if (iv_strLastError.length() > 0) {
       // if we have error string the error object must be clear
-- 
2.43.0


From 5c12b06740d9b02e2e9fe22e1a705b0d261b8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:26 +0000
Subject: [PATCH 155/163] fix: large unsigned numbers in error messages

---
 src/framework/exceptions.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index 426a109..10b7334 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -120,8 +120,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((int) uiParam1, s));
+    addParam(uiParam1);
   }
 
 
@@ -143,8 +142,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((long) ulParam1, s));
+    addParam(ulParam1);
   }
 
 ///Constructor with a single double parameter
-- 
2.43.0


From 5a90fa94153b9e1e7c14f0155db51f2be1206674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:54 +0000
Subject: [PATCH 156/163] fix: names below a file and names that are too long
 are no existing files

---
 src/framework/uima/filename.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/filename.hpp b/src/framework/uima/filename.hpp
index 847e1df..4f37120 100644
--- a/src/framework/uima/filename.hpp
+++ b/src/framework/uima/filename.hpp
@@ -288,9 +288,11 @@ namespace uima {
       apr_finfo_t finfo;
       apr_status_t rv;
 
+      if (fname == NULL)
+        return FALSE;
       // Check if can determine type (file, directory, pipe ...)
       rv = apr_stat(&finfo, fname, APR_FINFO_TYPE, fnPool);
-      return !(APR_STATUS_IS_ENOENT(rv));
+      return rv == APR_SUCCESS || APR_STATUS_IS_INCOMPLETE(rv);
     }
 
     /* ----------------------------------------------------------------------- */
-- 
2.43.0


From 251621b7da05b9c21e68ef89fc11fb33cd44ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:54 +0000
Subject: [PATCH 157/163] fix: locations can be copied

---
 src/framework/uima/location.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/framework/uima/location.hpp b/src/framework/uima/location.hpp
index 50d77e2..ac99cb3 100644
--- a/src/framework/uima/location.hpp
+++ b/src/framework/uima/location.hpp
@@ -73,6 +73,9 @@ namespace uima {
       /** create a location based on the TMP directory (or current) */
       Location(void);
 
+      /** copy constructor */
+      Location(const Location & location);
+
       /** destructor */
       ~Location(void);
       /*@}*/
@@ -140,6 +143,13 @@ namespace uima {
         path = (char*)"./";
     }
 
+    /* ----------------------------------------------------------------------- */
+    inline Location::Location(const Location & location) {
+      // Must make a copy since RHS & its pool may disappear
+      createPool();
+      path = apr_pstrdup(locPool, location.getAsCString());
+    }
+
     /* ----------------------------------------------------------------------- */
     inline Location::~Location(void) {
       if (locPool != NULL)
-- 
2.43.0


From 13d8d8f2f2c0422a782dba60ab4a320a2226e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:54 +0000
Subject: [PATCH 158/163] fix: the path of the schema can be long

---
 src/framework/resmgr.cpp      | 10 ++++------
 src/framework/uima/resmgr.hpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 0c27aaa..6bd3df4 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -171,7 +171,6 @@ namespace uima {
     str = UIMA_ENVVAR_HOME;
     util::EnvironmentVariableQueryOnly clEnvVarSchemaPath(str.c_str());
     UIMA_TPRINT(_TEXT("querying envvar: ") << str.c_str());
-    schemaInfo[0] = '\0';                   // Play safe
     if (clEnvVarSchemaPath.hasValue()) {
       string schemaloc = clEnvVarSchemaPath.getValue();
       UIMA_TPRINT(_TEXT("value: ") << schemaloc);
@@ -187,10 +186,9 @@ namespace uima {
       if (bIsSchemaAvailable) {
         icu::UnicodeString schemaPath(schemaFilename.getAsCString());
         schemaPath.findAndReplace(" ", "%20");
-        int len = strlen(UIMA_XML_NAMESPACE);
-        memcpy(schemaInfo, UIMA_XML_NAMESPACE, len);
-        schemaInfo[len] = ' ';
-        schemaPath.extract(0, schemaPath.length(), schemaInfo+len+1, "UTF-8");
+        schemaInfo = UIMA_XML_NAMESPACE;
+        schemaInfo += ' ';
+        schemaPath.toUTF8String(schemaInfo);
       }
     } else {
       bIsSchemaAvailable = false;
@@ -502,7 +500,7 @@ namespace uima {
   }
 
   TCHAR const *  ResourceManager::getSchemaInfo() {
-    return schemaInfo;
+    return schemaInfo.c_str();
   }
 
   void ResourceManager::registerLogger(Logger * pLogger) {
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index 79699a2..438c1f4 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -278,7 +278,7 @@ namespace uima {
     util::Location          iv_locationData;
     bool                    bIsSchemaAvailable;
     bool                    bDoSchemaValidation;
-    TCHAR                   schemaInfo[1024];
+    std::string             schemaInfo;
 
     //Logging
     std::vector<Logger *>        iv_loggers;    //registered loggers
-- 
2.43.0


From 6e51b702903a80d5442c6e4cd4407e5b3c4499cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:02 +0000
Subject: [PATCH 159/163] fix: walking a CAS past arrays whose elements are
 kept on another heap

---
 src/cas/uima/lowlevel_defaultfsiterator.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_defaultfsiterator.hpp b/src/cas/uima/lowlevel_defaultfsiterator.hpp
index ba890a7..767d198 100644
--- a/src/cas/uima/lowlevel_defaultfsiterator.hpp
+++ b/src/cas/uima/lowlevel_defaultfsiterator.hpp
@@ -143,7 +143,14 @@ namespace uima {
       void moveToNext() {
         if ( !isValid() )
           return;
-        if (crTypeSystem.isArrayType(tyType)) {
+        if (tyType == uima::internal::gs_tyBooleanArrayType ||
+            tyType == uima::internal::gs_tyByteArrayType ||
+            tyType == uima::internal::gs_tyShortArrayType ||
+            tyType == uima::internal::gs_tyLongArrayType ||
+            tyType == uima::internal::gs_tyDoubleArrayType) {
+          // the elements are on another heap: type, size and offset
+          iv_it += 3;
+        } else if (crTypeSystem.isArrayType(tyType)) {
           // get array size
           iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
         } else {
@@ -160,7 +167,11 @@ namespace uima {
       }
 
       IndexIterator* clone() const {
-        return new DefaultFSIterator(iv_heap);
+        DefaultFSIterator* pResult = new DefaultFSIterator(iv_heap);
+        pResult->pEnd = pEnd;
+        pResult->iv_it = iv_it;
+        pResult->tyType = tyType;
+        return pResult;
       }
 
       bool moveTo(TyFS fs) {
-- 
2.43.0


From f9358d5080119812d80d4c757811a8ddcc9b6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:35 +0000
Subject: [PATCH 160/163] fix: moving to the begin of an annotation past the
 end of the index

---
 src/cas/cas.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 80684c3..c91eea4 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -906,14 +906,14 @@ namespace uima {
     bool bPosIsValid;
     size_t uiBegPosOfType;
     itOfType.moveToFirst();
-    while (itOfType.get().isValid()) {
+    while (itOfType.isValid()) {
       uiBegPosOfType = itOfType.get().getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tyBeginPosFeature, iv_heap->getTypeSystem() ));
       if (uiBegPosOfType == uiBegPosFromAn) {
         return bPosIsValid = true;
       }
-      itOfType.moveToNext();
       if (uiBegPosOfType > uiBegPosFromAn)
         return bPosIsValid = false;
+      itOfType.moveToNext();
     }
     return bPosIsValid = false;
   }
-- 
2.43.0


From c7e72a53ce9281ee63cd381621d600b168aba0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:03 +0000
Subject: [PATCH 161/163] fix: names shorter than the prefix in the graph of a
 type system

---
 src/framework/dottypesystemwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/dottypesystemwriter.cpp b/src/framework/dottypesystemwriter.cpp
index 7615e93..00d3c21 100644
--- a/src/framework/dottypesystemwriter.cpp
+++ b/src/framework/dottypesystemwriter.cpp
@@ -78,7 +78,7 @@ namespace uima {
   UnicodeStringRef adjustTypeName(UnicodeStringRef ulstrName) {
     icu::UnicodeString ustrTypePfx( "uima" );                         // Our namespace
     ustrTypePfx.append( (UChar) uima::TypeSystem::NAMESPACE_SEPARATOR );
-    if (u_strncmp(ulstrName.getBuffer(), ustrTypePfx.getBuffer(), min(ulstrName.length(), ustrTypePfx.length())) == 0) {
+    if (ulstrName.startsWith(ustrTypePfx)) {
       ulstrName = UnicodeStringRef(ulstrName.getBuffer() + ustrTypePfx.length(),
                                    ulstrName.length()- ustrTypePfx.length());
     }
-- 
2.43.0


From 0d36841d6524b2eb47bee5263b97a3ec43b1d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:03 +0000
Subject: [PATCH 162/163] fix: names in the graph of a type system are written
 as the dot language asks

---
 src/framework/dottypesystemwriter.cpp | 32 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/framework/dottypesystemwriter.cpp b/src/framework/dottypesystemwriter.cpp
index 00d3c21..8527b5a 100644
--- a/src/framework/dottypesystemwriter.cpp
+++ b/src/framework/dottypesystemwriter.cpp
@@ -42,6 +42,7 @@
 #include "uima/typesystem.hpp"
 #include "uima/cas.hpp"
 #include <time.h>
+#include <string.h>
 #ifdef _MSC_VER
 #include <minmax.h> // for min
 #endif
@@ -89,6 +90,27 @@ namespace uima {
     return ulstrName;
   }
 
+  // the characters that mean something in a quoted string or in the label of a record are escaped
+  static string escapeName(UnicodeStringRef ulstrName, char const * cpszSpecial) {
+    string strName = ulstrName.asUTF8();
+    string strResult;
+    for (size_t i = 0; i < strName.length(); ++i) {
+      if (strName[i] != 0 && strchr(cpszSpecial, strName[i]) != NULL) {
+        strResult += '\\';
+      }
+      strResult += strName[i];
+    }
+    return strResult;
+  }
+
+  static string nodeId(UnicodeStringRef ulstrName) {
+    return "\"" + escapeName(ulstrName, "\"\\") + "\"";
+  }
+
+  static string labelText(UnicodeStringRef ulstrName) {
+    return escapeName(ulstrName, "\"\\{}|<> ");
+  }
+
   DotTypeSystemWriter::DotTypeSystemWriter(CAS const & crCAS, bool bNoCASTypes, bool bOnlyCASTypes ) :
       iv_crCAS(crCAS),
       iv_bNoCASTypes(bNoCASTypes),
@@ -109,8 +131,8 @@ namespace uima {
     }
     string strIndentString(uiIndent, ' ');
     os << strIndentString;
-    os << adjustTypeName(crType.getName())
-    << "[label=\"" << adjustTypeName(crType.getName());
+    os << nodeId(crType.getName())
+    << "[label=\"" << labelText(adjustTypeName(crType.getName()));
     vector<Feature> features;
     crType.getAppropriateFeatures(features);
     size_t i;
@@ -124,7 +146,7 @@ namespace uima {
         Type range;
         features[i].getRangeType(range);
         assert( range.isValid());
-        os << "|{" << adjustFeatName(features[i].getName()) << ": " << adjustTypeName(range.getName()) << "}";
+        os << "|{" << labelText(adjustFeatName(features[i].getName())) << ": " << labelText(adjustTypeName(range.getName())) << "}";
       }
     }
     os << "\"];" << endl;
@@ -133,7 +155,7 @@ namespace uima {
     if (subTypes.size() > 0) {
       // print <typename> -> {<sub-type1>, <sub-type2>, ...};
       os << strIndentString;
-      os << adjustTypeName(crType.getName()) << " -> {";
+      os << nodeId(crType.getName()) << " -> {";
       size_t uiTypesWritten = 0;
       for (i=0; i<subTypes.size(); ++i) {
         if (iv_bOnlyCASTypes && !isCasType(subTypes[i]) ) {
@@ -145,7 +167,7 @@ namespace uima {
         if (uiTypesWritten > 0 ) {
           os << "; ";
         }
-        os << adjustTypeName(subTypes[i].getName());
+        os << nodeId(subTypes[i].getName());
         ++uiTypesWritten;
       }
       os << "};" << endl;
-- 
2.43.0


From 5fd17f0d7f749635dbc41c9b5ef0b1361aa99341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:03 +0000
Subject: [PATCH 163/163] fix: types below one that is left out of the graph of
 a type system

---
 src/framework/dottypesystemwriter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/framework/dottypesystemwriter.cpp b/src/framework/dottypesystemwriter.cpp
index 8527b5a..478cce2 100644
--- a/src/framework/dottypesystemwriter.cpp
+++ b/src/framework/dottypesystemwriter.cpp
@@ -122,11 +122,15 @@ namespace uima {
   }
 
   void DotTypeSystemWriter::writeType(ostream & os, uima::Type const & crType, size_t uiIndent) const {
-    if (iv_bOnlyCASTypes &&
-        (crType != crType.getTypeSystem().getTopType()) && (!isCasType(crType))) {
-      return;
-    }
-    if (iv_bNoCASTypes && isCasType(crType)) {
+    if ((iv_bOnlyCASTypes &&
+         (crType != crType.getTypeSystem().getTopType()) && (!isCasType(crType)))
+        || (iv_bNoCASTypes && isCasType(crType))) {
+      // this type is not written, but types below it may be
+      vector<Type> notWritten;
+      crType.getDirectSubTypes(notWritten);
+      for (size_t t=0; t<notWritten.size(); ++t) {
+        writeType(os, notWritten[t], uiIndent);
+      }
       return;
     }
     string strIndentString(uiIndent, ' ');
-- 
2.43.0

