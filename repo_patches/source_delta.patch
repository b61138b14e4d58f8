From 2177e249f49b2716323face1a7c86781a021c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 001/135] fix: write every parameter space curve of a Loop and
 release its children correctly

---
 src/entities/entity508.cpp | 159 +++++++++++++++++--------------------
 1 file changed, 75 insertions(+), 84 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..77d36f7 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -117,7 +117,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
@@ -235,8 +235,15 @@ bool IGES_ENTITY_508::format( int &index )
 
     vector< LOOP_DATA* >::iterator sV = edges.begin();
     vector< LOOP_DATA* >::iterator eV = edges.end();
-    vector< LOOP_DATA* >::iterator iV = --edges.end();
-    int acc = 0;
+    vector< LOOP_DATA* >::iterator iV = edges.end();
+
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [BUG] no edges in Loop structure\n";
+        return false;
+    }
+
+    --iV;
 
     while( sV != eV )
     {
@@ -284,7 +291,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +301,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -312,7 +319,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && (sP + 1) == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
@@ -323,7 +330,6 @@ bool IGES_ENTITY_508::format( int &index )
             ++sP;
         }
 
-        ++acc;
         ++sV;
     }
 
@@ -748,59 +754,49 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
+
+    if( sE == eE )
+        return false;
+
+    // is the entity still required by another part of the loop?
+    if( !aFlagAll && --sE->second > 0 )
+        return true;
+
+    redges.erase( sE );
+
+    if( !aFlagUnlink )
+        aEdge->delReference(this);
+
+    // remove all parts of the loop which make use of the entity
+    size_t idx = 0;
+
+    while( idx < edges.size() )
     {
-        IGES_ENTITY* ep = sE->first;
+        LOOP_DATA* lp = edges[idx];
 
-        if( aEdge == ep )
+        if( lp->data != aEdge )
         {
-            ok = true;
-
-            if( !aFlagUnlink )
-                ep->delReference(this);
+            ++idx;
+            continue;
+        }
 
-            if( aFlagAll || (--sE->second == 0) )
-            {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
-
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
-
-                    ++sF;
-                }
-
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+        while( !lp->pcurves.empty() )
+        {
+            lp->pcurves.back()->curve->delReference(this);
+            delete lp->pcurves.back();
+            lp->pcurves.pop_back();
+        }
 
-        ++sE;
-    }   // searched list of entities
+        edges.erase( edges.begin() + idx );
+        delete lp;
+    }
 
-    return ok;
+    return true;
 }
 
 
@@ -853,44 +849,39 @@ bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 // delete parent reference from the given parameter space curve
 bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aFlagUnlink )
 {
-    vector< LOOP_DATA* >::iterator sF = edges.begin();
-    vector< LOOP_DATA* >::iterator eF = edges.end();
-
-    while( sF != eF )
+    for( size_t idx = 0; idx < edges.size(); ++idx )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        LOOP_DATA* lp = edges[idx];
+        size_t ic = 0;
 
-        while( sP != eP )
+        while( ic < lp->pcurves.size() && lp->pcurves[ic]->curve != aCurve )
+            ++ic;
+
+        if( ic == lp->pcurves.size() )
+            continue;
+
+        if( !aFlagUnlink )
+            aCurve->delReference(this);
+
+        delete lp->pcurves[ic];
+        lp->pcurves.erase( lp->pcurves.begin() + ic );
+
+        if( aFlagDelEdge )
         {
-            if( (*sP)->curve == aCurve )
+            while( !lp->pcurves.empty() )
             {
-                if( aFlagDelEdge )
-                {
-                    while( !(*sF)->pcurves.empty() )
-                    {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
-                    }
-
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
-                }
-
-                return true;
+                lp->pcurves.back()->curve->delReference(this);
+                delete lp->pcurves.back();
+                lp->pcurves.pop_back();
             }
 
-            ++sP;
+            IGES_ENTITY* data = lp->data;
+            edges.erase( edges.begin() + idx );
+            delete lp;
+            delEdge( data, false, false );
         }
 
-        ++sF;
+        return true;
     }
 
     return false;
@@ -935,11 +926,11 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         {
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From d624edf54610830a4bba779970f63a573e2e1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 002/135] fix: accept blanks in front of string constants and
 defaulted parameters

---
 src/iges/iges_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..67cf519 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -232,6 +232,10 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 {
     param.clear();
 
+    // blanks may precede a string constant or a defaulted parameter
+    while( idx < (int)data.length() && data[idx] == ' ' )
+        ++idx;
+
     if( idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
@@ -316,6 +320,10 @@ bool ParseLString( const std::string& data, int& idx, std::string& param, bool&
     param.clear();
     int tidx = idx;
 
+    // blanks may precede a number or a defaulted parameter
+    while( idx < (int)data.length() && data[idx] == ' ' )
+        ++idx;
+
     if( idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
-- 
2.43.0


From f7d48960a0bfb7d76dcd6d7a6ae301277b882d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 003/135] fix: accept the (odd) directory pointers of a Boolean
 Tree

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..97fb86f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -444,7 +444,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From a18c60c53eb0133f91b3b5e0d8ddbf77eae2a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 004/135] fix: advance the correct iterator when searching
 optional entities

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..76c828d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From 47dc6831775e13a4381c1cdca0ca2679ec277a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 005/135] fix: write entity comments as well formed parameter
 data lines

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 76c828d..8bbd778 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2801,11 +2801,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            // columns 65..72 hold the back pointer to the Directory Entry
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] cannot tack on Sequence Number\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From 364266f96599141dd5ca8348582a43a555769737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 006/135] fix: accept a Trimmed Surface without an explicit
 outer boundary

---
 src/entities/entity144.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..1af502c 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -581,7 +581,10 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    // note: there is no outline entity if the outer boundary is the
+    // boundary of the surface itself
+    if( ( iPTO == 0 && N1 != 0 )
+        || ( iPTO != 0 && ( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 ) ) )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From 20c27d0ca84489750c1126e1adf6e35c99a64d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 007/135] fix: release the remaining operands when a Boolean
 Tree loses one

---
 src/entities/entity180.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 97fb86f..4fb0486 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -313,6 +313,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,7 +322,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
     return true;
 }
-- 
2.43.0


From 0ab0e6f2a822ec9531ddafc66a5c804d5552bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 008/135] fix: associate a Trimmed Surface which has no
 explicit outer boundary

---
 src/entities/entity144.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 1af502c..90d6168 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -217,7 +217,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         }
 
     }
-    else
+    else if( N1 != 0 )
     {
         ERRMSG << "\n + [VIOLATION] unspecified boundary entity\n";
         iPTI.clear();
-- 
2.43.0


From 14e0638edcb76d951423f5e0aee4e1ecd8821f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 009/135] fix: keep a Trimmed Surface consistent when its
 outline is destroyed

---
 src/entities/entity144.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 90d6168..c85b733 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -407,6 +407,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
     if( aChild == PTO )
     {
         PTO = NULL;
+        N1 = 0;     // the boundary reverts to that of the surface
         return true;
     }
 
-- 
2.43.0


From 57e70afe5a0e1341a3565600ec5f0169ec99a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 010/135] fix: parse and validate the record delimiter from its
 own position

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..5b2cc51 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1094,7 +1094,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1102,12 +1102,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From b455006011ae526120df182ff77b79d3c6bfafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 011/135] fix: terminate a Vertex List only after its final
 coordinate

---
 src/entities/entity502.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..a13e8f3 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -133,7 +133,8 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        // only the final value may be followed by a record delimeter
+        if( !FormatPDREal( tStr, vals[i], i < 2 ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From 149bed7133d91c256586c0d081b69ab8ab71a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 012/135] fix: do not access a Vertex List which is being
 destroyed

---
 src/entities/entity504.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..d6c3bd7 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -785,7 +785,12 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
         {
             --sV->second;
 
-            if( aFlagAll || 0 == sV->second )
+            if( aFlagAll )
+            {
+                // the vertex list is being destroyed; it must not be accessed
+                vertices.erase( sV );
+            }
+            else if( 0 == sV->second )
             {
                 sV->first->delReference(this);
                 vertices.erase( sV );
-- 
2.43.0


From b12bc4beecd88a87a6464b9e311e04c7b285422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 013/135] fix: associate curves before the entities which
 evaluate them

---
 src/iges/iges.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5b2cc51..e7e6160 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -604,12 +604,39 @@ bool IGES::Read( const char* aFileName )
     size_t nEnt = entities.size();
     size_t iEnt;
 
-    for( iEnt = 0; iEnt < nEnt; ++iEnt )
+    // Entities may appear in any order in the file but some of them
+    // evaluate the geometry of their children when associated, so a
+    // Composite Curve must be preceded by its segments and an entity
+    // which requires a closed curve must be preceded by the curve.
+    for( int pass = 0; pass < 3; ++pass )
     {
-        if( !entities[iEnt]->associate(&entities) )
+        for( iEnt = 0; iEnt < nEnt; ++iEnt )
         {
-            ERRMSG << "\n + [INFO] could not establish file associations\n";
-            return false;
+            int order = 0;
+
+            switch( entities[iEnt]->GetEntityType() )
+            {
+                case ENT_COMPOSITE_CURVE:
+                    order = 1;
+                    break;
+
+                case ENT_PLANE:
+                case ENT_SOLID_OF_LINEAR_EXTRUSION:
+                    order = 2;
+                    break;
+
+                default:
+                    break;
+            }
+
+            if( order != pass )
+                continue;
+
+            if( !entities[iEnt]->associate(&entities) )
+            {
+                ERRMSG << "\n + [INFO] could not establish file associations\n";
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From 4201d55f34bcb0a99365ba93ce350be6c839c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 014/135] fix: leave an empty document if associations cannot
 be established

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e7e6160..fcba7a8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -635,6 +635,8 @@ bool IGES::Read( const char* aFileName )
             if( !entities[iEnt]->associate(&entities) )
             {
                 ERRMSG << "\n + [INFO] could not establish file associations\n";
+                file.close();
+                Clear();
                 return false;
             }
         }
-- 
2.43.0


From 3a93cf60ec99fbedcfc66fb67494744f0fa9da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 015/135] fix: write the number of voids of a Manifold Solid

---
 src/entities/entity186.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..d8d2d42 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -231,7 +231,16 @@ bool IGES_ENTITY_186::format( int &index )
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = --(mvoids.end());
+    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = mvoids.end();
+
+    if( !mvoids.empty() )
+    {
+        --iV;
+        ostr.str("");
+        ostr << mvoids.size() << pd;
+        tStr = ostr.str();
+        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    }
 
     while( sV != eV )
     {
-- 
2.43.0


From ef850ddaf8db500cbbd6d6b90a2d12c7b9bfb307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 016/135] fix: reset the document before reading a file into it

---
 src/iges/iges.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fcba7a8..c9ed64b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -447,6 +447,9 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // discard anything left over from previous use of this object
+    Clear();
+
     // read the FLAG/START section
     IGES_RECORD rec;
 
-- 
2.43.0


From 13719e1608f96d09e4a19d79970894b1854e3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 017/135] fix: evaluate rational B-spline curves using
 homogeneous coordinates

---
 src/entities/entity126.cpp   | 60 ++++++++++++++++++++++++------------
 src/include/core/entity126.h |  2 ++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..844fb84 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -824,24 +824,52 @@ IGES_CURVE* IGES_ENTITY_126::GetCurve( int index )
 }
 
 
-bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
+#ifdef USE_SISL
+bool IGES_ENTITY_126::makeSCurve( void )
 {
-    if( nCoeffs < 2 )
-        return false;
+    if( scurve )
+        return true;
 
-    // XXX - To be reimplemented with self-contained de Boors - Cox algorithm
-#ifdef USE_SISL
-    if( !scurve )
+    if( PROP3 )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
+        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, 1, 3, 1 );
+    }
+    else
+    {
+        // SISL requires homogeneous coordinates (wX, wY, wZ, w)
+        vector<double> hc( coeffs, coeffs + nCoeffs * 4 );
 
-        if( !scurve )
+        for( int i = 0; i < nCoeffs * 4; i += 4 )
         {
-            ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
-            return false;
+            hc[i] *= hc[i + 3];
+            hc[i + 1] *= hc[i + 3];
+            hc[i + 2] *= hc[i + 3];
         }
+
+        scurve = newCurve( nCoeffs, M + 1, knots, &hc[0], 2, 3, 1 );
+    }
+
+    if( !scurve )
+    {
+        ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
+        return false;
     }
 
+    return true;
+}
+#endif
+
+
+bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
+{
+    if( nCoeffs < 2 )
+        return false;
+
+    // XXX - To be reimplemented with self-contained de Boors - Cox algorithm
+#ifdef USE_SISL
+    if( !makeSCurve() )
+        return false;
+
     double vals[6];
     int kt = 0;
     double r = 0;
@@ -889,16 +917,8 @@ bool IGES_ENTITY_126::GetEndPoint( MCAD_POINT& pt, bool xform )
 
     // XXX - To be reimplemented with self-contained de Boors - Cox algorithm
 #ifdef USE_SISL
-    if( !scurve )
-    {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
-
-        if( !scurve )
-        {
-            ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
-            return false;
-        }
-    }
+    if( !makeSCurve() )
+        return false;
 
     double vals[6];
     int kt = 0;
diff --git a/src/include/core/entity126.h b/src/include/core/entity126.h
index bf8ca60..5d29d6d 100644
--- a/src/include/core/entity126.h
+++ b/src/include/core/entity126.h
@@ -87,6 +87,8 @@ private:
     bool hasUniquePlane( MCAD_POINT* norm = NULL );
 #ifdef USE_SISL
     SISLCurve* scurve;
+    // create the SISL representation of the curve if there is none
+    bool makeSCurve( void );
 #endif
 
 protected:
-- 
2.43.0


From 3274b0e18015425be07da49534acee22dac3c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 018/135] fix: do not alter a B-spline curve if the replacement
 data is rejected

---
 src/entities/entity126.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 844fb84..b42ebe5 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1020,11 +1020,6 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     const double* coeff, bool isRational, double v0, double v1 )
 {
-#ifdef USE_SISL
-    if( NULL != scurve )
-        freeCurve( scurve );
-#endif
-
     if( !knot || !coeff )
     {
         ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
@@ -1047,24 +1042,32 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
-
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[nCoeff + order - 1] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[nCoeff + order - 1] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+    nKnots = nCoeff + order;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
+#ifdef USE_SISL
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
     if( knots )
     {
         delete [] knots;
-- 
2.43.0


From f7e2da64109b255f61d3ff09272783c25b13c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 019/135] fix: discard the evaluator of a B-spline curve which
 is rescaled

---
 src/entities/entity126.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index b42ebe5..13a8a30 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -358,6 +358,15 @@ bool IGES_ENTITY_126::rescale( double sf )
     if( NULL == coeffs )
         return true;
 
+#ifdef USE_SISL
+    // the SISL representation must be created again from the scaled data
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
     for( int i = 0, j = 0; i < nCoeffs; ++i )
     {
         if( scaleXY )
-- 
2.43.0


From dc78a785475adbb731216ec52da22084f363e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 020/135] fix: return the NURBS data instead of writing to a
 null pointer

---
 src/entities/entity126.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 13a8a30..9951ed5 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -994,8 +994,12 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+
+    if( !knot || !coeff )
+        return false;
+
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
-- 
2.43.0


From b80cbb4f945ebf948fffa9abd56fbe407a4b5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 021/135] fix: apply the default axis component of a Right
 Circular Cylinder

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..b6a32ba 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -366,7 +366,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     if( !eor )
     {
-        if( !ParseReal( pdout, idx, K1, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, K1, eor, pd, rd, &ddef ) )
         {
             ERRMSG << "\n + [BAD FILE] no K1 value for Right Circular Cylinder\n";
             pdout.clear();
-- 
2.43.0


From 08dbd22960f62ec87a41aa1ef604917588bddb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 022/135] fix: repeat the removal of orphaned entities until
 none remain

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c9ed64b..af118b6 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1804,6 +1804,10 @@ void IGES::Cull( bool vicious )
     entities.clear();
     entities = tmpEnts;
 
+    // deleting an entity may orphan entities which precede it in the list
+    if( 0 != nCulled )
+        Cull( false );
+
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
     cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
-- 
2.43.0


From f925a97c42308d3215d680a79e358002a322bbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 023/135] fix: validate the day and the seconds of a date
 without overrunning the table of months

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index af118b6..d517452 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( ok && ( iday < 1 || iday > mdays[imon -1] ) )
         ok = false;
 
     errno = 0;
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 6d142bda092af36b671245d98c36e857846e4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 024/135] fix: report a failure to flush or close the file
 being written

---
 src/iges/iges.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d517452..af39d77 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -849,6 +849,15 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     }
 
     file.close();
+
+    // the data is buffered so a failure may only become known on closing the file
+    if( file.fail() )
+    {
+        ERRMSG << "\n + [INFO] could not write all data to file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 4640b224e98c87879f367d755126d1bb016f0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 025/135] fix: discard the output of all entities if one cannot
 be formatted

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index af39d77..0583b7f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -693,7 +693,7 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
             ERRMSG << "\n + [INFO] could not format entity for output\n";
 
             for( nEnt = 0; nEnt < iEnt; ++nEnt )
-                entities[iEnt]->unformat();
+                entities[nEnt]->unformat();
 
             return false;
         }
-- 
2.43.0


From 9d6d96d44d60456ae5fe2ac8bd44fd633cbef553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 026/135] fix: never write to an existing file unless
 overwriting is permitted

---
 src/iges/iges.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 0583b7f..c92bef8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -703,27 +703,27 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     ofstream file;
 
-    file.open( aFileName, ios::out | ios_base::in | ios::binary );
-
-    if( file.is_open() )
+    if( !fOverwrite )
     {
-        if( !fOverwrite )
+        // create the file; this fails if there is any existing file of that name,
+        // including a file which may not be opened by the user
+        FILE* fp = fopen( aFileName, "wbx" );
+
+        if( NULL == fp )
         {
-            ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
+            for( iEnt = 0; iEnt < nEnt; ++iEnt )
+                entities[iEnt]->unformat();
+
+            ERRMSG << "\n + [INFO] file already exists or cannot be created; not overwriting\n";
             cerr << " + filename: '" << aFileName << "'\n";
-            file.close();
             return false;
         }
 
-        // reopen the file and truncate it
-        file.close();
-        file.open( aFileName, ios::out | ios_base::in | ios::binary | ios::trunc );
-    }
-    else
-    {
-        file.open( aFileName, ios::out | ios::binary );
+        fclose( fp );
     }
 
+    file.open( aFileName, ios::out | ios::binary | ios::trunc );
+
     if( !file.is_open() )
     {
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
-- 
2.43.0


From d74c7e10a9605d5a0f84c353e6f5c3c64c251a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 027/135] fix: apply the defaults of the Receiving System ID
 and Preprocessor Version to the correct parameter

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c92bef8..103bb31 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1220,7 +1220,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
@@ -1321,7 +1321,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 66b235bc5a3e31b87474362b9df71a99c7e6a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 028/135] fix: reject an invalid Model Space Scale or Drafting
 Standard

---
 src/iges/iges.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 103bb31..2336a7c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1335,6 +1335,13 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         return false;
     }
 
+    if( !( globalData.modelScale > 0.0 ) )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] invalid Model Space Scale (";
+        cerr << globalData.modelScale << ")\n";
+        return false;
+    }
+
     // G14: Model Units
     int tint;
     int idefault = 1;
@@ -1520,6 +1527,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid Drafting Standard (";
             cerr << tint << ")\n";
+            return false;
         }
 
         globalData.draftStandard = (IGES_DRAFTING_STANDARD)tint;
-- 
2.43.0


From 942274d9d8af80cfcf7ae828255e4cf94f79e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 029/135] fix: normalize the units and scale of files which
 omit optional Global parameters

---
 src/iges/iges.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2336a7c..820e2fc 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1546,7 +1546,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty()
+            && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
@@ -1558,10 +1559,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From 5cd63721077b5a45c3a93c7d40d548bbf9f97f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 030/135] fix: write the maximum line width rather than the
 number of gradations

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 820e2fc..96b52f3 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2277,9 +2277,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From 04fc29ec5b594c4887051e84976d4f7f73b65c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 031/135] fix: scale the line width and resolution along with
 the model

---
 src/iges/iges.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 96b52f3..2e3a7d5 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1584,6 +1584,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( globalData.unitsFlag != UNIT_MILLIMETER )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
+        globalData.maxLinewidth *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.convert = true;
@@ -1860,6 +1861,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
         return true;
 
     globalData.minResolution *= cf;
+    globalData.maxLinewidth *= cf;
 
     // scale all existing entities
     size_t nEnt = entities.size();
@@ -1894,7 +1896,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From 6915489801611180a1b706bd54c5139e92f1ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 032/135] fix: generate a different name for each part and
 assembly

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2e3a7d5..f912868 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2687,7 +2687,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2707,7 +2707,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxAssyNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From 88e1ab97b991f7915f2b72ed4cbe2dbd11fe7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 033/135] fix: scale line weights by the ratio of gradations
 when exporting

---
 src/iges/iges.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f912868..c94ccad 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2434,17 +2434,17 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
-    if( NULL == newParent )
+    if( NULL == packagedEntity )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
         return false;
     }
 
-    if( NULL == packagedEntity )
+    *packagedEntity = NULL;
+
+    if( NULL == newParent )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
         return false;
     }
 
@@ -2470,7 +2470,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = double(maxLWG) / globalData.maxLinewidthGrad;
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
-- 
2.43.0


From a58d6158a552cc7c37e00b56e2ff8f967e141cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 034/135] fix: return the name of the current unit

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c94ccad..a2cad54 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2716,5 +2716,5 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From 32bef9501a72c435b56e8624af9ff3c307479419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 035/135] fix: read and write files independently of the locale
 of C++ streams

---
 src/iges/iges.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a2cad54..a3cb23c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -38,6 +38,7 @@
 
 #include <libigesconf.h>
 #include <locale.h>
+#include <locale>
 #include <cstdlib>
 #include <cerrno>
 #include <sstream>
@@ -239,26 +240,28 @@ static bool checkDate( const std::string aDate )
 class IGES_LOCALE
 {
 private:
-    char locale[80];
+    std::string clocale;
+    std::locale locale;
 public:
     IGES_LOCALE()
     {
-        const char *cp = setlocale( LC_NUMERIC, NULL );
-        if (NULL != cp)
-        {
-            sprintf(locale, "%.79s", cp);
-        }
-        else
-        {
-            locale[0] = 0;
-        }
+        const char *cp = setlocale( LC_ALL, NULL );
+
+        if( NULL != cp )
+            clocale = cp;
 
-        setlocale( LC_NUMERIC, "C" );     // switch the numerics locale to "C"
+        // switch the numerics locale of C++ streams and of the C library to "C"
+        std::locale::global( std::locale( locale, std::locale::classic(), std::locale::numeric ) );
+        setlocale( LC_NUMERIC, "C" );
     }
 
     ~IGES_LOCALE()
     {
-        setlocale( LC_NUMERIC, locale );  // revert to the current numerics default locale
+        // revert to the current default locales
+        std::locale::global( locale );
+
+        if( !clocale.empty() )
+            setlocale( LC_ALL, clocale.c_str() );
     }
 };
 
-- 
2.43.0


From 725a4405fc9c90bcc0e23ff0056b469a7c6c0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 036/135] fix: do not keep pointers to destroyed entities in an
 unsupported entity

---
 src/entities/entityNULL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index c8a4026..cc53039 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -182,8 +182,9 @@ bool IGES_ENTITY_NULL::associate(std::vector<IGES_ENTITY *> *entities)
 
 bool IGES_ENTITY_NULL::unlink(IGES_ENTITY *aChild)
 {
-    // there are no properly established links so in
-    // effect this routine always succeeds
+    // there are no properly established links apart from those
+    // of the base class so in effect this routine always succeeds
+    IGES_ENTITY::unlink( aChild );
     return true;
 }
 
-- 
2.43.0


From 0cfeadbdd553bdb7afb4d950ecdf86c3d035d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 037/135] fix: release the entities removed from a Trimmed
 Surface or Subfigure Definition

---
 src/entities/entity144.cpp | 1 +
 src/entities/entity308.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c85b733..2a0d8ac 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -880,6 +880,7 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
         {
             PTI.erase( bref );
             N2 = (int)PTI.size();
+            aPtr->delReference( this );
             return true;
         }
 
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..5ddf0e7 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -600,6 +600,7 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
         {
             DE.erase( bref );
             N = (int)DE.size();
+            aPtr->delReference( this );
             return true;
         }
 
-- 
2.43.0


From 8869cc00b9d4f1e82401a21e20920c651268bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 038/135] fix: return the current contents of entity and
 comment lists

---
 src/dllapi/dll_entity308.cpp | 21 +--------------------
 src/entities/entity144.cpp   | 17 +++++++----------
 src/entities/entity308.cpp   | 17 +++++++----------
 src/entities/iges_entity.cpp |  2 ++
 4 files changed, 17 insertions(+), 40 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3fe6132 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -113,26 +113,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    std::list< IGES_ENTITY* >* pDE = &((IGES_ENTITY_308*)m_entity)->DE;
-    std::vector< IGES_ENTITY* >* pvDE = &((IGES_ENTITY_308*)m_entity)->m_DE;
-
-    if( pDE->size() != pvDE->size() )
-    {
-        pvDE->clear();
-
-        std::list< IGES_ENTITY* >::iterator sDL = pDE->begin();
-        std::list< IGES_ENTITY* >::iterator eDL = pDE->end();
-
-        while( sDL != eDL )
-        {
-            pvDE->push_back( *sDL );
-            ++sDL;
-        }
-    }
-
-    aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
-    return true;
+    return ((IGES_ENTITY_308*)m_entity)->GetDEList( aDESize, aDEList );
 }
 
 
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 2a0d8ac..34707d6 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -782,17 +782,14 @@ bool IGES_ENTITY_144::GetPTIList( size_t& aListSize, IGES_ENTITY_142**& aPTIList
         return false;
     }
 
-    if( PTI.size() != vPTI.size() )
-    {
-        vPTI.clear();
-        std::list<IGES_ENTITY_142*>::iterator sL = PTI.begin();
-        std::list<IGES_ENTITY_142*>::iterator eL = PTI.end();
+    vPTI.clear();
+    std::list<IGES_ENTITY_142*>::iterator sL = PTI.begin();
+    std::list<IGES_ENTITY_142*>::iterator eL = PTI.end();
 
-        while( sL != eL )
-        {
-            vPTI.push_back( *sL );
-            ++sL;
-        }
+    while( sL != eL )
+    {
+        vPTI.push_back( *sL );
+        ++sL;
     }
 
     aListSize = vPTI.size();
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 5ddf0e7..70704e1 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -481,17 +481,14 @@ bool IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    if( DE.size() != m_DE.size() )
-    {
-        m_DE.clear();
-        std::list< IGES_ENTITY* >::iterator sL = DE.begin();
-        std::list< IGES_ENTITY* >::iterator eL = DE.end();
+    m_DE.clear();
+    std::list< IGES_ENTITY* >::iterator sL = DE.begin();
+    std::list< IGES_ENTITY* >::iterator eL = DE.end();
 
-        while( sL != eL )
-        {
-            m_DE.push_back( *sL );
-            ++sL;
-        }
+    while( sL != eL )
+    {
+        m_DE.push_back( *sL );
+        ++sL;
     }
 
     aDESize = m_DE.size();
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 8bbd778..ad5054a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3033,6 +3033,7 @@ bool IGES_ENTITY::DelComment( int index )
     }
 
     comments.erase( bs );
+    vcomments.clear();
     return true;
 }
 
@@ -3040,6 +3041,7 @@ bool IGES_ENTITY::DelComment( int index )
 bool IGES_ENTITY::ClearComments( void )
 {
     comments.clear();
+    vcomments.clear();
     return true;
 }
 
-- 
2.43.0


From 1c00d845fc0428c29074c77b4b10a290c7f6717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 039/135] fix: do not access the first bound of a Face which
 has none

---
 src/entities/entity510.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..05d919a 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -533,6 +533,7 @@ bool IGES_ENTITY_510::GetBounds( size_t& aListSize, IGES_ENTITY_508**& aBoundsLi
     {
         aListSize = 0;
         aBoundsList = NULL;
+        return false;
     }
 
     aListSize = mloops.size();
-- 
2.43.0


From cce2efdb6d597300384d2b7aa0e7b0ff9c8fc1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 040/135] fix: compare arc radii rather than their squares with
 the model resolution

---
 src/entities/entity100.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..24fb34a 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -366,8 +366,9 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     p1 = p1 - p0;
     p2 = p2 - p0;
 
-    double d1 = p1.x*p1.x + p1.y*p1.y;
-    double d2 = p2.x*p2.x + p2.y*p2.y;
+    // compare the radii and not their squares; the resolution is a length
+    double d1 = sqrt( p1.x*p1.x + p1.y*p1.y );
+    double d2 = sqrt( p2.x*p2.x + p2.y*p2.y );
     d1 = d2 - d1;
 
     if( abs( d1 ) > uir )
-- 
2.43.0


From 2902a443c307366cf9d84ebc0db19aa0e71f5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 041/135] fix: write direction cosines, rotations and scale
 factors with full precision; default K1 of type 164

---
 src/entities/entity124.cpp | 2 +-
 src/entities/entity154.cpp | 5 +++++
 src/entities/entity164.cpp | 7 ++++++-
 src/entities/entity408.cpp | 5 +++++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..6dd5a0b 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -159,7 +159,7 @@ bool IGES_ENTITY_124::format( int &index )
     {
         for( int j = 0; j < 3; ++j )
         {
-            if( !FormatPDREal( tstr, T.R.v[i][j], pd, uir ) )
+            if( !FormatPDREal( tstr, T.R.v[i][j], pd, IGES_ANGLE_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format Transform::R[";
                 cerr << i << "][" << j << "]\n";
diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index b6a32ba..9d93349 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -113,6 +113,11 @@ bool IGES_ENTITY_154::format( int &index )
 
     for( int i = 0; i < 8; ++i )
     {
+        // note: the components of the direction are ratios and must not be
+        // limited by the resolution which is specified for lengths
+        if( i > 4 )
+            uir = IGES_ANGLE_RES;
+
         if( i == 7 && extras.empty() )
         {
             if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..298bf16 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -173,6 +173,11 @@ bool IGES_ENTITY_164::format( int &index )
 
     for( int i = 0; i < 4; ++i )
     {
+        // note: the components of the direction are ratios and must not be
+        // limited by the resolution which is specified for lengths
+        if( i > 0 )
+            uir = IGES_ANGLE_RES;
+
         if( i == 3 && extras.empty() )
         {
             if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
@@ -388,7 +393,7 @@ bool IGES_ENTITY_164::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
-        K1 = 0.0;
+        K1 = 1.0;
     }
 
     // ensure (I1,J1,K1) is a unit vector
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..c047c8f 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -163,6 +163,11 @@ bool IGES_ENTITY_408::format( int &index )
 
     for( int i = 0; i < 4; ++i )
     {
+        // note: the scale factor is a ratio and must not be
+        // limited by the resolution which is specified for lengths
+        if( i == 3 )
+            uir = IGES_ANGLE_RES;
+
         if( i == 3 && extras.empty() )
         {
             if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
-- 
2.43.0


From e64909d9c3e3798907262a6597485c892a8abe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 042/135] fix: reject self-referential directory entries and
 release entities of an unsuitable type

---
 src/entities/iges_entity.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ad5054a..d6fa225 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -498,7 +498,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pStructure = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by structure (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pStructure->addReference(this, dup) )
@@ -559,7 +559,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLineFontPattern = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Line Font Pattern (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLineFontPattern->addReference(this, dup) )
@@ -599,6 +599,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference( this );
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -631,7 +632,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLevel = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Level (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLevel->addReference(this, dup) )
@@ -671,6 +672,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference( this );
                     pLevel = NULL;
                     ok = false;
                 }
@@ -703,7 +705,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pView = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by View (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pView->addReference(this, dup) )
@@ -744,6 +746,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference( this );
                     pView = NULL;
                     ok = false;
                 }
@@ -783,7 +786,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pTransform = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pTransform->addReference(this, dup) )
@@ -822,6 +825,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference( this );
                     pTransform = NULL;
                     ok = false;
                 }
@@ -854,7 +858,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLabelAssoc = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLabelAssoc->addReference(this, dup) )
@@ -894,6 +898,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference( this );
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -926,7 +931,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pColor = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Color Number (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pColor->addReference(this, dup) )
@@ -965,6 +970,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference( this );
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From 78d9c72ba37e4c5991a3bf13306622e5391e7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 043/135] fix: allow parents to drop their references while an
 entity is destroyed

---
 src/entities/iges_entity.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index d6fa225..c0b3271 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -128,20 +128,14 @@ IGES_ENTITY::~IGES_ENTITY()
     m_validFlags.clear();
     comments.clear();
 
-    if( !refs.empty() )
+    // note: a parent may remove itself from the list while unlinking this entity
+    while( !refs.empty() )
     {
-        std::list<IGES_ENTITY*>::iterator rbeg = refs.begin();
-        std::list<IGES_ENTITY*>::iterator rend = refs.end();
+        IGES_ENTITY* pp = refs.front();
+        refs.pop_front();
 
-        while( rbeg != rend )
-        {
-            if( !(*rbeg)->unlink(this) )
-                ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
-
-            ++rbeg;
-        }
-
-        refs.clear();
+        if( !pp->unlink(this) )
+            ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
     }
 
     if( !extras.empty() )
-- 
2.43.0


From 4e2308c3e81700bbbea7fae84e4e39733f80f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 044/135] fix: do not retain multiple or unregistered pointers
 to entities of a corrupt file

---
 src/entities/entity144.cpp |  1 -
 src/entities/entity180.cpp |  3 +--
 src/entities/entity186.cpp |  7 +++++++
 src/entities/entity510.cpp | 15 +++++++++++++++
 src/entities/entity514.cpp |  7 +++++++
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 34707d6..5231ff4 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -268,7 +268,6 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-            PTS = NULL;
             iPTI.clear();
             return false;
         }
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 4fb0486..3e7ed67 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index d8d2d42..3c25dc9 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -167,6 +167,13 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            ivoids.clear();
+            return false;
+        }
+
         mvoids.push_back( pair<IGES_ENTITY_514*, bool>( (IGES_ENTITY_514*)ep, sV->second ) );
         ++sV;
     }
diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 05d919a..b62f69e 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -116,6 +116,14 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    if( dup )
+    {
+        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+        msurface = NULL;
+        iloops.clear();
+        return false;
+    }
+
     list<int>::iterator sL = iloops.begin();
     list<int>::iterator eL = iloops.end();
 
@@ -145,6 +153,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..046de67 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -115,6 +115,13 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            ifaces.clear();
+            return false;
+        }
+
         mfaces.push_back( pair<IGES_ENTITY_510*, bool>( (IGES_ENTITY_510*)ep, sF->second ) );
         ++sF;
     }
-- 
2.43.0


From 6ab5a65bec52c7a8f6c7bf92bce13cf4f6ec686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 045/135] fix: accept only vertices, edges and curves as the
 elements of a Loop

---
 src/entities/entity508.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 77d36f7..c8741ab 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -29,6 +29,7 @@
 #include <error_macros.h>
 #include <core/iges.h>
 #include <core/iges_io.h>
+#include <core/iges_curve.h>
 #include <core/entity124.h>
 #include <core/entity508.h>
 
@@ -189,6 +190,12 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 
         if( !AddEdge( ldata ) )
         {
+            while( !ldata->pcurves.empty() )
+            {
+                delete ldata->pcurves.back();
+                ldata->pcurves.pop_back();
+            }
+
             delete ldata;
             ERRMSG << "\n + [INFO] could not add edge data for entity ";
             cerr << sequenceNumber << "\n";
@@ -803,6 +810,12 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    if( NULL == dynamic_cast<IGES_CURVE*>( aCurve ) )
+    {
+        ERRMSG << "\n + [INFO] PS curve entity is not a curve\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -911,6 +924,13 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         return false;
     }
 
+    if( ( aEdge->isVertex ? ENT_VERTEX : ENT_EDGE ) != aEdge->data->GetEntityType() )
+    {
+        ERRMSG << "\n +[INFO] entity (type " << aEdge->data->GetEntityType();
+        cerr << ") is not a list of " << ( aEdge->isVertex ? "vertices" : "edges" ) << "\n";
+        return false;
+    }
+
     if( !addEdge( aEdge->data ) )
     {
         ERRMSG << "\n +[INFO] could not add edge to list\n";
-- 
2.43.0


From 0655110025c5c093bdc0235dff64b06b9fc18454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 046/135] fix: drop the reference to an unsuitable closed curve
 of entity 164

---
 src/entities/entity164.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 298bf16..19ed1f5 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -115,6 +115,7 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
     {
         ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
         cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
+        (*entities)[iEnt]->delReference(this);
         return false;
     }
 
-- 
2.43.0


From 86117642cca0617c4018ab4bf66448b99a67cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 047/135] fix: reject infinite and NaN parameters but accept
 very small ones

---
 src/iges/iges_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 67cf519..85cc0f7 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -460,7 +460,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
     errno = 0;
     double d = strtod( cp, &rp );
 
-    if( errno || cp == rp )
+    // note: ERANGE is also used to indicate values which are too close to 0
+    if( ( errno && !( errno == ERANGE && fabs( d ) < 1.0 ) ) || cp == rp || !std::isfinite( d ) )
     {
         ERRMSG << "\n + [BAD DATA]: invalid floating point number\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
-- 
2.43.0


From bcec7d2281f2cf068b163e70b9139dc238ea3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 048/135] fix: reject inconsistent NURBS data

---
 src/entities/entity126.cpp | 16 ++++++++++++++++
 src/entities/entity128.cpp | 10 ++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9951ed5..d6b8bc3 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -496,6 +496,15 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // there must be at least as many control points as the order of the basis
+    // functions and the record cannot contain more items than characters
+    if( K < M || K > (int)pdout.length() || M > (int)pdout.length() )
+    {
+        ERRMSG << "\n + [INFO] inconsistent upper index sum and degree (" << K << ", " << M << ")\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:planar/nonplanar)\n";
@@ -839,6 +848,13 @@ bool IGES_ENTITY_126::makeSCurve( void )
     if( scurve )
         return true;
 
+    // SISL cannot deal with end knots whose multiplicity exceeds the order
+    if( !knots || !coeffs || !( knots[0] < knots[M + 1] ) || !( knots[K] < knots[K + M + 1] ) )
+    {
+        ERRMSG << "\n + [INFO] invalid knot sequence\n";
+        return false;
+    }
+
     if( PROP3 )
     {
         scurve = newCurve( nCoeffs, M + 1, knots, coeffs, 1, 3, 1 );
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..66af2d4 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -520,6 +520,16 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // there must be at least as many control points as the order of the basis
+    // functions and the record cannot contain more items than characters
+    if( K1 < M1 || K2 < M2 
+        || ( K1 + 1.0 ) * ( K2 + 1.0 ) > pdout.length() )
+    {
+        ERRMSG << "\n + [INFO] inconsistent upper index sum and degree (" << K1 << ", " << K2 << ", " << M1 << ", " << M2 << ")\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:open/closed for all U)\n";
-- 
2.43.0


From c502fac2a21f7aa1d8faab054e034281ef3a325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 049/135] fix: refuse to write infinite and NaN parameters

---
 src/iges/iges_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 85cc0f7..4f1730f 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -513,6 +513,12 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
         return false;
     }
 
+    if( !std::isfinite( var ) )
+    {
+        ERRMSG << "\n + [INFO] value cannot be represented\n";
+        return false;
+    }
+
     double vlim = var / minRes;
 
     if( vlim < 0.0 )
-- 
2.43.0


From 905705ae83ccb37e8cf88177344693898062a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 050/135] fix: accept file names which have no extension

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From db7cf3818d3503c2bf95242160860d81c2ed6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 051/135] fix: scale a conic arc without changing its shape

---
 src/entities/entity104.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..613816a 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // the quadratic terms A..C are unchanged when the coordinates are scaled
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From b75f3c94fba6763d139ea7aa133147e7e30d77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 052/135] fix: release the optional entities of a
 Transformation Matrix

---
 src/entities/entity124.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6dd5a0b..f95c551 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,6 +234,9 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
+    if( aChildEntity != pTransform )
+        return IGES_ENTITY::unlink( aChildEntity );
+
     if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
     {
         ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-- 
2.43.0


From e14a32ef220dab106f970aac1d13dc6641b3b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 053/135] fix: initialize the end points of a Line

---
 src/entities/entity110.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..9d0dbd6 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -38,6 +38,12 @@ IGES_ENTITY_110::IGES_ENTITY_110( IGES* aParent ) : IGES_CURVE( aParent )
 {
     entityType = 110;
     form = 0;
+    X1 = 0.0;
+    Y1 = 0.0;
+    Z1 = 0.0;
+    X2 = 0.0;
+    Y2 = 0.0;
+    Z2 = 0.0;
     return;
 }
 
-- 
2.43.0


From 33f20381c9bc70b6ae5119e5280cfab4b7abbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 054/135] fix: return the size of the lists of headers, edges
 and loop data

---
 src/entities/entity504.cpp   | 6 +++---
 src/entities/entity508.cpp   | 2 +-
 src/iges/iges.cpp            | 2 +-
 src/include/core/entity504.h | 2 +-
 src/include/core/entity508.h | 2 +-
 src/include/core/iges.h      | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index d6c3bd7..f52bb96 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -557,7 +557,7 @@ bool IGES_ENTITY_504::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 
 bool
-IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
+IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
 {
     if( edges.empty() )
     {
@@ -580,9 +580,9 @@ IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
         }
     }
 
-    aListSize = 0;
+    aListSize = vedges.size();
     aEdgeList = &vedges[0];
-    return false;
+    return true;
 }
 
 
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index c8741ab..fd16caf 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -901,7 +901,7 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 }
 
 
-bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
+bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a3cb23c..ef06c28 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1918,7 +1918,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/entity504.h b/src/include/core/entity504.h
index 621de8c..be88435 100644
--- a/src/include/core/entity504.h
+++ b/src/include/core/entity504.h
@@ -143,7 +143,7 @@ public:
      * Function GetEdges
      * returns a vector containing Edge data for convenient access by users
      */
-    bool GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList );
+    bool GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList );
 
 
     /**
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index 0105663..f530f02 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -165,7 +165,7 @@ public:
      * returns a pointer to the list of data structures
      * representing this loop entity.
      */
-    bool GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList );
+    bool GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList );
 
 
     /**
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From 76703cec25a31c38e9bd4001a7f210de6853196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 055/135] fix: keep header lines which are exactly 72
 characters long

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ef06c28..f8b12a5 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1970,7 +1970,7 @@ bool IGES::AddToHeader( const char*& comments )
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 900d1143e82abee4cbb535c2b5bf35789f48812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 056/135] fix: reject a NULL directrix

---
 src/entities/entity122.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..3f5ba09 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -397,6 +397,12 @@ bool IGES_ENTITY_122::GetDE( IGES_CURVE*& aPtr )
 
 bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
 {
+    if( NULL == aPtr )
+    {
+        ERRMSG << "\n + [BUG] invalid curve pointer (NULL)\n";
+        return false;
+    }
+
     if( DE )
     {
         DE->delReference(this);
-- 
2.43.0


From 76330f6f91142f3460344426b2279d0534519969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 057/135] fix: return the Color Definition and Label
 Association which were set

---
 src/entities/iges_entity.cpp | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index c0b3271..b010639 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2259,18 +2259,6 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
 bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
-    *aLabelAssoc = NULL;
-
-    if( 0 == (labelAssoc & 0x80000000) )
-        return true;
-
-    if( !pLabelAssoc )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
     *aLabelAssoc = pLabelAssoc;
     return true;
 }
@@ -2326,7 +2314,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2341,21 +2329,8 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
     *aColor = NULL;
 
-    if( 0 == (colorNum & 0x80000000) )
-    {
-        if( 0 == colorNum )
-            return true;
-        else
-            return false;
-
-    }
-
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
+    if( !pColor )
+        return ( 0 == colorNum );
 
     *aColor = pColor;
     return true;
-- 
2.43.0


From 737a05d26410e7fa7a7a9fa704cff321e7f64842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 058/135] fix: allow an optional entity to be removed

---
 src/entities/iges_entity.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index b010639..ca071f1 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2893,16 +2893,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2914,13 +2908,21 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 holds no reference to this entity
+            if( eType != 402 && !aEntity->delReference( this ) )
+            {
+                ERRMSG << "\n + [BUG] could not delete reference from a child entity\n";
+                return false;
+            }
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] no such entity in <extras>\n";
     return false;
 }
 
-- 
2.43.0


From 488b3664be9fb56c27460bdd9e10db109831aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 059/135] fix: do not reject a file because of an unsupported
 optional entity

---
 src/entities/iges_entity.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ca071f1..1a33fc0 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1029,6 +1029,14 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     extras.push_back( (*entities)[iEnt] );
                     break;
 
+                case ENT_NULL:
+                    // the entity is NULL or its type is not supported
+                    ERRMSG << "\n + [WARNING] reference to a NULL or unsupported entity (Type ";
+                    cerr << ((IGES_ENTITY_NULL*)(*entities)[iEnt])->GetTrueEntityType();
+                    cerr << ") removed from the Optional Parameters section of Entity DE ";
+                    cerr << sequenceNumber << "\n";
+                    break;
+
                 default:
                     ERRMSG << "\n + [INFO] unsupported entity (" << tEnt;
                     cerr << ") in Optional Parameters section for Entity DE ";
-- 
2.43.0


From 554af3dc4fa36669c64a6fc983a8512a7ad660cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 060/135] fix: maintain references to the surface and bounds of
 a Face

---
 src/entities/entity510.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index b62f69e..1968779 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -562,10 +562,20 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    bool dup = false;
+
+    if( !aLoop->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG] duplicate entity added\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -580,6 +590,26 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    bool dup = false;
+
+    if( !aSurface->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG] duplicate entity added\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference( this );
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From 94879bfed8987a16331fc96fd3d922ea8aabe13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 061/135] fix: refuse to export a model into itself

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f8b12a5..bdca0a3 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2451,6 +2451,12 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    if( this == newParent )
+    {
+        ERRMSG << "\n + [BUG] Export() invoked with the model itself as the destination\n";
+        return false;
+    }
+
     if( entities.empty() )
         return true;
 
-- 
2.43.0


From bad68e200ef8df901411f113424565b64a6b390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 062/135] fix: refuse to convert to an invalid unit

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index bdca0a3..6bf9851 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1842,6 +1842,12 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     if( globalData.unitsFlag == newUnit )
         return true;
 
+    if( newUnit < UNIT_START || newUnit >= UNIT_END )
+    {
+        ERRMSG << "\n + [BUG] invalid units flag (" << newUnit << ")\n";
+        return false;
+    }
+
     if( globalData.unitsFlag == UNIT_EXTERN )
     {
         ERRMSG << "\n + [INFO] cannot convert units; internal units is UNIT_EXTERN\n";
-- 
2.43.0


From 03c14308a26c5047b141979b10a4d3a0c34ef304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 063/135] fix: initialize the parent flag of an API entity

---
 src/dllapi/dll_iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..1292879 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -42,6 +42,7 @@
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 {
     m_parent = aParent;
+    m_hasParent = false;
 
     if( NULL != aParent )
         m_parent->AttachValidFlag( &m_hasParent );
@@ -56,6 +57,7 @@ DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( DLL_IGES& aParent )
 {
     m_parent = aParent.GetRawPtr();
+    m_hasParent = false;
 
     if( NULL != m_parent )
         m_parent->AttachValidFlag( &m_hasParent );
-- 
2.43.0


From a5698c44a94c30963ac8f362660ef985599e35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 064/135] fix: remove an entity from its model when it is
 deleted via the API

---
 src/dllapi/dll_iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 1292879..f671092 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -169,6 +169,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
+        IGES* ip = m_entity->GetParentIGES();
+
+        // ensure that no IGES object is left with a pointer to the entity
+        if( NULL != ip )
+            ip->UnlinkEntity( m_entity );
+
         delete m_entity;
     }
 
-- 
2.43.0


From e2fe050d9dba942e00e72e1b0b3699b1ab41d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 065/135] fix: create a single entity in NewAPIEntity

---
 src/dllapi/dll_iges.cpp | 52 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..5c85a70 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From b0c4d0370118c64415f8feac44d1071682309e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 066/135] fix: return the new entity from NewIGESEntity

---
 src/dllapi/dll_iges.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 5c85a70..f96512e 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -364,7 +364,13 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] invoked with NULL entity pointer\n";
+        return false;
+    }
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From 045f52013ae2dee33a92900424521d2a2d3c1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 067/135] fix: return the curves and walls of an outline via
 the API

---
 src/dllapi/dll_iges_geom_pcb.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..b9004b1 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -281,7 +281,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From 8bcf61322d07c9ced6af4d40f928bffd87f152bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 068/135] fix: do not scale curves which lie in the parameter
 space of a surface

---
 src/entities/entity100.cpp     |  5 ++++
 src/entities/entity104.cpp     |  5 ++++
 src/entities/entity110.cpp     |  5 ++++
 src/entities/entity126.cpp     | 50 +++-----------------------------
 src/entities/iges_entity.cpp   | 52 ++++++++++++++++++++++++++++++++++
 src/include/core/iges_entity.h | 13 +++++++++
 6 files changed, 84 insertions(+), 46 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 24fb34a..b9b1483 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -403,6 +403,11 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_100::rescale( double sf )
 {
+    // a curve in the parameter space of a surface is not expressed
+    // in units of the model
+    if( isParametric() )
+        return true;
+
     zOffset *= sf;
     xCenter *= sf;
     yCenter *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 613816a..6f09322 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,6 +356,11 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    // a curve in the parameter space of a surface is not expressed
+    // in units of the model
+    if( isParametric() )
+        return true;
+
     // the quadratic terms A..C are unchanged when the coordinates are scaled
     D *= sf;
     E *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 9d0dbd6..165ea15 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -151,6 +151,11 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    // a curve in the parameter space of a surface is not expressed
+    // in units of the model
+    if( isParametric() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
     Z1 *= sf;
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index d6b8bc3..3d08d5d 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -308,52 +308,10 @@ bool IGES_ENTITY_126::format( int &index )
 
 bool IGES_ENTITY_126::rescale( double sf )
 {
-    // Before scaling we must determine if this curve is a member of the BPTR
-    // of a Curve on a Parametric Surface (BPTR to Entity 144). We must traverse
-    // the ancestors of this NURBS curve and decide whether or not it
-    // makes sense to scale the control points. If a Curve on Surface is scaled,
-    // only the Z values should be scaled
-
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
-
-    bool scaleXY = true;
-
-    if( cps )
-    {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
-    }
+    // The control points of a curve in the parameter space of a surface
+    // are not expressed in units of the model so only the Z values should
+    // be scaled
+    bool scaleXY = !isParametric();
 
     if( NULL == coeffs )
         return true;
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 1a33fc0..e4b5aa1 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3065,3 +3065,55 @@ IGES_ENTITY* IGES_ENTITY::getFirstParentRef( void )
 
     return refs.front();
 }
+
+
+bool IGES_ENTITY::isParametric( void )
+{
+    // the curve and all Composite Curves which contain it
+    list<IGES_ENTITY*> eps;
+    eps.push_back( this );
+
+    for( list<IGES_ENTITY*>::iterator sE = eps.begin(); sE != eps.end(); ++sE )
+    {
+        list<IGES_ENTITY*>::iterator sR = (*sE)->refs.begin();
+        list<IGES_ENTITY*>::iterator eR = (*sE)->refs.end();
+
+        while( sR != eR )
+        {
+            if( (*sR)->entityType == ENT_CURVE_ON_PARAMETRIC_SURFACE )
+            {
+                IGES_ENTITY* ep = NULL;
+
+                if( ((IGES_ENTITY_142*)(*sR))->GetBPTR( &ep ) && ep == *sE )
+                    return true;
+            }
+            else if( (*sR)->entityType == ENT_LOOP )
+            {
+                vector<LOOP_DATA*>& edges = ((IGES_ENTITY_508*)(*sR))->edges;
+
+                for( size_t i = 0; i < edges.size(); ++i )
+                {
+                    for( size_t j = 0; j < edges[i]->pcurves.size(); ++j )
+                    {
+                        if( edges[i]->pcurves[j]->curve == *sE )
+                            return true;
+                    }
+                }
+            }
+            else if( (*sR)->entityType == ENT_COMPOSITE_CURVE )
+            {
+                list<IGES_ENTITY*>::iterator sV = eps.begin();
+
+                while( sV != eps.end() && *sV != *sR )
+                    ++sV;
+
+                if( sV == eps.end() )
+                    eps.push_back( *sR );
+            }
+
+            ++sR;
+        }
+    }
+
+    return false;
+}
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..20fc84d 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -191,6 +191,19 @@ public:
     IGES_ENTITY* getFirstParentRef( void );
 
 
+    /**
+     * Function isParametric
+     * returns true if this entity, or a Composite Curve of which it
+     * is a member, is a curve in the parameter space of a surface
+     * (the BPTR of a Curve on a Parametric Surface or a Parameter
+     * Space Curve of a Loop). The coordinates of such a curve are
+     * not expressed in units of the model. This function is used
+     * internally to decide how the parameters of a curve should be
+     * scaled.
+     */
+    bool isParametric( void );
+
+
     /**
      * Function associate
      * associates DE pointers with other entities after reading all data;
-- 
2.43.0


From f22817c07a04ce24a601436985e639a9cb652f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 069/135] fix: do not write values as 0 if the resolution of
 the model is smaller

---
 src/iges/iges_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 4f1730f..9128cc9 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -533,7 +533,8 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    // note: the resolution is very small if the unit of length is large
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 01d9c53eef8292276c4e2d34b7b89cc80c63a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 070/135] fix: keep the resolution and line width of models
 with a large unit of length

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6bf9851..b55a886 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2076,7 +2076,7 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
-    if( globalData.minResolution < 1e-12 )
+    if( !(globalData.minResolution > 0.0) )
         globalData.minResolution = 0.001;
 
     // Item 1: (HStr) Parameter Delimeter
@@ -2287,7 +2287,7 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
-    if( globalData.maxLinewidth < 1e-6 )
+    if( !(globalData.maxLinewidth > 0.0) )
         globalData.maxLinewidth = 1.0;
 
     if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
-- 
2.43.0


From ea61b56804f828b2b9d77c46d13318d2c0412b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 071/135] fix: reject a model scale which is not a number

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b55a886..04becc0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1892,7 +1892,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
 
 bool IGES::ChangeModelScale( double aScale )
 {
-    if( aScale < 6.0e-8 )
+    if( !(aScale >= 6.0e-8) )
     {
         ERRMSG << "\n + [INFO] rejecting scale (< 6.0e-8)\n";
         return false;
-- 
2.43.0


From e61b8ef2c01d59f2dbcee3b6a72e76ac0eacfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 072/135] fix: compare the radius of an arc with the resolution
 in the same units

The data of a file is normalised after all entities were read but the
resolution is normalised with the Global Section, so valid small arcs in
files with a large unit were refused.
---
 src/entities/entity100.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index b9b1483..a071be2 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -353,8 +353,9 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     MCAD_POINT p1( xStart, yStart, 0.0 );
     MCAD_POINT p2( xEnd, yEnd, 0.0 );
     // note: relax the resolution criteria to allow more permissive
-    // acceptance of files
-    double uir = 2.0 * parent->globalData.minResolution;
+    // acceptance of files; the values have not been normalised yet
+    // but the resolution has
+    double uir = 2.0 * parent->globalData.minResolution / parent->globalData.cf;
 
     if( PointMatches( p0, p1, uir ) )
     {
-- 
2.43.0


From 1f91577596bb8a051b7d85340b0296ac6b2a0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 073/135] fix: limit the size of a cylinder to the resolution
 in the same units

The radius, not the height, is adjusted if the radius is too small.
---
 src/entities/entity154.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 9d93349..f9c8124 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -237,7 +237,8 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
     bool eor = false;
     char pd = parent->globalData.pdelim;
     char rd = parent->globalData.rdelim;
-    double minRes = parent->globalData.minResolution;
+    // the values have not been normalised yet but the resolution has
+    double minRes = parent->globalData.minResolution / parent->globalData.cf;
 
 	idx = (int)pdout.find(pd);
 
@@ -285,7 +286,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
-- 
2.43.0


From faf6c52c22514e12903f382486e2f66a3695f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 074/135] fix: check for closed curves with a resolution in the
 units of the data

While a file is read the resolution has been normalised but the data has
not, so valid closed outlines in files with a small unit were refused.
---
 src/entities/entity100.cpp | 2 +-
 src/entities/entity102.cpp | 4 ++--
 src/iges/iges.cpp          | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index a071be2..59110cd 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -462,7 +462,7 @@ bool IGES_ENTITY_100::IsClosed( void )
     double rm = 0.001;
 
     if( parent )
-        rm = parent->globalData.minResolution;
+        rm = parent->globalData.minResolution / parent->globalData.cf;
 
     // a zero-radius circle is not acceptable so
     // this function must fail
diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..dbf9d90 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -250,7 +250,7 @@ bool IGES_ENTITY_102::associate(std::vector<IGES_ENTITY *> *entities)
             if( !parent )
                 dN = 1e-9;
             else
-                dN = parent->globalData.minResolution;
+                dN = parent->globalData.minResolution / parent->globalData.cf;
 
             if( !(*sp)->GetStartPoint( p1, true )
                 || !(*pp)->GetEndPoint( p2, true ) )
@@ -714,7 +714,7 @@ bool IGES_ENTITY_102::IsClosed( void )
     double rm = 0.001;
 
     if( parent )
-        rm = parent->globalData.minResolution;
+        rm = parent->globalData.minResolution / parent->globalData.cf;
 
     return PointMatches( p1, p2, rm );
 }
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 04becc0..139cd24 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -652,6 +652,10 @@ bool IGES::Read( const char* aFileName )
     {
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
+
+        // the data and the resolution are now in the same units
+        globalData.cf = 1.0;
+        globalData.convert = false;
     }
 
     Cull();
-- 
2.43.0


From 88f08b43c0165b236fba589c23797048e8e1f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 075/135] fix: do not write small coefficients of a conic as 0

---
 src/entities/entity104.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 6f09322..b7dd205 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -176,8 +176,9 @@ bool IGES_ENTITY_104::format( int &index )
     {
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
-        // coefficients
-        if( !FormatPDREal( tStr, *dp[i], pd, 1e-10 ) )
+        // coefficients; the coefficients are not lengths and
+        // can be very small if the unit of length is large
+        if( !FormatPDREal( tStr, *dp[i], pd, i < 6 ? 1e-30 : 1e-10 ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
-- 
2.43.0


From 190cd95dd5c289b30d08d3f2717146ff4f465add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 076/135] fix: entity 128 GetNURBSData dereferenced its own
 NULL pointers

---
 src/entities/entity128.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 66af2d4..4b8023b 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -899,9 +899,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From 7461032356eb455373b95277f2d3dcfc8b39ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 077/135] fix: entity 128 SetNURBSData changed the surface
 before it validated its arguments

---
 src/entities/entity128.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 4b8023b..c01c4df 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -986,40 +986,40 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
-
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[nCoeff1 + order1 - 1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[nCoeff1 + order1 - 1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[nCoeff2 + order2 - 1] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[nCoeff2 + order2 - 1] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nCoeff1 + order1;
+    nKnots2 = nCoeff2 + order2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 2ae642af34b76887ebd037ef8a305f676ad64b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 078/135] fix: forget the file pointer of a directory entry
 attribute when its entity is deleted

---
 src/entities/iges_entity.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e4b5aa1..b47ce77 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -299,12 +299,14 @@ bool IGES_ENTITY::unlink(IGES_ENTITY *aChild)
     if( aChild == pLineFontPattern )
     {
         pLineFontPattern = NULL;
+        lineFontPattern = 0;
         return true;
     }
 
     if( aChild == pLevel )
     {
         pLevel = NULL;
+        level = 0;
         return true;
     }
 
@@ -317,6 +319,7 @@ bool IGES_ENTITY::unlink(IGES_ENTITY *aChild)
     if( aChild == pTransform )
     {
         pTransform = NULL;
+        transform = 0;
         return true;
     }
 
@@ -329,6 +332,7 @@ bool IGES_ENTITY::unlink(IGES_ENTITY *aChild)
     if( aChild == pColor )
     {
         pColor = NULL;
+        colorNum = 0;
         return true;
     }
 
-- 
2.43.0


From 15338ba5a5c16191d05477fc2cc0cae2b501b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 079/135] fix: DLL_IGES_ENTITY_406: refuse property access
 through an invalid handle

---
 src/dllapi/dll_entity406.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..6bffa2e 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -95,13 +95,18 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     const char *result = NULL;
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( ep->GetEntityForm() == 15 )
     {
         std::string *sp = (std::string *)ep->GetData();
-        result = sp->c_str();
+
+        if( NULL != sp )
+            result = sp->c_str();
     }
 
     return result;
@@ -110,6 +115,9 @@ const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 
 bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     bool result = false;
 
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
-- 
2.43.0


From 775eff129e6a7512eee00cc5f395d21dc9b87f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 080/135] fix: DLL_IGES_ENTITY_122: SetGeneratrixEnd sets all
 three coordinates

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From 7214100226a14d337d667c4088b0904c9fe33b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 081/135] fix: DLL_IGES: SetProductID_ReceivingSystem accepts
 NULL like the other setters

---
 src/dllapi/dll_iges.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f96512e..2b55bd5 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -645,7 +645,11 @@ bool DLL_IGES::SetProductID_ReceivingSystem( char const* aProductIDRS )
         return false;
     }
 
-    m_iges->globalData.productIDRS = aProductIDRS;
+    if( NULL == aProductIDRS )
+        m_iges->globalData.productIDRS.clear();
+    else
+        m_iges->globalData.productIDRS = aProductIDRS;
+
     return true;
 }
 
-- 
2.43.0


From ca765f76c942ec546a11d59834d7c463776c43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 082/135] fix: DLL_IGES_ENTITY_308: refuse a NULL handle in
 AddDE and DelDE

---
 src/dllapi/dll_entity308.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 3fe6132..baf916b 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -127,7 +127,7 @@ bool DLL_IGES_ENTITY_308::AddDE(IGES_ENTITY* aPtr)
 
 bool DLL_IGES_ENTITY_308::AddDE(DLL_IGES_ENTITY*& aPtr)
 {
-    if( !m_valid || NULL == m_entity )
+    if( !m_valid || NULL == m_entity || NULL == aPtr )
         return false;
 
     return ((IGES_ENTITY_308*)m_entity)->AddDE( aPtr->GetRawPtr() );
@@ -145,7 +145,7 @@ bool DLL_IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
 
 bool DLL_IGES_ENTITY_308::DelDE(DLL_IGES_ENTITY*& aPtr)
 {
-    if( !m_valid || NULL == m_entity )
+    if( !m_valid || NULL == m_entity || NULL == aPtr )
         return false;
 
     return ((IGES_ENTITY_308*)m_entity)->DelDE( aPtr->GetRawPtr() );
-- 
2.43.0


From f013d631668bdfbdde1289845e4461594faed45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 083/135] fix: UnlinkEntity: do not leave the entity with a
 pointer to the document it left

---
 src/iges/iges.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 139cd24..8dad952 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1064,6 +1064,11 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+
+            // the entity may outlive this object
+            if( this == aEntity->parent )
+                aEntity->parent = NULL;
+
             return true;
         }
 
-- 
2.43.0


From a6a694a21d1bb2b4be4683e0425452ce8ab3fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 084/135] fix: DLL_MCAD_SEGMENT, DLL_MCAD_OUTLINE: NewSegment
 and NewOutline detach the existing object as documented

---
 src/dllapi/dll_iges_geom_pcb.cpp | 3 ++-
 src/dllapi/dll_mcad_outline.cpp  | 3 ++-
 src/dllapi/dll_mcad_segment.cpp  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index b9004b1..ef1faa1 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -54,8 +54,9 @@ DLL_IGES_GEOM_PCB::~DLL_IGES_GEOM_PCB()
 
 bool DLL_IGES_GEOM_PCB::NewOutline( void )
 {
+    // an existing outline is only detached, see DelOutline()
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_outline.cpp b/src/dllapi/dll_mcad_outline.cpp
index b8001af..621bc0f 100644
--- a/src/dllapi/dll_mcad_outline.cpp
+++ b/src/dllapi/dll_mcad_outline.cpp
@@ -68,8 +68,9 @@ bool DLL_MCAD_OUTLINE::IsValid( void )
 
 bool DLL_MCAD_OUTLINE::NewOutline( void )
 {
+    // an existing outline is only detached, see DelOutline()
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_segment.cpp b/src/dllapi/dll_mcad_segment.cpp
index 575d28e..8f328ca 100644
--- a/src/dllapi/dll_mcad_segment.cpp
+++ b/src/dllapi/dll_mcad_segment.cpp
@@ -67,8 +67,9 @@ bool DLL_MCAD_SEGMENT::IsValid( void )
 
 bool DLL_MCAD_SEGMENT::NewSegment( void )
 {
+    // an existing segment is only detached, see DelSegment()
     if( m_valid && m_segment )
-        delete m_segment;
+        m_segment->DetachValidFlag( &m_valid );
 
     m_segment = NULL;
     m_valid = false;
-- 
2.43.0


From 4f408672a43d6084b4a1542e8930a2424584ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 085/135] fix: idf2igs: a placement without an outline in the
 library crashed the converter

---
 src/idf/idf2igs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..86ebd0b 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -915,6 +915,13 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
         while( so != eo )
         {
+            if( NULL == (*so)->GetOutline() )
+            {
+                // the library has no outline for this component
+                ++so;
+                continue;
+            }
+
             uid = ((IDF3_COMP_OUTLINE*)((*so)->GetOutline()))->GetUID().c_str();
             map<string, IGES_ENTITY_308*>::iterator outline =
                 componentList.find( uid );
-- 
2.43.0


From 5e147964c9cf7261973080c854068b54fcec7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 086/135] fix: idf2igs: report failure when the model cannot be
 created or written

---
 src/idf/idf2igs.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 86ebd0b..b6396ee 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -169,15 +169,31 @@ int main( int argc, char **argv )
     cerr << "Output file: '" << fname << "'\n";
 
     // STEP 1: Render the PCB alone
-    MakeBoard( pcb, model );
+    if( !MakeBoard( pcb, model ) )
+    {
+        cerr << "** Failed to create the board model\n";
+        return -1;
+    }
 
     // STEP 2: Render the components
-    MakeComponents( pcb, model );
+    if( !MakeComponents( pcb, model ) )
+    {
+        cerr << "** Failed to create the component models\n";
+        return -1;
+    }
 
     // STEP 3: Render the OTHER outlines
-    MakeOtherOutlines( pcb, model );
+    if( !MakeOtherOutlines( pcb, model ) )
+    {
+        cerr << "** Failed to create the models of the OTHER outlines\n";
+        return -1;
+    }
 
-    model.Write( fname.c_str(), true );
+    if( !model.Write( fname.c_str(), true ) )
+    {
+        cerr << "** Failed to write the output file\n";
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 31f829e98e86a1c8f7995bba8c02d9bd5471f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 087/135] fix: idf2igs: only the first OTHER_OUTLINE of a board
 was converted

---
 src/idf/idf2igs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index b6396ee..67f9690 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -989,7 +989,7 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
     std::map< std::string, OTHER_OUTLINE* >::const_iterator sc = comp->begin();
     std::map< std::string, OTHER_OUTLINE* >::const_iterator ec = comp->end();
 
-    DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
+    DLL_IGES_GEOM_PCB otln( false );    // main outline for this section
 
     while( sc != ec )
     {
@@ -1012,6 +1012,9 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         {
             if( scont == rcont )
             {
+                // each OTHER outline needs a fresh outline of its own
+                otln.Detach();
+                otln.NewOutline();
                 pIGS = otln.GetRawPtr();
             }
             else
-- 
2.43.0


From bc6c923445895d2379082ddfeae1125ea26bec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 088/135] fix: arcs whose ends lie a rounding error from a
 multiple of PI produced degenerate walls and unusable edges

---
 src/geom/geom_cylinder.cpp      |  3 +++
 src/geom/iges_geom_pcb.cpp      |  7 +++++--
 src/geom/mcad_helpers.cpp       | 11 +++++++++++
 src/include/geom/mcad_helpers.h |  6 ++++++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..5657f1e 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -172,6 +172,9 @@ bool IGES_GEOM_CYLINDER::SetParams( MCAD_POINT center, MCAD_POINT start, MCAD_PO
     if( ang2 < ang1 )
         ang2 += 2.0 * M_PI;
 
+    ang1 = SnapAngle( ang1, radius );
+    ang2 = SnapAngle( ang2, radius );
+
     if( ang1 < 0.0 )
     {
         // range of angles will be > M_PI .. < 4*M_PI
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..fdbf92e 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -1184,6 +1184,9 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
         a1 = aSegment->GetMEAngle();
     }
 
+    a0 = SnapAngle( a0, mradius );
+    a1 = SnapAngle( a1, mradius );
+
     if( a0 >= 0.0 && a0 < M_PI )
     {
         if( a1 <= M_PI )
@@ -1628,8 +1631,8 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
     double spt[3][3];       // start points for each angle
     double cpt[3];          // center point for all angles
 
-    sAng = aSegment->GetStartAngle();
-    eAng = aSegment->GetEndAngle();
+    sAng = SnapAngle( aSegment->GetStartAngle(), mradius );
+    eAng = SnapAngle( aSegment->GetEndAngle(), mradius );
 
     ptArc[0] = mstart;
     ptArc[0].x = ( ptArc[0].x - offX ) * aScale;
diff --git a/src/geom/mcad_helpers.cpp b/src/geom/mcad_helpers.cpp
index 8be0d6d..b6eac1e 100644
--- a/src/geom/mcad_helpers.cpp
+++ b/src/geom/mcad_helpers.cpp
@@ -133,6 +133,17 @@ void print_vec( const MCAD_POINT* p )
 }
 
 
+double SnapAngle( double aAngle, double aRadius )
+{
+    double ref = M_PI * floor( aAngle / M_PI + 0.5 );
+
+    if( abs( aAngle - ref ) * aRadius < 1e-7 )
+        return ref;
+
+    return aAngle;
+}
+
+
 // calculate the normal given points p0, p1, p2
 bool CalcNormal( const MCAD_POINT* p0, const MCAD_POINT* p1, const MCAD_POINT* p2, MCAD_POINT* pn )
 {
diff --git a/src/include/geom/mcad_helpers.h b/src/include/geom/mcad_helpers.h
index 745c4de..83e6537 100644
--- a/src/include/geom/mcad_helpers.h
+++ b/src/include/geom/mcad_helpers.h
@@ -49,6 +49,12 @@ MCAD_API void print_matrix(const MCAD_MATRIX* m);
 struct MCAD_POINT;
 MCAD_API void print_vec(const MCAD_POINT* p);
 
+// snap an angle to the nearest multiple of PI if the corresponding point
+// on an arc of radius aRadius is within 1e-7 of that direction; arcs are
+// split at multiples of PI and without this a rounding error in the angle
+// yields a degenerate (zero length) arc
+MCAD_API double SnapAngle( double aAngle, double aRadius );
+
 // calculate the normal given points p0, p1, p2
 MCAD_API bool CalcNormal( const MCAD_POINT* p0, const MCAD_POINT* p1, const MCAD_POINT* p2, MCAD_POINT* pn );
 
-- 
2.43.0


From 05db6394bb4eb061f0bf71a1e8ee193421d204f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 089/135] fix: idf2igs: holes lying within or merging out of
 order with other holes were converted to a wrong board and reported as
 success

---
 src/idf/idf2igs.cpp | 113 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 108 insertions(+), 5 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 67f9690..359cffc 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -533,6 +533,78 @@ bool convertDrills( list< MCAD_SEGMENT* >& drills, const list<IDF_DRILL_DATA*>*
 
 // merge overlapping drills into cutouts; return true if any drills were merged;
 // if invalid geometry was encountered the error flag will be set
+// discard every hole which lies entirely within another hole
+static void dropEnclosed( list< MCAD_SEGMENT* >& drills )
+{
+    list< MCAD_SEGMENT* >::iterator sA = drills.begin();
+    list< MCAD_SEGMENT* >::iterator sB;
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_POINT cA;
+    MCAD_POINT cB;
+    double rA = 0.0;
+    double rB = 0.0;
+
+    while( sA != drills.end() )
+    {
+        seg.Attach( *sA );
+        seg.GetCenter( cA );
+        seg.GetRadius( rA );
+        seg.Detach();
+
+        sB = drills.begin();
+
+        while( sB != drills.end() )
+        {
+            if( sA == sB )
+            {
+                ++sB;
+                continue;
+            }
+
+            seg.Attach( *sB );
+            seg.GetCenter( cB );
+            seg.GetRadius( rB );
+
+            double dx = cA.x - cB.x;
+            double dy = cA.y - cB.y;
+            double d = sqrt( dx*dx + dy*dy );
+
+            // the tolerance is the one used to decide that 2 circles are identical
+            if( rB <= rA && ( d <= rA - rB || ( d < 0.001 && rA - rB < 0.001 ) ) )
+            {
+                seg.DelSegment();
+                sB = drills.erase( sB );
+                continue;
+            }
+
+            seg.Detach();
+            ++sB;
+        }
+
+        ++sA;
+    }
+
+    return;
+}
+
+
+// delete bundles of drill holes
+static void killBundles( list< list< MCAD_SEGMENT* >* >& bundles )
+{
+    list< list< MCAD_SEGMENT* >* >::iterator sB = bundles.begin();
+
+    while( sB != bundles.end() )
+    {
+        killDrills( **sB );
+        delete *sB;
+        ++sB;
+    }
+
+    bundles.clear();
+    return;
+}
+
+
 bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts, bool& error )
 {
     error = false;
@@ -540,6 +612,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
     if( drills.empty() )
         return false;
 
+    dropEnclosed( drills );
+
     list< MCAD_SEGMENT* >::iterator sD = drills.begin();
     list< MCAD_SEGMENT* >::iterator eD = drills.end();
     list< MCAD_SEGMENT* >::iterator iD;
@@ -628,6 +702,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
                             ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
                             seg0.Detach();
                             seg2.Detach();
+                            killBundles( bundles );
+                            error = true;
                             return false;
                         }
 
@@ -646,6 +722,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
             {
                 seg2.Detach();
                 ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
+                killBundles( bundles );
+                error = true;
                 return false;
             }
 
@@ -672,12 +750,15 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
         if( !bundleDrills( *sB, cutouts ) )
         {
             ERROR_IDF << "\n + [INFO] problems encountered while merging drill holes\n";
+            killBundles( bundles );
+            error = true;
             return false;
         }
 
         ++sB;
     }
 
+    killBundles( bundles );
     return true;
 }
 
@@ -741,20 +822,42 @@ bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts
 
     DLL_MCAD_OUTLINE op( true );
     bool dud = false;
-    op.AddSegment( drills->front(), dud );
-    cutouts.push_back( op.GetRawPtr() );
 
-    for( size_t i = 0; i < nd; ++i )
+    if( !op.AddSegment( drills->front(), dud ) )
+    {
+        ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
+        return false;
+    }
+
+    drills->pop_front();
+
+    // a hole may only be merged once it overlaps the outline so
+    // keep on trying for as long as there is some progress
+    while( !dist.empty() )
     {
-        if( !op.AddOutline( dist[i].second, dud ) )
+        size_t i = 0;
+        dud = false;
+
+        while( i < dist.size() && !op.AddOutline( dist[i].second, dud ) )
+        {
+            if( dud )
+                break;
+
+            ++i;
+        }
+
+        if( dud || i == dist.size() )
         {
             ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
             return false;
         }
+
+        drills->remove( dist[i].second );
+        dist.erase( dist.begin() + i );
     }
 
+    cutouts.push_back( op.GetRawPtr() );
     op.Detach();
-    drills->clear();
     return true;
 }
 
-- 
2.43.0


From a227ffcaf03eef9e5b41c6717dfe6fbd6938e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 090/135] fix: MCAD_SEGMENT: arc to arc intersection tested
 points against the other arc with the angle about the wrong center

---
 src/geom/mcad_segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..328e81f 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -764,7 +764,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     else
     {
         // check if each point lies on the arc
-        tang = angX0;
+        tang = atan2( p1.y - c2.y, p1.x - c2.x );
 
         if( tang > b1 )
             tang -= 2.0 * M_PI;
@@ -777,7 +777,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             ++isOnArc[0];
         }
 
-        tang = angX1;
+        tang = atan2( p2.y - c2.y, p2.x - c2.x );
 
         if( tang > b1 )
             tang -= 2.0 * M_PI;
-- 
2.43.0


From d7132bda5eca5aedc92c1a946ffe163528a1cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 091/135] fix: MCAD_OUTLINE::IsInside: do not use the bounding
 box from before the outline was modified

---
 src/geom/mcad_outline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..73c6873 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -299,6 +299,9 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     //    are <= aPoint.y.
     // 3. odd nodes = inside, even nodes = outside
 
+    if( !mBBisOK )
+        calcBoundingBox();
+
     MCAD_POINT bb0 = mBottomLeft;
     MCAD_POINT bb1 = mTopRight;
 
-- 
2.43.0


From 234fe1b7fa444c4d5cc23c2a147df5d58fc17db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 092/135] fix: idf2igs: report failure when a cutout or a
 surface cannot be created

---
 src/idf/idf2igs.cpp | 66 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 359cffc..adcb2d7 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -346,7 +346,12 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 
     while( sMO != eMO )
     {
-        otln.AddCutout( *sMO, true, dud );
+        if( !otln.AddCutout( *sMO, true, dud ) )
+        {
+            ERROR_IDF << "\n + could not add a cutout to the board\n";
+            return false;
+        }
+
         ++sMO;
     }
 
@@ -355,7 +360,12 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 
     while( sDH != eDH )
     {
-        otln.AddCutout( *sDH, false, dud );
+        if( !otln.AddCutout( *sDH, false, dud ) )
+        {
+            ERROR_IDF << "\n + could not add a drill hole to the board\n";
+            return false;
+        }
+
         ++sDH;
     }
 
@@ -364,9 +374,16 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
     double th = 0.5 * board.GetBoardThickness();
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true );
+
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true ) )
+    {
+        ERROR_IDF << "\n + could not create the surfaces of the board\n";
+        delete [] surfs;
+        return false;
+    }
+
     otln.Detach();
 
     IGES_ENTITY_308* subfig;
@@ -1150,7 +1167,12 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         while( sMO != eMO )
         {
-            otln.AddCutout( *sMO, true, dud );
+            if( !otln.AddCutout( *sMO, true, dud ) )
+            {
+                ERROR_IDF << "\n + could not add a cutout to an OTHER outline\n";
+                return false;
+            }
+
             ++sMO;
         }
 
@@ -1163,18 +1185,26 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         IGES_ENTITY_144** surfs = NULL;
         int nSurfs = 0;
         double th = sc->second->GetThickness();
+        bool ok = true;
 
         if( bottom )
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), -bt );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, true );
+            ok = otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), -bt )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, true );
         }
         else
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, false );
+            ok = otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, false );
+        }
+
+        if( !ok )
+        {
+            ERROR_IDF << "\n + could not create the surfaces of an OTHER outline\n";
+            delete [] surfs;
+            return false;
         }
 
         DLL_IGES_ENTITY_308 subfig( model, true );
@@ -1273,9 +1303,15 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
 
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true );
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true ) )
+    {
+        ERROR_IDF << "\n + could not create the surfaces of a component\n";
+        delete [] surfs;
+        return false;
+    }
+
     otln.Detach();
 
     if( !newSubfigure( model, subfig ) )
-- 
2.43.0


From c410fd3f2a7b4c410573ceeb533fac51bdba58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 093/135] fix: MCAD_OUTLINE::AddOutline: endless loop when a
 clockwise arc is joined (its ends were compared in counterclockwise order)

---
 src/geom/mcad_outline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 73c6873..7f4d0e3 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1879,13 +1879,13 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From 7b2e15b1682f0521c7d7d3eaabe2b1a65b07c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 094/135] fix: MCAD_OUTLINE::SubOutline: the remaining segments
 of the argument were joined in the wrong order

---
 src/geom/mcad_outline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 7f4d0e3..b1ec9ae 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1816,7 +1816,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         }
 
         aOutline->msegments = tSegs;
-        oSegs.front() = --aOutline->msegments.end();
+        oSegs.front() = aOutline->msegments.begin();
         eSegO = --aOutline->msegments.end();
     }
 
-- 
2.43.0


From 37f002a2d804bc11fb939c4468cb4e7234c54549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 095/135] fix: MCAD_OUTLINE::IsInside: wrong answers for points
 level with a vertex or with an extreme point of an arc

---
 src/geom/mcad_outline.cpp | 199 +++++++++++++++++---------------------
 1 file changed, 91 insertions(+), 108 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b1ec9ae..6bcee19 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -291,130 +291,113 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
         return false;
     }
 
-    // Steps:
-    // 1. take a line passing through this point and directly to the
-    //    left or right, whichever is the shortest segment.
-    // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
-    // 3. odd nodes = inside, even nodes = outside
-
-    if( !mBBisOK )
-        calcBoundingBox();
-
-    MCAD_POINT bb0 = mBottomLeft;
-    MCAD_POINT bb1 = mTopRight;
-
-    // expand the limits to ensure non-zero segment lengths in all cases
-    bb0.x -= 5.0;
-    bb0.y -= 5.0;
-    bb1.x += 5.0;
-    bb1.y += 5.0;
-
-    MCAD_POINT p2;
-
-    if( (aPoint.x - mBottomLeft.x) <= (mTopRight.x - aPoint.x) )
-        p2.x = bb0.x;
-    else
-        p2.x = bb1.x;
-
-    p2.y = aPoint.y;
-
-    MCAD_SEGMENT ls0;
-    ls0.SetParams( aPoint, p2 );
-    int nI = 0; // number of intersections with the outline
-
+    // a point on a segment is considered to be inside; otherwise count
+    // the crossings of a line from the point to the right: an odd number
+    // means that the point is inside the outline. The outline is taken
+    // as a sequence of pieces along which Y is monotonic and a piece is
+    // crossed if exactly one of its ends is above the line. Adjacent
+    // pieces share their end so a line which passes through an end or
+    // touches an extreme point of an arc is counted correctly.
     list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
     list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
-    list<MCAD_POINT> iList;
-    MCAD_INTERSECT_FLAG flag;
-
-    int acc = 0;
+    bool isIn = false;
 
     while( sSegs != eSegs )
     {
-        if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
+        MCAD_SEGMENT* seg = *sSegs;
+        ++sSegs;
+
+        if( MCAD_SEGTYPE_CIRCLE == seg->GetSegType() )
+        {
+            double d = hypot( aPoint.x - seg->mcenter.x, aPoint.y - seg->mcenter.y );
+            return d <= seg->mradius + 1e-8;
+        }
+
+        // the end is the start of the next segment
+        MCAD_POINT p0 = seg->mstart;
+        MCAD_POINT p1 = ( sSegs == eSegs ) ? msegments.front()->mstart : (*sSegs)->mstart;
+
+        if( PointMatches( aPoint, p0, 1e-8 ) )
+            return true;
+
+        if( MCAD_SEGTYPE_LINE == seg->GetSegType() )
+        {
+            double dx = p1.x - p0.x;
+            double dy = p1.y - p0.y;
+            double vx = aPoint.x - p0.x;
+            double vy = aPoint.y - p0.y;
+            double l2 = dx * dx + dy * dy;
+            double t = dx * vx + dy * vy;
+
+            if( t >= 0.0 && t <= l2 && abs( dx * vy - dy * vx ) <= 1e-8 * sqrt( l2 ) )
+                return true;
+
+            if( ( p0.y > aPoint.y ) != ( p1.y > aPoint.y )
+                && aPoint.x < p0.x + dx * ( vy / dy ) )
+                isIn = !isIn;
+
+            continue;
+        }
+
+        double vx = aPoint.x - seg->mcenter.x;
+        double vy = aPoint.y - seg->mcenter.y;
+
+        if( abs( hypot( vx, vy ) - seg->mradius ) <= 1e-8 )
+        {
+            double ang = atan2( vy, vx );
+
+            while( ang < seg->GetStartAngle() )
+                ang += 2.0 * M_PI;
+
+            if( ang <= seg->GetEndAngle() )
+                return true;
+        }
+
+        // in CCW order: the start, the extreme points and the end
+        if( seg->mCWArc )
+            swap( p0, p1 );
+
+        double a0 = seg->GetStartAngle();
+        double aE = seg->GetEndAngle();
+        double y0 = p0.y;
+
+        while( a0 < aE )
         {
-            list<MCAD_POINT>::iterator sL = iList.begin();
-            list<MCAD_POINT>::iterator eL = iList.end();
+            // the extreme points are at odd multiples of PI/2
+            double a1 = ( floor( a0 / M_PI + 0.5 ) + 0.5 ) * M_PI;
+            double y1;
+
+            if( a1 - a0 < 1e-12 )
+                a1 += M_PI;
 
-            while( sL != eL )
+            if( a1 < aE )
             {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
-                {
-                    ++nI;
-                }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
+                y1 = seg->mcenter.y + seg->mradius * ( sin( a1 ) > 0.0 ? 1.0 : -1.0 );
+            }
+            else
+            {
+                a1 = aE;
+                y1 = p1.y;
+            }
 
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
+            if( ( y0 > aPoint.y ) != ( y1 > aPoint.y ) )
+            {
+                double w = seg->mradius * seg->mradius - vy * vy;
+                w = ( w > 0.0 ) ? sqrt( w ) : 0.0;
 
-                    }
-                    else
-                    {
-                        ++nI;
-                    }
-                }
+                if( cos( 0.5 * ( a0 + a1 ) ) < 0.0 )
+                    w = -w;
 
-                ++sL;
+                if( vx < w )
+                    isIn = !isIn;
             }
 
-            iList.clear();
+            a0 = a1;
+            y0 = y1;
         }
-
-        ++sSegs;
     }
 
-    // note: an odd number means the point is inside the outline
-    if( nI % 2 )
-        return true;
-
-    return false;
+    return isIn;
 }
 
 
-- 
2.43.0


From b9792d5b1a596ba6f28b47518f3736fc64d5095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 096/135] fix: MCAD_OUTLINE: an arc divided twice by a circle
 which contains the rest of the outline kept the wrong part

---
 src/geom/mcad_outline.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 6bcee19..e400b9c 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1001,6 +1001,26 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
                 return false;
             }
 
+            // the part of an arc between the split points may be the only
+            // part of the outline which is not within the circle
+            MCAD_POINT pM;
+            sList.front()->GetMidpoint( pM );
+
+            if( hypot( pM.x - p0.x, pM.y - p0.y ) > aCircle->mradius )
+            {
+                delete sList.back();
+
+                while( !msegments.empty() )
+                {
+                    delete msegments.back();
+                    msegments.pop_back();
+                }
+
+                msegments.push_back( sList.front() );
+                msegments.push_back( sp );
+                return true;
+            }
+
             // replace the first new segment with the arc
             delete sList.front();
             sList.pop_front();
-- 
2.43.0


From 44503354e27e5215580de7faabb00d5dd5b6fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:12 +0000
Subject: [PATCH 097/135] fix: MCAD_SEGMENT::splitArc: the angles of the
 divided arc were not normalised, later operations found intersections off the
 arc

---
 src/geom/mcad_segment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 328e81f..2099a0e 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1844,6 +1844,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
         // adjust the extent of this arc
         mend = p0;
         meang = a0;
+        NORMALIZE_ANGLES( msang, meang );
 
         return true;
     }
@@ -1931,6 +1932,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
     // adjust the extent of this arc
     mend = p0;
     meang = a0;
+    NORMALIZE_ANGLES( msang, meang );
 
     return true;
 }
-- 
2.43.0


From 70e8b49cf7f1c8035430ffc330f7ce48e62b8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 098/135] fix: MCAD_SEGMENT: a line to arc intersection at the
 end of the line was reported even if it is not on the arc

---
 src/geom/mcad_segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 2099a0e..a652e36 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1102,8 +1102,8 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         // in the angle calculations which may result in false negatives.
         if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
             || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - mstart.x ) < 1e-14 && abs( p[i].y - mstart.y ) < 1e-14 )
-            || ( abs( p[i].x - mend.x ) < 1e-14 && abs( p[i].y - mend.y ) < 1e-14 ) )
+            || ( abs( p[i].x - arcS.x ) < 1e-14 && abs( p[i].y - arcS.y ) < 1e-14 )
+            || ( abs( p[i].x - arcE.x ) < 1e-14 && abs( p[i].y - arcE.y ) < 1e-14 ) )
         {
             pt[np2] = p[i];
             ++np2;
-- 
2.43.0


From 2425333f6ca0efbf4e2480af494bd45cdf05abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 099/135] fix: MCAD_OUTLINE: operations failed if the outlines
 cross at the end of a segment and again within it

---
 src/geom/mcad_outline.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index e400b9c..5307476 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1417,8 +1417,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: use the flags evaluated before any split; if both points
+            // are on one segment the first split changes its endpoint
+            if( iPts == iList.begin() ? !p1e : !p2e )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1495,8 +1496,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: use the flags evaluated before any split; if both points
+            // are on one segment the first split changes its endpoint
+            if( iPts == iList.begin() ? !p1e : !p2e )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
-- 
2.43.0


From ec87feadb995dd76c922ab968fa252af11e6409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 100/135] fix: MCAD_SEGMENT: line to arc intersections at an
 end of either were missed because of rounding errors

---
 src/geom/mcad_segment.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index a652e36..5a10d83 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1015,14 +1015,18 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p[2];
     MCAD_INTERSECT_FLAG f[2];
 
-    if( t0 >= 0.0 && t0 <= 1.0 )
+    // note: an intersection at the end of the line must not be
+    // missed because of rounding errors in t
+    double eps = 1e-8 / sqrt( A );
+
+    if( t0 >= -eps && t0 <= 1.0 + eps )
     {
         p[0].x = t0 * lS.x + (1.0 - t0) * lE.x;
         p[0].y = t0 * lS.y + (1.0 - t0) * lE.y;
 
         if( ( ( PointMatches( p[0], arcS, 1e-8 ) || PointMatches( p[0], arcE, 1e-8 ) )
             && !arcCircle )
-            || abs( t0 ) < 1e-8 || abs( t0 - 1.0 ) < 1e-8 )
+            || abs( t0 ) < eps || abs( t0 - 1.0 ) < eps )
             f[0] = MCAD_IFLAG_ENDPOINT;
         else
             f[0] = MCAD_IFLAG_NONE;
@@ -1030,14 +1034,14 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         ++np;
     }
 
-    if( !tangent && t1 >= 0.0 && t1 <= 1.0 )
+    if( !tangent && t1 >= -eps && t1 <= 1.0 + eps )
     {
         p[np].x = t1 * lS.x + (1.0 - t1) * lE.x;
         p[np].y = t1 * lS.y + (1.0 - t1) * lE.y;
 
         if( ( ( PointMatches( p[np], arcS, 1e-8 ) || PointMatches( p[np], arcE, 1e-8 ) )
             && !arcCircle )
-            || abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
+            || abs( t1 ) < eps || abs( t1 - 1.0 ) < eps )
             f[np] = MCAD_IFLAG_ENDPOINT;
         else
             f[np] = MCAD_IFLAG_NONE;
@@ -1102,8 +1106,7 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         // in the angle calculations which may result in false negatives.
         if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
             || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - arcS.x ) < 1e-14 && abs( p[i].y - arcS.y ) < 1e-14 )
-            || ( abs( p[i].x - arcE.x ) < 1e-14 && abs( p[i].y - arcE.y ) < 1e-14 ) )
+            || PointMatches( p[i], arcS, 1e-8 ) || PointMatches( p[i], arcE, 1e-8 ) )
         {
             pt[np2] = p[i];
             ++np2;
-- 
2.43.0


From d00672a72f75a4fb19deea366ee8761e4d28f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 101/135] fix: MCAD_OUTLINE: a circle which passes through the
 end of a segment and divides the same segment was refused

---
 src/geom/mcad_outline.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 5307476..36f08ed 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1084,22 +1084,21 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
         }
     }
 
-    // either pSeg[0] or pSeg[0]-- must have an endpoint 'mend' which
+    // there must be a segment with an endpoint 'mend' which
     // is equal to pf[0]; find that iterator then eradicate all
     // subsequent entries (wrapping to begin() if necessary) until
     // we encounter a segment whose 'mstart' equals pf[1]. Finally,
     // insert 'sp' after the aforementioned iterator or, more
     // conveniently, before the first segment not eradicated.
 
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
-    {
-        if( msegments.front() == *pSeg[0] )
-            pSeg[0] = --msegments.end();
-        else
-            --pSeg[0];
-    }
+    // note: if pF[0] is an endpoint and the same segment was split at
+    // pF[1] then it may be the new segment which ends at pF[0]
+    pSeg[0] = msegments.begin();
+
+    while( pSeg[0] != msegments.end() && !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+        ++pSeg[0];
 
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+    if( pSeg[0] == msegments.end() )
     {
         ostringstream msg;
         GEOM_ERR( msg );
-- 
2.43.0


From 8e5ea925d646e9031938541fadd7ddb0edd77cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 102/135] fix: MCAD_SEGMENT: arc to arc intersections at the
 end of an arc were missed because of rounding errors

---
 src/geom/mcad_segment.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 5a10d83..419dbd2 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -763,7 +763,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     }
     else
     {
-        // check if each point lies on the arc
+        // check if each point lies on the arc; the endpoints are checked as
+        // well so that rounding errors in the angles do not matter
         tang = atan2( p1.y - c2.y, p1.x - c2.x );
 
         if( tang > b1 )
@@ -772,7 +773,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
         if( tang < b0 )
             tang += 2.0 * M_PI;
 
-        if( tang <= b1 )
+        if( tang <= b1 || PointMatches( p1, aSegment.mstart, 1e-8 )
+            || PointMatches( p1, aSegment.mend, 1e-8 ) )
         {
             ++isOnArc[0];
         }
@@ -785,7 +787,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
         if( tang < b0 )
             tang += 2.0 * M_PI;
 
-        if( tang <= b1 )
+        if( tang <= b1 || PointMatches( p2, aSegment.mstart, 1e-8 )
+            || PointMatches( p2, aSegment.mend, 1e-8 ) )
         {
             ++isOnArc[1];
         }
@@ -807,7 +810,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
         if( tang < a0 )
             tang += 2.0 * M_PI;
 
-        if( tang <= a1 )
+        if( tang <= a1 || PointMatches( p1, mstart, 1e-8 )
+            || PointMatches( p1, mend, 1e-8 ) )
         {
             ++isOnArc[0];
         }
@@ -820,7 +824,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
         if( tang < a0 )
             tang += 2.0 * M_PI;
 
-        if( tang <= a1 )
+        if( tang <= a1 || PointMatches( p2, mstart, 1e-8 )
+            || PointMatches( p2, mend, 1e-8 ) )
         {
             ++isOnArc[1];
         }
-- 
2.43.0


From f9dcccef1f4d106cd0d630366563ea45a1b3491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 103/135] fix: IDF: the layer of an OTHER_OUTLINE and its first
 point were written on one line

---
 src/idf/idf_outlines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..d344209 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1900,6 +1900,7 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
             case LYR_TOP:
             case LYR_BOTTOM:
                 WriteLayersText( aBoardFile, side );
+                aBoardFile << "\n";
                 break;
 
             default:
-- 
2.43.0


From 6aeaf9cffa57a2e5109be85dfb2aa6a6330c9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 104/135] fix: IDF: a PLACE_OUTLINE without a height was
 written with a height of -1

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index d344209..47b8c17 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2597,7 +2597,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From 028c6e54aec4c4b7e50e3ff19c48c8ade5e5f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 105/135] fix: IDF: WriteFile wrote THOU for a board in mm and
 mm for one in THOU

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..676752b 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3098,7 +3098,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From bec7a719488cff9d6f6ce54daae6f3736d239915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 106/135] fix: IDF: the day and the time in the header of a
 file were not padded to two digits

---
 src/idf/idf_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 676752b..7da37df 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -52,8 +52,9 @@ static void GetIDFDate( string& date )
 
     ostringstream fileDate;
     fileDate << setfill( '0' ) << setw(4) << ltime.tm_year + 1900;
-    fileDate << "/" << setw(2) << ltime.tm_mon + 1 << "/" << ltime.tm_mday;
-    fileDate << "." << ltime.tm_hour << ":" << ltime.tm_min << ":" << ltime.tm_sec;
+    fileDate << "/" << setw(2) << ltime.tm_mon + 1 << "/" << setw(2) << ltime.tm_mday;
+    fileDate << "." << setw(2) << ltime.tm_hour << ":" << setw(2) << ltime.tm_min;
+    fileDate << ":" << setw(2) << ltime.tm_sec;
     date = fileDate.str();
 
     return;
-- 
2.43.0


From b5debb6e9102c19ba83518b71ef428a0e511724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 107/135] fix: IDF: the sections after a section which is not
 in the specification were lost

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 7da37df..94ab0cd 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1949,6 +1949,7 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
         }
 
         // This must be a header
+        idx = 0;
         GetIDFString( iline, token, quoted, idx );
 
         if( quoted )
-- 
2.43.0


From b5e58e3f7744a80b0554d2c2600296cdc01d2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 108/135] fix: IDF: the second body of a component on the
 bottom was mirrored when the board was written

---
 src/idf/idf2igs.cpp    |  4 ++--
 src/idf/idf_parser.cpp | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index adcb2d7..b0a7589 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1071,10 +1071,10 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
             // retrieve the additional component and orientation offsets
             (*so)->GetOffsets( tX, tY, tZ, tA );
-            tX += vX;
+            tX = bottom ? vX - tX : vX + tX;
             tY += vY;
             tZ += th;
-            tA = (tA + vA) * M_PI / 180.0;
+            tA = (bottom ? vA - tA : vA + tA) * M_PI / 180.0;
 
             IGES_ENTITY_124* tx = calcTransform( model, tX, tY, tZ, tA, bottom );
 
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 94ab0cd..6416222 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -687,9 +687,20 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
             }
 
-            xoff -= tX;
+            // on the bottom the X offset and the rotation are mirrored,
+            // as in writePlaceData()
+            if( side == IDF3::LYR_BOTTOM )
+            {
+                xoff = tX - xoff;
+                aoff = tA - aoff;
+            }
+            else
+            {
+                xoff -= tX;
+                aoff -= tA;
+            }
+
             yoff -= tY;
-            aoff -= tA;
         }
         else
         {
-- 
2.43.0


From 89e1150de59c0a2f993a767bb5f5378b58bb641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 109/135] fix: IDF: a reference designator with spaces was
 written without quotes in the PLACEMENT section

---
 src/idf/idf_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 6416222..4b4cf2e 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -800,6 +800,8 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
     if( arefdes.empty() || !arefdes.compare( "~" )
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
+    else
+        arefdes = "\"" + arefdes + "\"";
 
     aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
     << arefdes << "\n";
-- 
2.43.0


From 81c3699bf3d86023f4833ccbde4538f5296dd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 110/135] fix: IDF: Clear and a failed ReadFile left the
 outline of the previous board

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 4b4cf2e..88bc9da 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4215,6 +4215,7 @@ void IDF3_BOARD::Clear( void )
     } while(0);
 
     boardName.clear();
+    olnBoard.clear();
     olnBoard.setThickness( thickness );
 
     state     = FILE_START;
-- 
2.43.0


From d11e75a646e9d760833e4be9ee6684cfcb060da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 111/135] fix: IDF: a body created with offsets did not count
 as a user of its outline

---
 src/idf/idf_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 88bc9da..ab8728f 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -147,6 +147,10 @@ IDF3_COMP_OUTLINE_DATA::IDF3_COMP_OUTLINE_DATA( IDF3_COMPONENT* aParent,
     yoff = aYoff;
     zoff = aZoff;
     aoff = aAngleOff;
+
+    if( aOutline )
+        aOutline->incrementRef();
+
     return;
 }
 
-- 
2.43.0


From 218e6d472a92cc2a182dfba4ef8579ba2033fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 112/135] fix: IDF: placements in TNM were not scaled and
 library outlines in TNM were refused

---
 src/idf/idf_outlines.cpp | 2 +-
 src/idf/idf_parser.cpp   | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 47b8c17..f8bdd6b 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3252,7 +3252,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index ab8728f..e6acd17 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -642,6 +642,12 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( ( aIdfVersion == IDF_V2 ) && ( aBoard->GetUnit() == IDF3::UNIT_TNM ) )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+        zoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From 597b1fe64d4ba3aea8ed7b9a6550d6078268f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 113/135] fix: IDF: a file whose last line ends an outline
 without a newline was refused

---
 src/idf/idf_outlines.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f8bdd6b..64f7668 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1184,7 +1184,7 @@ void BOARD_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -1694,7 +1694,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
         // [outline identifier] [thickness] [board side: Top/Bot]
         while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-        if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+        if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
         {
             ostringstream ostr;
 
@@ -1815,7 +1815,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2129,7 +2129,7 @@ void ROUTE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2517,7 +2517,7 @@ void PLACE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2869,7 +2869,7 @@ void GROUP_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -3321,7 +3321,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     // check RECORD 4
     while( aLibFile.good() && !FetchIDFLine( aLibFile, iline, comment, pos ) );
 
-    if( ( !aLibFile.good() && aLibFile.eof() ) || iline.empty() )
+    if( ( !aLibFile.good() && !aLibFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
-- 
2.43.0


From 59ebb9e8870e7c979398cee84eb49777d37f37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 114/135] fix: IDF: WriteFile reported success although the
 data could not be written

---
 src/idf/idf_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index e6acd17..609134a 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2820,7 +2820,7 @@ bool IDF3_BOARD::ReadFile( const std::string& aFullFileName, bool aNoSubstituteO
 bool IDF3_BOARD::writeLibFile( const std::string& aFileName )
 {
     std::ofstream lib;
-    lib.exceptions( std::ofstream::failbit );
+    lib.exceptions( std::ofstream::failbit | std::ofstream::badbit );
 
     try
     {
@@ -2864,7 +2864,7 @@ bool IDF3_BOARD::writeLibFile( const std::string& aFileName )
 void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 {
     std::ofstream brd;
-    brd.exceptions( std::ofstream::failbit );
+    brd.exceptions( std::ofstream::failbit | std::ofstream::badbit );
 
     try
     {
-- 
2.43.0


From a071ef47bd2d0cec175ec508b6fe9d899805b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 115/135] fix: an entity which refers to itself in its optional
 parameters crashed the library

The entity became its own child; destroying it called a pure virtual method.
---
 src/entities/iges_entity.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index b47ce77..9202118 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1002,7 +1002,13 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = *bext >> 1;
 
-        if( iEnt >= 0 && iEnt < sEnt )
+        if( iEnt >= 0 && iEnt < sEnt && (*entities)[iEnt] == this )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] entity refers to itself in its Optional Parameters section (DE ";
+            cerr << sequenceNumber << ")\n";
+            ok = false;
+        }
+        else if( iEnt >= 0 && iEnt < sEnt )
         {
             tEnt = (*entities)[iEnt]->GetEntityType();
 
-- 
2.43.0


From 479cd0b90bddcc7872d99b17091003494c7f730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 116/135] fix: 504: any entity was taken for a vertex list when
 a file was loaded

---
 src/entities/entity504.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index f52bb96..4ebf38c 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -137,7 +137,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp0 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         lI = sI->tvp >> 1;
 
@@ -149,7 +149,15 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp1 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
+
+        if( !lp0 || !lp1 )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] SVP or TVP is not a Vertex List in DE ";
+            cerr << sequenceNumber << "\n";
+            deItems.clear();
+            return false;
+        }
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
-- 
2.43.0


From 0793b2d670762f51e807f24d0ef2b40240e91493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 117/135] fix: 126: a decreasing knot sequence was passed to
 SISL

---
 src/entities/entity126.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 3d08d5d..9894bed 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -807,7 +807,13 @@ bool IGES_ENTITY_126::makeSCurve( void )
         return true;
 
     // SISL cannot deal with end knots whose multiplicity exceeds the order
-    if( !knots || !coeffs || !( knots[0] < knots[M + 1] ) || !( knots[K] < knots[K + M + 1] ) )
+    // nor with knots which do not form a nondecreasing sequence
+    bool okKnots = knots && coeffs && ( knots[0] < knots[M + 1] ) && ( knots[K] < knots[K + M + 1] );
+
+    for( int i = 1; okKnots && i <= K + M + 1; ++i )
+        okKnots = ( knots[i - 1] <= knots[i] );
+
+    if( !okKnots )
     {
         ERRMSG << "\n + [INFO] invalid knot sequence\n";
         return false;
-- 
2.43.0


From dfa01a8b477f450d4971a3e1e01dc0abf584eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 118/135] fix: 308, 408: a subfigure which contains itself
 indirectly overflowed the stack

---
 src/entities/entity308.cpp   | 45 +++++++++++++++++++++++++-----------
 src/entities/entity408.cpp   |  2 +-
 src/include/core/entity308.h |  7 ++++++
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 70704e1..3206376 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -279,21 +279,11 @@ bool IGES_ENTITY_308::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         return false;
     }
 
-    if( !DE.empty() )
+    // a Subfigure may not contain itself, not even indirectly
+    if( aParentEntity == this || contains( aParentEntity ) )
     {
-        std::list<IGES_ENTITY*>::iterator sDE = DE.begin();
-        std::list<IGES_ENTITY*>::iterator eDE = DE.end();
-
-        while( sDE != eDE )
-        {
-            if( aParentEntity == *sDE )
-            {
-                ERRMSG << "\n + [BUG] circular reference requested\n";
-                return false;
-            }
-
-            ++sDE;
-        }
+        ERRMSG << "\n + [BUG] circular reference requested\n";
+        return false;
     }
 
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
@@ -608,6 +598,33 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
 }
 
 
+bool IGES_ENTITY_308::contains( IGES_ENTITY* aEntity )
+{
+    std::list<IGES_ENTITY*>::iterator bref = DE.begin();
+    std::list<IGES_ENTITY*>::iterator eref = DE.end();
+
+    while( bref != eref )
+    {
+        if( aEntity == *bref )
+            return true;
+
+        IGES_ENTITY_308* ep308 = NULL;
+
+        if( (*bref)->GetEntityType() == ENT_SUBFIGURE_DEFINITION )
+            ep308 = (IGES_ENTITY_308*)(*bref);
+        else if( (*bref)->GetEntityType() == ENT_SINGULAR_SUBFIGURE_INSTANCE )
+            ((IGES_ENTITY_408*)(*bref))->GetDE( ep308 );
+
+        if( ep308 && ( aEntity == ep308 || ep308->contains( aEntity ) ) )
+            return true;
+
+        ++bref;
+    }
+
+    return false;
+}
+
+
 int IGES_ENTITY_308::getDepthLevel( void )
 {
     if( DE.empty() )
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index c047c8f..174e1f7 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -259,7 +259,7 @@ bool IGES_ENTITY_408::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         return false;
     }
 
-    if( aParentEntity == DE )
+    if( NULL != DE && ( aParentEntity == DE || DE->contains( aParentEntity ) ) )
     {
         ERRMSG << "\n + [INFO] requesting circular reference\n";
         return false;
diff --git a/src/include/core/entity308.h b/src/include/core/entity308.h
index f282e09..9086d46 100644
--- a/src/include/core/entity308.h
+++ b/src/include/core/entity308.h
@@ -89,6 +89,13 @@ public:
      */
     int getDepthLevel( void );
 
+    /**
+     * Function contains
+     * returns true if the given entity is part of this Subfigure,
+     * be it directly or via other Subfigures or their instances.
+     */
+    bool contains( IGES_ENTITY* aEntity );
+
 public:
     IGES_ENTITY_308( IGES* aParent );
     virtual ~IGES_ENTITY_308();
-- 
2.43.0


From f31c68cffe1f794fff543388e1f5d4db7f46ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 119/135] fix: 124: a circular chain of three or more
 transforms overflowed the stack

---
 src/entities/entity124.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index f95c551..8f07aed 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -266,6 +266,20 @@ bool IGES_ENTITY_124::isOrphaned( void )
 
 bool IGES_ENTITY_124::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
 {
+    // a chain of Transforms may not be circular
+    IGES_ENTITY_124* tp = this;
+
+    while( NULL != tp )
+    {
+        if( tp == aParentEntity )
+        {
+            ERRMSG << "\n + [BUG] circular reference requested\n";
+            return false;
+        }
+
+        tp = tp->pTransform;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
-- 
2.43.0


From bde856653c5e3d7d961797b40db0ca34f14011ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 120/135] fix: winding of outlines with large arcs

The winding of an outline was determined with each arc replaced by two
chords. For outlines such as a disk with a deep slot the result had the
wrong sign; the outline was reversed or refused. Take the area between
arc and chord into account instead.
---
 src/geom/mcad_outline.cpp | 16 ++++++++++------
 src/idf/idf_common.cpp    | 23 ++++++-----------------
 2 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 36f08ed..626e24b 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -507,13 +507,17 @@ bool MCAD_OUTLINE::AddSegment( MCAD_SEGMENT* aSegment, bool& error )
     if( MCAD_SEGTYPE_ARC == pseg->GetSegType() )
     {
         // To ensure correct winding calculations involving
-        // arcs we must take the midpoint of the arc and
-        // calculate the winding based on 2 segments.
-        MCAD_POINT p2;
-        pseg->GetMidpoint( p2 );
+        // arcs we must take the area between the arc and
+        // its chord into account.
+        double ang = pseg->GetEndAngle() - pseg->GetStartAngle();
+        double area2 = pseg->mradius * pseg->mradius * ( ang - sin( ang ) );
 
-        mWinding += ( p0.x - p2.x ) * ( p0.y + p2.y );
-        mWinding += ( p2.x - p1.x ) * ( p2.y + p1.y );
+        mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+
+        if( pseg->mCWArc )
+            mWinding += area2;
+        else
+            mWinding -= area2;
     }
     else
     {
diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 40a285a..149ffd9 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1359,28 +1359,17 @@ bool IDF_OUTLINE::push( IDF_SEGMENT* item )
     outline.push_back( item );
 
     double ang = outline.back()->angle;
-    double oang = outline.back()->offsetAngle;
     double radius = outline.back()->radius;
 
+    dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
+        * ( outline.back()->endPoint.y + outline.back()->startPoint.y );
+
     if( ang < -MIN_ANG || ang > MIN_ANG )
     {
         // arcs require special consideration since the winding depends on
-        // the arc length; the arc length is adequately represented by
-        // taking 2 cords from the endpoints to the midpoint of the arc.
-        oang = (oang + ang / 2.0) * M_PI / 180.0;
-        double midx = outline.back()->center.x + radius * cos( oang );
-        double midy = outline.back()->center.y + radius * sin( oang );
-
-        dir += ( outline.back()->endPoint.x - midx )
-        * ( outline.back()->endPoint.y + midy );
-
-        dir += ( midx - outline.back()->startPoint.x )
-        * ( midy + outline.back()->startPoint.y );
-    }
-    else
-    {
-        dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
-        * ( outline.back()->endPoint.y + outline.back()->startPoint.y );
+        // the area between the arc and its chord
+        ang *= M_PI / 180.0;
+        dir -= radius * radius * ( ang - sin( ang ) );
     }
 
     return true;
-- 
2.43.0


From 8387bf7f860b2b6ecffd91f59a4a25d282cb506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 121/135] fix: IGES_ENTITY_504::GetEdges() returned stale edges

If edges were removed and the same number of edges added since the last
call the previous list, with pointers to entities which may have been
deleted, was returned.
---
 src/entities/entity504.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 4ebf38c..3950082 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -575,18 +575,8 @@ IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
         return false;
     }
 
-    if( vedges.empty() || vedges.size() != edges.size() )
-    {
-        vedges.clear();
-        std::list<EDGE_DATA>::iterator sV = edges.begin();
-        std::list<EDGE_DATA>::iterator eV = edges.end();
-
-        while( sV != eV )
-        {
-            vedges.push_back( *sV );
-            ++sV;
-        }
-    }
+    // note: edges may have been replaced since the last invocation
+    vedges.assign( edges.begin(), edges.end() );
 
     aListSize = vedges.size();
     aEdgeList = &vedges[0];
-- 
2.43.0


From 4461c4a5677c8d9999647ec15c8521e9114b738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 122/135] fix: refuse surfaces which are invalid for a face

IGES_ENTITY_510::SetSurface() accepted any entity although associate()
refuses a file with a face on anything but the permitted surfaces.
---
 src/entities/entity510.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 1968779..ed4a69d 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -593,6 +593,9 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( aSurface == msurface )
         return true;
 
+    if( !checkSurfType( aSurface ) )
+        return false;
+
     bool dup = false;
 
     if( !aSurface->addReference( this, dup ) )
-- 
2.43.0


From eb5538b5c7001666e88ae5431d347194bb1883af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 123/135] fix: refused attribute setters changed the attribute

---
 src/entities/iges_entity.cpp | 178 +++++++++++++++++++++++------------
 1 file changed, 119 insertions(+), 59 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 9202118..de1de0f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1976,12 +1976,6 @@ bool IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY** aPattern)
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 {
-    if( pLineFontPattern )
-    {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
-    }
-
     if( aPattern < LINEFONT_NONE || aPattern >= LINEFONT_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid linefont pattern (";
@@ -1989,6 +1983,12 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+    {
+        pLineFontPattern->delReference(this);
+        pLineFontPattern = NULL;
+    }
+
     lineFontPattern = aPattern;
     return true;
 }
@@ -1996,15 +1996,20 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
 {
-    lineFontPattern = 0;
-
-    if( pLineFontPattern )
+    if( !aPattern )
     {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
+        lineFontPattern = 0;
+
+        if( pLineFontPattern )
+        {
+            pLineFontPattern->delReference(this);
+            pLineFontPattern = NULL;
+        }
+
+        return true;
     }
 
-    if( !aPattern )
+    if( aPattern == pLineFontPattern )
         return true;
 
     int tEnt = aPattern->GetEntityType();
@@ -2032,6 +2037,11 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
         return false;
     }
 
+    lineFontPattern = 0;
+
+    if( pLineFontPattern )
+        pLineFontPattern->delReference(this);
+
     pLineFontPattern = aPattern;
 
 
@@ -2078,12 +2088,6 @@ bool IGES_ENTITY::GetLevelEntity(IGES_ENTITY** aLevel)
 
 bool IGES_ENTITY::SetLevel( int aLevel )
 {
-    if( pLevel )
-    {
-        pLevel->delReference(this);
-        pLevel = NULL;
-    }
-
     if( aLevel < 0 )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid level (< 0) in entity type #";
@@ -2091,6 +2095,12 @@ bool IGES_ENTITY::SetLevel( int aLevel )
         return false;
     }
 
+    if( pLevel )
+    {
+        pLevel->delReference(this);
+        pLevel = NULL;
+    }
+
     level = aLevel;
     return true;
 }
@@ -2098,15 +2108,20 @@ bool IGES_ENTITY::SetLevel( int aLevel )
 
 bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
 {
-    level = 0;
-
-    if( pLevel )
+    if( !aLevel )
     {
-        pLevel->delReference(this);
-        pLevel = NULL;
+        level = 0;
+
+        if( pLevel )
+        {
+            pLevel->delReference(this);
+            pLevel = NULL;
+        }
+
+        return true;
     }
 
-    if( !aLevel )
+    if( aLevel == pLevel )
         return true;
 
     int tEnt = aLevel->GetEntityType();
@@ -2135,6 +2150,11 @@ bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
         return false;
     }
 
+    level = 0;
+
+    if( pLevel )
+        pLevel->delReference(this);
+
     pLevel = aLevel;
 
     if( NULL != parent && parent != aLevel->parent )
@@ -2160,15 +2180,20 @@ bool IGES_ENTITY::GetView(IGES_ENTITY** aView)
 
 bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
 {
-    view = 0;
-
-    if( pView )
+    if( !aView )
     {
-        pView->delReference(this);
-        pView = NULL;
+        view = 0;
+
+        if( pView )
+        {
+            pView->delReference(this);
+            pView = NULL;
+        }
+
+        return true;
     }
 
-    if( !aView )
+    if( aView == pView )
         return true;
 
     int tEnt = aView->GetEntityType();
@@ -2197,6 +2222,11 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
         return false;
     }
 
+    view = 0;
+
+    if( pView )
+        pView->delReference(this);
+
     pView = aView;
 
     if( NULL != parent && parent != aView->parent )
@@ -2222,15 +2252,20 @@ bool IGES_ENTITY::GetTransform(IGES_ENTITY** aTransform)
 
 bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 {
-    transform = 0;
-
-    if( pTransform )
+    if( !aTransform )
     {
-        pTransform->delReference(this);
-        pTransform = NULL;
+        transform = 0;
+
+        if( pTransform )
+        {
+            pTransform->delReference(this);
+            pTransform = NULL;
+        }
+
+        return true;
     }
 
-    if( !aTransform )
+    if( aTransform == pTransform )
         return true;
 
     int tEnt = aTransform->GetEntityType();
@@ -2244,9 +2279,9 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
         return false;
     }
 
-    pTransform = dynamic_cast<IGES_ENTITY_124*>(aTransform);
+    IGES_ENTITY_124* tp = dynamic_cast<IGES_ENTITY_124*>(aTransform);
 
-    if( !pTransform )
+    if( !tp )
     {
         ERRMSG << "\n + [BUG] could not cast IGES_ENTITY* to IGES_ENTITY_124*\n";
         return false;
@@ -2254,9 +2289,8 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
     bool dup = false;
 
-    if( !pTransform->addReference(this, dup) )
+    if( !tp->addReference(this, dup) )
     {
-        pTransform = NULL;
         ERRMSG << "\n + [BUG] could not add reference to child entity\n";
         return false;
     }
@@ -2264,10 +2298,16 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
     if( dup )
     {
         ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        pTransform = NULL;
         return false;
     }
 
+    transform = 0;
+
+    if( pTransform )
+        pTransform->delReference(this);
+
+    pTransform = tp;
+
     if( NULL != parent && parent != aTransform->parent )
         parent->AddEntity( aTransform );
 
@@ -2284,15 +2324,20 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 
 bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 {
-    labelAssoc = 0;
-
-    if( pLabelAssoc )
+    if( !aLabelAssoc )
     {
-        pLabelAssoc->delReference(this);
-        pLabelAssoc = NULL;
+        labelAssoc = 0;
+
+        if( pLabelAssoc )
+        {
+            pLabelAssoc->delReference(this);
+            pLabelAssoc = NULL;
+        }
+
+        return true;
     }
 
-    if( !aLabelAssoc )
+    if( aLabelAssoc == pLabelAssoc )
         return true;
 
     int tEnt = aLabelAssoc->GetEntityType();
@@ -2321,6 +2366,11 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
         return false;
     }
 
+    labelAssoc = 0;
+
+    if( pLabelAssoc )
+        pLabelAssoc->delReference(this);
+
     pLabelAssoc = aLabelAssoc;
 
     if( NULL != parent && parent != aLabelAssoc->parent )
@@ -2357,12 +2407,6 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
 bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 {
-    if( pColor )
-    {
-        pColor->delReference(this);
-        pColor = NULL;
-    }
-
     if( aColor < COLOR_NONE || aColor >= COLOR_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid color (";
@@ -2370,6 +2414,12 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
         return false;
     }
 
+    if( pColor )
+    {
+        pColor->delReference(this);
+        pColor = NULL;
+    }
+
     colorNum = aColor;
 
     return true;
@@ -2378,15 +2428,20 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 
 bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
 {
-    colorNum = 0;
-
-    if( pColor )
+    if( !aColor )
     {
-        pColor->delReference(this);
-        pColor = NULL;
+        colorNum = 0;
+
+        if( pColor )
+        {
+            pColor->delReference(this);
+            pColor = NULL;
+        }
+
+        return true;
     }
 
-    if( !aColor )
+    if( aColor == pColor )
         return true;
 
     int tEnt = aColor->GetEntityType();
@@ -2414,6 +2469,11 @@ bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
         return false;
     }
 
+    colorNum = 0;
+
+    if( pColor )
+        pColor->delReference(this);
+
     pColor = aColor;
 
     if( NULL != parent && parent != aColor->parent )
-- 
2.43.0


From a304cb7c2d1204cf5b4471b6a4c5308feabc648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 124/135] fix: a refused replacement of a part dropped the
 existing part

---
 src/entities/entity120.cpp |  20 +++----
 src/entities/entity122.cpp |  10 ++--
 src/entities/entity142.cpp | 108 ++++++++++++++++++++-----------------
 src/entities/entity144.cpp |  45 ++++++++--------
 src/entities/entity164.cpp |  16 +++---
 src/entities/entity408.cpp |  20 ++++---
 6 files changed, 118 insertions(+), 101 deletions(-)

diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..b70193d 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -449,11 +449,8 @@ bool IGES_ENTITY_120::SetL( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( L )
-    {
-        L->delReference(this);
-        L = NULL;
-    }
+    if( aCurve == L )
+        return true;
 
     bool dup = false;
 
@@ -466,6 +463,9 @@ bool IGES_ENTITY_120::SetL( IGES_CURVE* aCurve )
         return false;
     }
 
+    if( L )
+        L->delReference(this);
+
     L = aCurve;
     L->SetDependency( STAT_DEP_PHY );
 
@@ -508,11 +508,8 @@ bool IGES_ENTITY_120::SetC( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( C )
-    {
-        C->delReference(this);
-        C = NULL;
-    }
+    if( aCurve == C )
+        return true;
 
     bool dup = false;
 
@@ -525,6 +522,9 @@ bool IGES_ENTITY_120::SetC( IGES_CURVE* aCurve )
         return false;
     }
 
+    if( C )
+        C->delReference(this);
+
     C = aCurve;
     C->SetDependency( STAT_DEP_PHY );
 
diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 3f5ba09..f959613 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -403,11 +403,8 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         return false;
     }
 
-    if( DE )
-    {
-        DE->delReference(this);
-        DE = NULL;
-    }
+    if( aPtr == DE )
+        return true;
 
     bool dup = false;
 
@@ -420,6 +417,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         return false;
     }
 
+    if( DE )
+        DE->delReference(this);
+
     DE = aPtr;
     DE->SetDependency( STAT_DEP_PHY );
 
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 83c99f8..325dcd9 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -558,6 +558,26 @@ bool IGES_ENTITY_142::GetSPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
 {
+    if( aPtr == SPTR )
+        return true;
+
+    bool dup = false;
+
+    if( NULL != aPtr )
+    {
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
+    }
+
     if( NULL != SPTR )
         SPTR->delReference(this);
 
@@ -566,22 +586,6 @@ bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
     if( NULL == SPTR )
         return true;
 
-    bool dup;
-
-    if( !SPTR->addReference(this, dup) )
-    {
-        SPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        SPTR = NULL;
-        return false;
-    }
-
     SPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != SPTR->GetParentIGES() )
@@ -604,30 +608,34 @@ bool IGES_ENTITY_142::GetBPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetBPTR( IGES_ENTITY* aPtr )
 {
-    if( NULL != BPTR )
-        BPTR->delReference(this);
-
-    BPTR = aPtr;
-
-    if( NULL == BPTR )
+    if( aPtr == BPTR )
         return true;
 
     bool dup = false;
 
-    if( !BPTR->addReference(this, dup) )
+    if( NULL != aPtr )
     {
-        BPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
 
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        BPTR = NULL;
-        return false;
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
     }
 
+    if( NULL != BPTR )
+        BPTR->delReference(this);
+
+    BPTR = aPtr;
+
+    if( NULL == BPTR )
+        return true;
+
     BPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != BPTR->GetParentIGES() )
@@ -650,30 +658,34 @@ bool IGES_ENTITY_142::GetCPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetCPTR( IGES_ENTITY* aPtr )
 {
-    if( NULL != CPTR )
-        CPTR->delReference(this);
-
-    CPTR = aPtr;
-
-    if( NULL == CPTR )
+    if( aPtr == CPTR )
         return true;
 
     bool dup = false;
 
-    if( !CPTR->addReference(this, dup) )
+    if( NULL != aPtr )
     {
-        CPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
 
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        CPTR = NULL;
-        return false;
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
     }
 
+    if( NULL != CPTR )
+        CPTR->delReference(this);
+
+    CPTR = aPtr;
+
+    if( NULL == CPTR )
+        return true;
+
     CPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != CPTR->GetParentIGES() )
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 5231ff4..e5ceb72 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -675,36 +675,37 @@ bool IGES_ENTITY_144::GetPTS( IGES_ENTITY*& aPtr )
 
 bool IGES_ENTITY_144::SetPTS( IGES_ENTITY* aPtr )
 {
-    if( PTS )
-        PTS->delReference(this);
-
-    PTS = aPtr;
+    if( aPtr == PTS )
+        return true;
 
     if( NULL == aPtr )
+    {
+        PTS->delReference(this);
+        PTS = NULL;
         return true;
+    }
 
     if( !checkInclusion144( aPtr->GetEntityType()) )
     {
-        ERRMSG << "\n + [INFO] invalid entity type (" << PTS->GetEntityType() << ") for PTS\n";
-        PTS = NULL;
+        ERRMSG << "\n + [INFO] invalid entity type (" << aPtr->GetEntityType() << ") for PTS\n";
         return false;
     }
 
     bool dup = false;
 
-    if( !PTS->addReference(this, dup) )
-    {
-        PTS = NULL;
+    if( !aPtr->addReference(this, dup) )
         return false;
-    }
 
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTS = NULL;
         return false;
     }
 
+    if( PTS )
+        PTS->delReference(this);
+
+    PTS = aPtr;
     PTS->SetDependency( STAT_DEP_PHY );
 
     if( NULL == PTO )
@@ -732,30 +733,32 @@ bool IGES_ENTITY_144::GetPTO( IGES_ENTITY_142*& aPtr )
 
 bool IGES_ENTITY_144::SetPTO( IGES_ENTITY_142* aPtr )
 {
-    if( PTO )
-        PTO->delReference(this);
-
-    PTO = aPtr;
-    N1 = 0;
+    if( aPtr == PTO )
+        return true;
 
     if( NULL == aPtr )
+    {
+        PTO->delReference(this);
+        PTO = NULL;
+        N1 = 0;
         return true;
+    }
 
     bool dup = false;
 
-    if( !PTO->addReference(this, dup) )
-    {
-        PTO = NULL;
+    if( !aPtr->addReference(this, dup) )
         return false;
-    }
 
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTO = NULL;
         return false;
     }
 
+    if( PTO )
+        PTO->delReference(this);
+
+    PTO = aPtr;
     PTO->SetDependency( STAT_DEP_PHY );
     N1 = 1;
 
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 19ed1f5..3a97355 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -482,29 +482,27 @@ bool IGES_ENTITY_164::SetClosedCurve( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( PTR )
-    {
-        PTR->delReference(this);
-    }
-
-    PTR = aCurve;
+    if( aCurve == PTR )
+        return true;
 
     bool dup = false;
 
-    if( !PTR->addReference(this, dup) )
+    if( !aCurve->addReference(this, dup) )
     {
         ERRMSG << "\n + [ERROR] could not register association with closed curve\n";
-        PTR = NULL; // necessary to prevent segfaults
         return false;
     }
 
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTR = NULL;
         return false;
     }
 
+    if( PTR )
+        PTR->delReference(this);
+
+    PTR = aCurve;
     PTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != PTR->GetParentIGES() )
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 174e1f7..257aa84 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -424,19 +424,20 @@ bool IGES_ENTITY_408::GetDE( IGES_ENTITY_308*& aPtr )
 
 bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 {
-    if( DE )
-        DE->delReference(this);
-
-    DE = aPtr;
+    if( aPtr == DE )
+        return true;
 
     if( NULL == aPtr )
+    {
+        DE->delReference(this);
+        DE = NULL;
         return true;
+    }
 
     int eT = aPtr->GetEntityType();
 
     if( eT != ENT_SUBFIGURE_DEFINITION )
     {
-        DE = NULL;
         ERRMSG << "\n + [ERROR] invalid entity type (";
         cerr << eT << "); only type 308 is allowed\n";
         return false;
@@ -444,9 +445,8 @@ bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 
     bool dup = false;
 
-    if( !DE->addReference(this, dup) )
+    if( !aPtr->addReference(this, dup) )
     {
-        DE = NULL;
         ERRMSG << "\n + [INFO] could not add child entity reference\n";
         return false;
     }
@@ -454,10 +454,14 @@ bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        DE = NULL;
         return false;
     }
 
+    if( DE )
+        DE->delReference(this);
+
+    DE = aPtr;
+
     if( NULL != parent && parent != aPtr->GetParentIGES() )
         parent->AddEntity( aPtr );
 
-- 
2.43.0


From 7a618fa00af9ec105622ff527a6df459733623fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 125/135] fix: refused edges and loop parts adopted stray
 entities

---
 src/entities/entity504.cpp |  6 ------
 src/entities/entity508.cpp | 19 +++++++++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 3950082..27af702 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -712,9 +712,6 @@ bool IGES_ENTITY_504::addCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
-    if( NULL != parent && parent != aCurve->GetParentIGES() )
-        parent->AddEntity( aCurve );
-
     return true;
 }
 
@@ -758,9 +755,6 @@ bool IGES_ENTITY_504::addVertexList( IGES_ENTITY_502* aVertexList )
 
     vertices.push_back( pair<IGES_ENTITY_502*, int>(aVertexList, 1) );
 
-    if( NULL != parent && parent != aVertexList->GetParentIGES() )
-        parent->AddEntity( aVertexList );
-
     return true;
 }
 
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index fd16caf..f940ae2 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -749,9 +749,6 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 
     redges.push_back(pair<IGES_ENTITY*, int>( aEdge, 1 ) );
 
-    if( NULL != parent && parent != aEdge->GetParentIGES() )
-        parent->AddEntity( (IGES_ENTITY*)aEdge );
-
     return true;
 }
 
@@ -852,9 +849,6 @@ bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
-    if( NULL != parent && parent != aCurve->GetParentIGES() )
-        parent->AddEntity( aCurve );
-
     return true;
 }
 
@@ -959,5 +953,18 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
     }
 
     edges.push_back( aEdge );
+
+    if( NULL != parent )
+    {
+        if( parent != aEdge->data->GetParentIGES() )
+            parent->AddEntity( aEdge->data );
+
+        for( sP = aEdge->pcurves.begin(); sP != eP; ++sP )
+        {
+            if( parent != (*sP)->curve->GetParentIGES() )
+                parent->AddEntity( (*sP)->curve );
+        }
+    }
+
     return true;
 }
-- 
2.43.0


From 1a2a448ca0204d183e5261f085d34994c838839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 126/135] fix: 124: SetEntityForm accepted invalid forms

---
 src/entities/entity124.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 8f07aed..54918f1 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -388,7 +388,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && ( aForm < 10 || aForm > 12 ) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 189efca5e13e93d74c870fef6dbf4ddaf75f86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 127/135] fix: closure of composite curves made of a single
 curve

---
 src/entities/entity102.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index dbf9d90..6d6ccbb 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -681,9 +681,9 @@ bool IGES_ENTITY_102::IsClosed( void )
     std::list<IGES_CURVE*>::iterator ec = curves.end();
     std::list<IGES_CURVE*>::reverse_iterator lc = curves.rbegin();
 
-    // we require at least 1 item which reports segments > 0
-    if( curves.size() == 1 && (*sc)->GetEntityType() != ENT_CIRCULAR_ARC )
-        return false;
+    // a single curve is closed or not by itself
+    if( curves.size() == 1 )
+        return (*sc)->IsClosed();
 
     MCAD_POINT p1;
     MCAD_POINT p2;
-- 
2.43.0


From 97b431cfacddfad50714f1a645fdf9fbde6dd842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 128/135] fix: 126: GetNCurves() counted a simple curve

---
 src/entities/entity126.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9894bed..0c5195b 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -789,7 +789,8 @@ bool IGES_ENTITY_126::GetNormal( MCAD_POINT& aNorm )
 
 int IGES_ENTITY_126::GetNCurves( void )
 {
-    return 1;
+    // a NURBS curve is a simple curve entity
+    return 0;
 }
 
 
-- 
2.43.0


From 8ce341f50a267261ac78b16996f383acaa193e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 129/135] fix: 126: plane of the control points

---
 src/entities/entity126.cpp | 89 +++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 0c5195b..e6a61db 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <cmath>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -1142,65 +1143,63 @@ bool IGES_ENTITY_126::hasUniquePlane( MCAD_POINT* norm )
         return false;
     }
 
-    // we must test for planarity by taking the normal vector of every
-    // 3 control points; if all normals are equal (or anti) then we have a plane
-    MCAD_POINT p0;
-    MCAD_POINT p1;
-    MCAD_POINT p2;
+    // find the point which is farthest from the first one and the point which is
+    // farthest from the line through both; unless all points are on a line these
+    // 3 points determine the only candidate for the plane
+    int step = ( 0 == PROP3 ) ? 4 : 3;
+    MCAD_POINT p0( coeffs[0], coeffs[1], coeffs[2] );
+    MCAD_POINT u( 0.0, 0.0, 0.0 );
+    MCAD_POINT n( 0.0, 0.0, 0.0 );
+    double uu = 0.0;
+    double nn = 0.0;
 
-    MCAD_POINT* pts[3] = { &p0, &p1, &p2 };
+    norm->x = 0.0;
+    norm->y = 0.0;
+    norm->z = 1.0;
 
-    int i = 0;
-    int j = 0;
+    for( int i = 1; i < nCoeffs; ++i )
+    {
+        const double* c = &coeffs[i * step];
+        MCAD_POINT v = MCAD_POINT( c[0], c[1], c[2] ) - p0;
+        double vv = v.x * v.x + v.y * v.y + v.z * v.z;
 
-    MCAD_POINT tnorm0;
-    MCAD_POINT tnorm1;
+        if( vv > uu )
+        {
+            u = v;
+            uu = vv;
+        }
+    }
 
-    for( i = 0; i < 3; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        pts[i]->x = coeffs[j++];
-        pts[i]->y = coeffs[j++];
-        pts[i]->z = coeffs[j++];
+        const double* c = &coeffs[i * step];
+        MCAD_POINT v = MCAD_POINT( c[0], c[1], c[2] ) - p0;
+        MCAD_POINT m( u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x );
+        double mm = m.x * m.x + m.y * m.y + m.z * m.z;
 
-        if( 0 == PROP3 )
-            ++j;
+        if( mm > nn )
+        {
+            n = m;
+            nn = mm;
+        }
     }
 
-    CalcNormal( &p0, &p1, &p2, norm );
-
-    if( nCoeffs == 3 )
-        return true;
+    // the points are all the same or all on a line
+    if( sqrt( nn ) <= 1e-8 * uu )
+        return false;
 
-    tnorm0 = *norm;
-    MCAD_POINT* px;
+    n *= 1.0 / sqrt( nn );
 
-    for( i = 3; i < nCoeffs; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        px = pts[0];
-        pts[0] = pts[1];
-        pts[1] = pts[2];
-        pts[2] = px;
-
-        pts[2]->x = coeffs[j++];
-        pts[2]->y = coeffs[j++];
-        pts[2]->z = coeffs[j++];
-
-        if( 0 == PROP3 )
-            ++j;
+        const double* c = &coeffs[i * step];
+        MCAD_POINT v = MCAD_POINT( c[0], c[1], c[2] ) - p0;
 
-        CalcNormal( pts[0], pts[1], pts[2], &tnorm1 );
-
-        if( !PointMatches( tnorm0, tnorm1, 1e-8 )
-            && !PointMatches( tnorm0, tnorm1 * -1.0, 1e-8 ) )
-        {
-            norm->x = 0.0;
-            norm->y = 0.0;
-            norm->z = 1.0;
+        if( fabs( n.x * v.x + n.y * v.y + n.z * v.z ) > 1e-8 * sqrt( uu ) )
             return false;
-        }
-
-        tnorm0 = tnorm1;
     }
 
+    *norm = n;
+
     return true;
 }
-- 
2.43.0


From b6f3753361e48097236e218327f3dbf8eb459475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 130/135] fix: 514: an open shell could not be loaded

---
 src/entities/entity514.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 046de67..4957538 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -305,7 +305,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From 311c6cd3189b60c18821e0ed46360161566f20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:53 +0000
Subject: [PATCH 131/135] fix: IDF: outlines were deleted against the ownership
 rules

---
 src/idf/idf_outlines.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 64f7668..8a01f8a 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1316,6 +1316,11 @@ bool BOARD_OUTLINE::AddOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
     std::list< IDF_OUTLINE* >::iterator itE = outlines.end();
 
@@ -1374,6 +1379,11 @@ bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( size_t aIndex )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
 
     if( outlines.empty() )
-- 
2.43.0


From b2410f28d8f0dd9562e42dfb544281ef875505f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:19 +0000
Subject: [PATCH 132/135] fix: idf2igs: the surfaces of OTHER outlines did not
 all face outwards

The two planes faced the same way and the side walls of outlines below the
board were made with top and bottom exchanged, which turned straight walls
inside out but not round ones.
---
 src/idf/idf2igs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index b0a7589..74cb58b 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1189,15 +1189,15 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         if( bottom )
         {
-            ok = otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), -bt )
-                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true )
-                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, true );
+            ok = otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -bt, -(th + bt) )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, false )
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true );
         }
         else
         {
             ok = otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt )
                 && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false )
-                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, false );
+                && otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, true );
         }
 
         if( !ok )
-- 
2.43.0


From 5dd70be1b2b29c49cd3691094cf9c30ba6b76d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:29 +0000
Subject: [PATCH 133/135] fix: arcs ending just off a multiple of PI made
 planes which could not be trimmed

SnapAngle() merged a part of an arc with its neighbour only when it was
shorter than 1e-7; a part somewhat longer than that still became shorter
than the document's default resolution when it was scaled to the parameter
space of a plane, so that it closed the boundary it was merely a part of and
GetTrimmedPlane() failed.
---
 src/geom/mcad_helpers.cpp       | 2 +-
 src/include/geom/mcad_helpers.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geom/mcad_helpers.cpp b/src/geom/mcad_helpers.cpp
index b6eac1e..e9df9ea 100644
--- a/src/geom/mcad_helpers.cpp
+++ b/src/geom/mcad_helpers.cpp
@@ -137,7 +137,7 @@ double SnapAngle( double aAngle, double aRadius )
 {
     double ref = M_PI * floor( aAngle / M_PI + 0.5 );
 
-    if( abs( aAngle - ref ) * aRadius < 1e-7 )
+    if( abs( aAngle - ref ) * aRadius < 1e-5 )
         return ref;
 
     return aAngle;
diff --git a/src/include/geom/mcad_helpers.h b/src/include/geom/mcad_helpers.h
index 83e6537..a8ba195 100644
--- a/src/include/geom/mcad_helpers.h
+++ b/src/include/geom/mcad_helpers.h
@@ -50,9 +50,10 @@ struct MCAD_POINT;
 MCAD_API void print_vec(const MCAD_POINT* p);
 
 // snap an angle to the nearest multiple of PI if the corresponding point
-// on an arc of radius aRadius is within 1e-7 of that direction; arcs are
+// on an arc of radius aRadius is within 1e-5 of that direction; arcs are
 // split at multiples of PI and without this a rounding error in the angle
-// yields a degenerate (zero length) arc
+// yields a degenerate (zero length) arc, or one which becomes so short in the
+// parameter space of a plane that it closes the boundary it is a part of
 MCAD_API double SnapAngle( double aAngle, double aRadius );
 
 // calculate the normal given points p0, p1, p2
-- 
2.43.0


From 0db2d765e33f528dba3319ef4a5d8824e568fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:00 +0000
Subject: [PATCH 134/135] fix: outlines with a coincident edge were combined
 wrongly or refused half done

If the stretches which start at the first split point coincide, the test points
are on both outlines and say nothing. Use the other stretches instead.
---
 src/geom/mcad_outline.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 626e24b..6425923 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1646,6 +1646,32 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         return false;
     }
 
+    // if the tested segments coincide then both test points are on both
+    // outlines; the segments which start at the other split point tell
+    // which outline is the inner one
+    if( tpIn0 && tpIn1 )
+    {
+        for( iSeg = msegments.begin(); iSeg != msegments.end(); ++iSeg )
+        {
+            if( PointMatches( iList.back(), (*iSeg)->mstart, 1e-8 ) )
+            {
+                (*iSeg)->GetMidpoint( pT );
+                tpIn0 = !aOutline->IsInside( pT, error );
+                break;
+            }
+        }
+
+        for( iSeg = aOutline->msegments.begin(); iSeg != aOutline->msegments.end(); ++iSeg )
+        {
+            if( PointMatches( iList.back(), (*iSeg)->mstart, 1e-8 ) )
+            {
+                (*iSeg)->GetMidpoint( pT );
+                tpIn1 = !IsInside( pT, error );
+                break;
+            }
+        }
+    }
+
     // f. A test for invalid geometry: if both (d) and (e) are
     //    inside (or outside) then we have invalid geometry due
     //    to a case of 2 non-overlapping outlines coinciding at
-- 
2.43.0


From 6500e945b251579dce64008a7bb9369d48f8149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:11 +0000
Subject: [PATCH 135/135] fix: GetLabelAssoc and GetLineFontPatternEntity
 returned the opposite of what is documented

---
 src/entities/iges_entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index de1de0f..41e7509 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1967,7 +1967,7 @@ bool IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY** aPattern)
     *aPattern = NULL;
 
     if( !pLineFontPattern )
-        return false;
+        return ( 0 == lineFontPattern );
 
     *aPattern = pLineFontPattern;
     return true;
@@ -2318,7 +2318,7 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
     *aLabelAssoc = pLabelAssoc;
-    return true;
+    return ( NULL != pLabelAssoc );
 }
 
 
-- 
2.43.0

