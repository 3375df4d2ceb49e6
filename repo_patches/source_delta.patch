From e9806d7991ff100027ccba44ab67b2d7f59caf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 001/147] fix: ArrayItr delivered a pair when nothing satisfies
 its constraints

init() took the insertion point of an absent first constraint as a match,
did not check the first component when looking for the second, and claimed
an element on an empty array.
---
 src/trident/iterators/arrayitr.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..dd17dce 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -173,7 +173,7 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
 
     if (constraint1 != -1) {
         pos = binarySearch(array.get(), 0, nElements, constraint1);
-        if (pos >= 0) {
+        if (pos >= 0 && array->at(pos).first == constraint1) {
             if (constraint2 != -1) {
                 // The values are not many. Let's try to do a linear search
                 // and see how it goes...
@@ -182,7 +182,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
                     pos++;
                 }
                 hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
+                n = pos < nElements && array->at(pos).first == constraint1
+                    && array->at(pos).second == constraint2;
             } else {
                 hasNextChecked = n = true;
             }
@@ -193,7 +194,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
+        hasNextChecked = true;
+        n = nElements > 0;
     }
 }
 
-- 
2.43.0


From c20943aadb10e36bc2817e39d251934a3b3439f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 002/147] fix: ArrayItr::getCount() after moving to the current
 group

With the second column ignored, moveto() to the current value stepped back by
one pair, so that getCount() reported 1 instead of the size of the group.
---
 src/trident/iterators/arrayitr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index dd17dce..36fce47 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -114,6 +114,13 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
         pos--; //so that hasNext will move to the same point
+        if (ignSecondColumn) {
+            //Go back to the first pair of the current group. Otherwise the
+            //next call to getCount() would count only a part of the group
+            while (pos > 0 && array->at(pos - 1).first == v1) {
+                pos--;
+            }
+        }
         hasNextChecked = true;
         n = true;
         return;
-- 
2.43.0


From 3d6ed4c9482bc8e5458e0f2e4e461d06292e8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 003/147] fix: ArrayItr::reset() restores the marked pair

moveto() compares its target with the current pair, which reset() left at the
position the iterator had before.
---
 include/trident/iterators/arrayitr.h | 1 +
 src/trident/iterators/arrayitr.cpp   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..a165e5a 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,7 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 36fce47..3989582 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,15 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
+    countElems = 0;
     hasNextChecked = false;
 }
 
-- 
2.43.0


From 8e9a5b7c84e62a27690961ceda4f04e305800998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 004/147] fix: deletions over an in-memory index no longer
 throw

ArrayItr::getCount() threw when the second column is not ignored, unlike the
other iterators, and RmItr always asks for it. RmItr::ignoreSecondColumn()
asked its iterators for a count before they had delivered anything.
---
 src/trident/iterators/arrayitr.cpp | 2 +-
 src/trident/iterators/rmitr.cpp    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 3989582..3456fe7 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -69,7 +69,7 @@ bool ArrayItr::hasNext() {
 
 int64_t ArrayItr::getCount() {
     if (!ignSecondColumn) {
-        throw 10;
+        return 1;
     }
 
     if (countElems == 0) {
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..87bde21 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -176,9 +176,11 @@ void RmItr::ignoreSecondColumn() {
     rmitr->ignoreSecondColumn();
     noseccol = true;
     if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
+        if (hnc && hn) { //Otherwise hasNext() will set the count
+            nextCount = itr->getCount();
+            if (rmitrvalid && rmitr->getValue1() == itr->getValue1())
+                nextCount -= rmitr->getCount();
+        }
     } else {
         curCount = itr->getCount();
         if (rmitr->getValue1() == itr->getValue1())
-- 
2.43.0


From e06da9496156ea0e3f8897d9461fe1201dad34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 005/147] fix: tree nodes whose keys are 128..255 apart could
 not be read back

The step of an arithmetic sequence of keys is written as an unsigned byte and
was read as a signed one, so that such a node was taken for one that lists its
keys.
---
 src/trident/tree/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..cfb881c 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,7 +101,7 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
-- 
2.43.0


From 23bda3aeceac3be73c8bdc7ba839081ddf340d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 006/147] fix: a store with an added term that contains a space
 could not be opened

The dictionary of the updates is written with one term per line and was read
word by word: a literal with a space in it made the constructor loop forever.
---
 src/trident/kb/dictmgmt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..94d3d11 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -59,11 +59,11 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
             ifstream ifs;
             ifs.open(dirToStoreGUD + DIR_SEP + "gud");
             ifs >> gud_largestID;
-            while (!ifs.eof()) {
-                uint64_t id;
-                string term;
-                ifs >> id;
-                ifs >> term;
+            uint64_t id;
+            string term;
+            //One entry per line: the ID, a tab, and the term (which can
+            //contain whitespaces)
+            while (ifs >> id && ifs.get() == '\t' && getline(ifs, term)) {
                 if (term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
-- 
2.43.0


From 4437241806bd43c4d5057fa1d7cdae89354b8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 007/147] fix: deleting a triple with an unknown term could
 delete another triple

---
 src/trident/kb/updater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..fa18959 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -198,6 +198,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
+                        previd = -1; //also for the next equal terms
                         continue;
                     }
                 }
@@ -240,6 +241,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
+                        previd = -1; //also for the next equal terms
                         continue;
                     }
                 }
@@ -282,6 +284,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
+                        previd = -1; //also for the next equal terms
                         continue;
                     }
                 }
-- 
2.43.0


From 20c8ce40309426eec9b9fcb96ebdf7aeae42c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 008/147] fix: merging updates dropped those that add no new
 key

---
 src/trident/kb/querier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..a4f065e 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -846,7 +846,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
                 DiffScanItr *itr = factory11.get();
@@ -864,7 +864,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
                     LOG(DEBUGL) << "CompositeScanItr, hasNext = " << newitr->hasNext();
                     finalItr = newitr;
                 } else {
-                    ((CompositeScanItr*)finalItr)->addChild(itr);
+                    ((CompositeScanItr*)finalItr)->addChild(it);
                 }
             } else {
                 if (finalItr == NULL) {
-- 
2.43.0


From f9c6ba7f2e2aba6def036d03b33da411817c7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 009/147] fix: merged updates added triples that the store
 already had

---
 src/trident/kb/kb.cpp | 45 +++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..092cfe9 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -666,11 +666,13 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         return;
     }
 
-    // Filter: the only deletes that should be left are in the db.
-    if (type == DiffIndex::TypeUpdate::DELETE_df) {
-        std::vector<uint64_t> del_s;
-        std::vector<uint64_t> del_p;
-        std::vector<uint64_t> del_o;
+    // Filter: the only deletes that should be left are in the db, and the
+    // only additions are not.
+    const bool keepExisting = type == DiffIndex::TypeUpdate::DELETE_df;
+    {
+        std::vector<uint64_t> upd_s;
+        std::vector<uint64_t> upd_p;
+        std::vector<uint64_t> upd_o;
 
         PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
         if (kbitr->hasNext()) {
@@ -680,10 +682,9 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
             kbitr = NULL;
         }
 
-        size_t i = 0;
-        while (i != all_s.size()) {
+        for (size_t i = 0; i < all_s.size(); ++i) {
             //move kbitr to the good position
-            int cmpResult;
+            int cmpResult = 1;
             while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
                 if (kbitr->hasNext()) {
                     kbitr->next();
@@ -692,35 +693,21 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
                     kbitr = NULL;
                 }
             }
-            if (kbitr) {
-                //do the check
-                if (cmpResult == 0) {
-                    del_s.push_back(all_s[i]);
-                    del_p.push_back(all_p[i]);
-                    del_o.push_back(all_o[i]);
-                    //Must move also the original iterator
-                    if (kbitr->hasNext()) {
-                        kbitr->next();
-                    } else {
-                        break;
-                    }
-                }
-                i++;
-            } else {
-                break;
+            const bool existing = kbitr && cmpResult == 0;
+            if (existing == keepExisting) {
+                upd_s.push_back(all_s[i]);
+                upd_p.push_back(all_p[i]);
+                upd_o.push_back(all_o[i]);
             }
         }
         if (kbitr)
             q->releaseItr(kbitr);
 
-        if (del_s.size() == 0) {
+        if (upd_s.size() == 0) {
             return;
         }
         Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
-    } else {
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
+        DiffIndex3::createDiffIndex(type, dir, diffDir, upd_s, upd_p, upd_o, true, q, true);
     }
 
     //Write the type of file
-- 
2.43.0


From 9731f9201f8bbf2e9e082e4aaaccb26fd973b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 010/147] fix: merging updates lost added terms and failed when
 updates cancel out

---
 src/trident/kb/kb.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 092cfe9..36d4800 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -776,15 +776,22 @@ void KB::mergeUpdates() {
         totalNumberTerms, nindices, ntables, nFirstTables,
         sampleKB, diffs, present, partial);
 
-    if (addCount >= 1) {
-        PairItr *addItr = q->summaryAddDiff();
+    //Remove what an interrupted merge might have left
+    if (Utils::exists(diffDir)) {
+        Utils::remove_all(diffDir);
+    }
+    Utils::create_directories(diffDir);
 
-        createSingleUpdate(DiffIndex::TypeUpdate::ADDITION_df, addItr, diffDir + DIR_SEP + "0", diffDir, q1);
+    const std::string firstUpdate = diffDir + DIR_SEP + "0";
+    PairItr *addItr = q->summaryAddDiff();
+    if (addItr != NULL) {
+        createSingleUpdate(DiffIndex::TypeUpdate::ADDITION_df, addItr, firstUpdate, diffDir, q1);
         q->releaseItr(addItr);
     }
-    if (rmCount >= 1) {
-        PairItr *rmItr = q->summaryRmDiff();
-        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (addCount != 0 ? "1" : "0"), diffDir, q1);
+    PairItr *rmItr = q->summaryRmDiff();
+    if (rmItr != NULL) {
+        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr,
+                Utils::exists(firstUpdate) ? diffDir + DIR_SEP + "1" : firstUpdate, diffDir, q1);
         q->releaseItr(rmItr);
     }
 
@@ -792,7 +799,21 @@ void KB::mergeUpdates() {
     delete q;
 
     if (dictUpdates.size() != 0) {
-        createNewDict(diffDir + DIR_SEP + "0");
+        if (!Utils::exists(firstUpdate)) {
+            //The updates cancel each other: there is no update that could
+            //hold the dictionary. Keep the old ones.
+            Utils::remove_all(diffDir);
+            return;
+        }
+        createNewDict(firstUpdate);
+    }
+
+    //Keep the terms that were added by the (small) updates
+    const std::string gud = oldDiffDir + DIR_SEP + std::string("gud");
+    if (Utils::exists(gud)) {
+        std::ifstream src(gud, std::ios::binary);
+        std::ofstream dst(diffDir + DIR_SEP + std::string("gud"), std::ios::binary);
+        dst << src.rdbuf();
     }
 
     std::string old = oldDiffDir + std::string(".old");
-- 
2.43.0


From 3e5a6c07ea6fb9a6f1025892565c4cfb0063cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 011/147] fix: term lists ignored updates without new keys and
 deletions on other permutations

---
 src/trident/kb/querier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index a4f065e..b2202a1 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -786,7 +786,7 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
@@ -801,7 +801,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
-- 
2.43.0


From e72c15e21bd76050c865fc1023d75f5f9ce68fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 012/147] fix: dividing a complex number by a real conjugated
 it, so the inverse transform was not the inverse

---
 include/trident/utils/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index 3919904..4c829a1 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -45,7 +45,7 @@ typedef struct Complex {
     }
 
     Complex operator / (double d) {
-	return Complex(this->real/d, -this->imag/d);
+	return Complex(this->real/d, this->imag/d);
     }
 
 } Complex;
-- 
2.43.0


From 1050cbaef26593267e8fd060c5df7d6c848fdb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 013/147] fix: in-place complex multiplication used the new
 real part for the imaginary part

---
 include/trident/utils/fft.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index 4c829a1..b0b3335 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -35,8 +35,7 @@ typedef struct Complex {
     }
 
     Complex& operator *= (Complex c) {
-        this->real = (this->real * c.real) - (this->imag * c.imag);
-        this->imag = (this->real * c.imag) + (this->imag * c.real);
+        *this = *this * c;
         return *this;
     }
 
-- 
2.43.0


From 28fdba0b5b7bc27e3181f88778ba9895e17a6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 014/147] fix: the single-precision circular correlation
 returned nothing

---
 src/trident/utils/fft.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/trident/utils/fft.cpp b/src/trident/utils/fft.cpp
index c89fefe..b72041a 100644
--- a/src/trident/utils/fft.cpp
+++ b/src/trident/utils/fft.cpp
@@ -205,8 +205,7 @@ void ccorr(double* a, double* b, uint16_t size, vector<float>& out) {
     fftw_free(temp);
     fftw_free(aOut);
     fftw_free(bOut);*/
-    /*
-     * vector<Complex> ac;
+    vector<Complex> ac;
     for (int i = 0; i < size; ++i) {
         Complex temp;
         temp.real = a[i];
@@ -225,7 +224,7 @@ void ccorr(double* a, double* b, uint16_t size, vector<float>& out) {
 
     for (auto d : out_d) {
         out.push_back((float) d);
-    }*/
+    }
 }
 
 void cconv(double* a, double* b, uint16_t size, std::vector<float>& out) {
-- 
2.43.0


From 1da5336939b14b46e579449eb8be6f36929eeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 015/147] fix: ValuesScan delivers every row and can be
 restarted

---
 rdf3x/src/rts/ValuesScan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..24e8773 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -6,7 +6,7 @@ ValuesScan::ValuesScan(std::vector<Register*> regs,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     regs(regs), values(values) {
         if (regs.size() > 0)
-            toBeProcessed = values.size() / regs.size();
+            toBeProcessed = values.size() - values.size() % regs.size();
         else
             toBeProcessed = 0;
         processed = 0;
@@ -18,6 +18,7 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
+    processed = 0;
     if (processed < toBeProcessed) {
         for (auto v : regs) {
             v->value = values[processed++];
-- 
2.43.0


From 7225ae283194c86b74726f7d0994e274dda052e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 016/147] fix: Assignment keeps the multiplicities of its input

---
 rdf3x/src/rts/Assignment.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/Assignment.cpp b/rdf3x/src/rts/Assignment.cpp
index 797a4cc..3ff2dd4 100644
--- a/rdf3x/src/rts/Assignment.cpp
+++ b/rdf3x/src/rts/Assignment.cpp
@@ -28,7 +28,8 @@ void Assignment::print(PlanPrinter& out)
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::first() {
-    if (input->first() == 0)
+    uint64_t count = input->first();
+    if (count == 0)
         return false;
     for (size_t j = 0; j < inputArgs.size(); ++j) {
         if (inputArgs[j].reg != NULL)
@@ -36,18 +37,19 @@ uint64_t Assignment::first() {
         else
             outputVars[j]->value = inputArgs[j].defaultValue;
     }
-    return true;
+    return count;
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::next() {
-    if (input->next()) {
+    uint64_t count = input->next();
+    if (count) {
         for (size_t j = 0; j < inputArgs.size(); ++j) {
             if (inputArgs[j].reg != NULL)
                 outputVars[j]->value = inputArgs[j].reg->value;
             else
                 outputVars[j]->value = inputArgs[j].defaultValue;
         }
-        return true;
+        return count;
     }
     return false;
 }
-- 
2.43.0


From a76bfbca7b285bd4b5c66fe1531272cdda7e2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 017/147] fix: MergeUnion does not deliver the last common
 value twice

---
 rdf3x/src/rts/MergeUnion.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..e037b4c 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,12 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            // The current value of the right side was delivered together with the left one?
+            if ((state==stepBoth)&&((rightCount=right->next())==0)) {
+               state=done;
+               return false;
+            }
+            rightValue=rightReg->value;
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From 8b0736a55c4ed4d1b326e821126570de3f44dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 018/147] fix: DuplLimit can be restarted

---
 rdf3x/src/rts/DuplLimit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..20c42a1 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,6 +20,8 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
+    currentCount = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
-- 
2.43.0


From 3b9bfe639b0f04ac5898d5c5551837e7de9fa9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 019/147] fix: GroupBy can be restarted

---
 rdf3x/src/rts/GroupBy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..df4b75c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -79,6 +79,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 /// Produce the first tuple
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
+    values.clear();
     uint64_t cnt = child->first();
 
     while (cnt > 0) {
-- 
2.43.0


From ce65d4ffc205e15615a0ad8805fe7a062a210ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 020/147] fix: CartProd can be restarted

---
 rdf3x/src/rts/CartProd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..298056f 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -31,6 +31,8 @@ CartProd::~CartProd()
 uint64_t CartProd::first()
     // Produce the first tuple
 {
+    buffer.clear();
+    leftExhausted = false;
     //Need to store all the first entries in a vector
     if ((leftCount = left->first()) == 0) {
         if (leftOptional) {
-- 
2.43.0


From e0a625579d316d4b3874eb197c7d9dbac1fc9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 021/147] fix: HashJoin with optional sides lost and repeated
 rows

---
 rdf3x/include/rts/operator/HashJoin.hpp |  3 ++
 rdf3x/src/rts/HashJoin.cpp              | 64 +++++++++++++++----------
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/rdf3x/include/rts/operator/HashJoin.hpp b/rdf3x/include/rts/operator/HashJoin.hpp
index 92daaf3..35111f6 100644
--- a/rdf3x/include/rts/operator/HashJoin.hpp
+++ b/rdf3x/include/rts/operator/HashJoin.hpp
@@ -102,6 +102,9 @@ private:
     size_t currentIdx;
     std::vector<uint64_t> keys;
 
+    /// Start producing the left tuples that found no partner
+    uint64_t startUnmatchedLeft();
+
 public:
     /// Constructor
     HashJoin(Operator* left, Register* leftValue, const std::vector<Register*>& leftTail, Operator* right, Register* rightValue, const std::vector<Register*>& rightTail,
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..fbff6e0 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -202,8 +202,9 @@ uint64_t HashJoin::first()
 
     // Read the first tuple from the right side
     probePeekTask.run();
-    if (((rightCount = probePeekTask.count) == 0) && !leftOptional) {
-        return false;
+    collectedRightValues.clear();
+    if ((rightCount = probePeekTask.count) == 0) {
+        return startUnmatchedLeft();
     }
 
     // Setup the lookup
@@ -216,29 +217,47 @@ uint64_t HashJoin::first()
     return next();
 }
 //---------------------------------------------------------------------------
+uint64_t HashJoin::startUnmatchedLeft()
+    // The right side is exhausted: produce the left tuples that found no partner
+{
+    hashTableIter = 0;
+    rightCount = 0;
+    if (!rightOptional) {
+        joinSuccedeed = true;
+        return false;
+    }
+    //Scan the all left table. return a NULL for each entry not joined
+    currentIdx = 0;
+    rightValue->value = ~0u;
+    for (uint64_t index = 0, limit = rightTail.size(); index < limit; ++index)
+        rightTail[index]->value = ~0u;
+    return next();
+}
+//---------------------------------------------------------------------------
 uint64_t HashJoin::next()
     // Produce the next tuple
 {
     if (currentIdx != (size_t) -1) {
-        Entry *e;
-        while (currentIdx < hashTable.size()) {
-            if ((e = hashTable[currentIdx++])
-                    && !collectedRightValues.count(e->key)) {
-                for (uint64_t index = 0, limit = leftTail.size();
-                        index < limit; ++index)
-                    leftTail[index]->value = e->values[index];
-                return e->count;
-            }
+        while (!hashTableIter) {
+            if (currentIdx >= hashTable.size())
+                return false;
+            hashTableIter = hashTable[currentIdx++];
+            if (hashTableIter && collectedRightValues.count(hashTableIter->key))
+                hashTableIter = 0;
         }
-        return false;
+        leftValue->value = hashTableIter->key;
+        for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
+            leftTail[index]->value = hashTableIter->values[index];
+        uint64_t count = hashTableIter->count;
+        hashTableIter = hashTableIter->next;
+        observedOutputCardinality += count;
+        return count;
     }
 
     // Repeat until a match is found
     while (true) {
         // Still scanning the hash table?
-        bool elementToProcess = false;
-        for (; hashTableIter; hashTableIter = hashTableIter->next) {
-            elementToProcess = true;
+        if (hashTableIter) {
             uint64_t leftCount = hashTableIter->count;
             leftValue->value = hashTableIter->key;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
@@ -251,11 +270,13 @@ uint64_t HashJoin::next()
         }
 
         //First we finish all joins
-        if (!elementToProcess && !joinSuccedeed && leftOptional) {
+        if (!joinSuccedeed && leftOptional) {
             joinSuccedeed = true;
             //Set the hash values to NULL
+            leftValue->value = ~0u;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
                 leftTail[index]->value = ~0u;
+            observedOutputCardinality += rightCount;
             return rightCount;
         }
 
@@ -266,16 +287,7 @@ uint64_t HashJoin::next()
 	}
 	rightCount = right->next();
         if (rightCount == 0) {
-            if (!rightOptional) {
-                return false;
-            } else {
-                //Scan the all left table. return a NULL for each entry not joined
-                currentIdx = 0;
-                for (uint64_t index = 0, limit = rightTail.size();
-                        index < limit; ++index)
-                    rightTail[index]->value = ~0u;
-                return next();
-            }
+            return startUnmatchedLeft();
         }
 
         hashTableIter = lookup(rightValue->value);
-- 
2.43.0


From eb262379c120ad7c3f01a43847ea656a97f2eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 022/147] fix: MergeJoin with optional sides lost rows at the
 end of a block

---
 rdf3x/src/rts/MergeJoin.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..d95adea 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -23,8 +23,11 @@ MergeJoin::MergeJoin(Operator* left,Register* leftValue,const std::vector<Regist
     leftShadow.resize(leftTail.size()+2);
     rightShadow.resize(rightTail.size()+2);
 
-    left->addMergeHint(leftValue,rightValue);
-    right->addMergeHint(leftValue,rightValue);
+    // A side whose tuples are kept even without a partner must not skip any
+    if (!rightOptional)
+        left->addMergeHint(leftValue,rightValue);
+    if (!leftOptional)
+        right->addMergeHint(leftValue,rightValue);
 }
 //---------------------------------------------------------------------------
 MergeJoin::~MergeJoin()
@@ -181,6 +184,8 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
+                                    if (rightCount == 0)
+                                        return false;
                                     leftValue->value = ~0u;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
                                         leftTail[index]->value = ~0u;
@@ -196,6 +201,8 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
+                                    if (leftCount == 0)
+                                        return false;
                                     rightValue->value = ~0u;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
                                         rightTail[index]->value = ~0u;
@@ -398,7 +405,9 @@ uint64_t MergeJoin::next()
                                             leftTail[index]->value = ~0u;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // Go on with the right tuple behind the block
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -432,7 +441,9 @@ uint64_t MergeJoin::next()
                                             rightTail[index]->value = ~0u;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // Go on with the left tuple behind the block
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -469,14 +480,16 @@ uint64_t MergeJoin::next()
                                 leftInCopy=false;
                             } else {
                                 if ((leftCount=left->next())==0) {
-                                    if (leftOptional) {
+                                    if (leftOptional && scanState==loopSpooledRightHasData) {
                                         if (leftValue->value != ~0u) {
                                             leftValue->value = ~0u;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
                                                 leftTail[index]->value = ~0u;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        // Go on with the right tuple behind the block
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -501,7 +514,8 @@ uint64_t MergeJoin::next()
                                                 rightTail[index]->value = ~0u;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        rightCount = 0;
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From 8fad6af8f752997369aa5f784a2d2bbc0ef1d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 023/147] fix: MergeJoin can be restarted below its merge hints

---
 rdf3x/src/rts/MergeJoin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index d95adea..af5a966 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -42,6 +42,10 @@ uint64_t MergeJoin::first()
 {
     observedOutputCardinality=0;
 
+    // The merge hints must not see the values of an earlier execution
+    leftValue->value=0;
+    rightValue->value=0;
+
     // Read the first tuples
     if ((leftCount=left->first())==0) {
         if (leftOptional) {
-- 
2.43.0


From d6c4e66a2955e527c555416a93567dc7d3f0ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 024/147] fix: CartProd delivered stale values in the first row
 of an empty optional side

---
 rdf3x/src/rts/CartProd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 298056f..757de37 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -52,6 +52,9 @@ uint64_t CartProd::first()
 	    for(int i = 0; i < rightTail.size(); ++i) {
 		buffer.push_back(UINT64_MAX);
 	    }
+	    for(int i = 0; i < rightTail.size(); ++i) {
+		rightTail[i]->value = UINT64_MAX;
+	    }
 	    idxbuffer = 1 + rightTail.size();
 	} else {
 	    return 0;
-- 
2.43.0


From eb6352d43a25144b4488cf3de3c59d32c04b4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 025/147] fix: searching the cache for a key behind the last
 block read past the end

---
 src/trident/iterators/cacheitr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/cacheitr.cpp b/src/trident/iterators/cacheitr.cpp
index 791f6a1..68a91e0 100644
--- a/src/trident/iterators/cacheitr.cpp
+++ b/src/trident/iterators/cacheitr.cpp
@@ -152,8 +152,8 @@ CacheBlock *CacheItr::searchBlock(std::vector<CacheBlock> *blocks,
     b.startKey = v;
     std::vector<CacheBlock>::iterator itr = std::lower_bound(blocks->begin(),
                                             blocks->end(), b);
-    if (itr != blocks->begin() || v == itr->startKey) {
-        if (v != itr->startKey)
+    if (itr != blocks->begin() || (itr != blocks->end() && v == itr->startKey)) {
+        if (itr == blocks->end() || v != itr->startKey)
             itr--;
         if (v <= itr->endKey) {
             return &(*itr);
-- 
2.43.0


From 5a54111cda5f7bc057631558542a6e052ed66947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 026/147] fix: TurtleParser rejects collections and anonymous
 blank nodes as subjects

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 402b492..8c61cf2 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -506,6 +506,7 @@ void TurtleParser::parseBlank(std::string& entry)
                triples.push_back(Triple(nodes[index],"http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",nodes[index+1],Type::URI,""));
             }
             entry=nodes.front();
+            return;
          }
 
       default: parseError("invalid blank entry");
@@ -541,6 +542,7 @@ void TurtleParser::parseSubject(Lexer::Token token,std::string& subject)
          // Opening bracket/parenthesis
          lexer.unget(token,subject);
          parseBlank(subject);
+         return;
       default: parseError("invalid subject");
    }
 }
-- 
2.43.0


From 060a9d423a8c0d9fafb89e32beed21ac0213c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 027/147] fix: TurtleParser drops the character after a quote
 in a long string

---
 rdf3x/src/cts/TurtleParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 8c61cf2..f432f9a 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -204,10 +204,11 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    while (read(c)) {
       if (c=='\"') {
          if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
-         if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
-         return String;
+         if (c=='\"') {
+            if (!read(c)) break;
+            if (c=='\"') return String;
+            token+="\"\"";
+         } else token+='\"';
       }
       if (c=='\\') {
          lexEscape(token);
-- 
2.43.0


From 36fb897d27958705319bfc526588d1dc7a5f1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 028/147] fix: TurtleParser encodes characters beyond the basic
 plane wrongly

---
 rdf3x/src/cts/TurtleParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index f432f9a..c7d1c84 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -155,10 +155,15 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
-   } else {
+   } else if (code<0x10000) {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    }
    return result;
 }
-- 
2.43.0


From 209c2d5762dfa4069facb74cce8864d404d766d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 029/147] fix: TurtleParser reads the last buffer twice when it
 is full

---
 rdf3x/src/cts/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index c7d1c84..fb07241 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -44,7 +44,7 @@ bool TurtleParser::Lexer::doRead(char& c)
    // Read new characters
 {
    while (in) {
-      readBufferStart=readBuffer;
+      readBufferStart=readBufferEnd=readBuffer;
       in.read(readBuffer,readBufferSize);
       if (!in.gcount()) return false;
       readBufferEnd=readBufferStart+in.gcount();
-- 
2.43.0


From 28b5738b1b8a62caca8891743013c41e25908e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 030/147] fix: TurtleParser takes a string, URI or comment that
 follows a name for a part of it

---
 rdf3x/src/cts/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index fb07241..0cbadcd 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -57,7 +57,7 @@ bool TurtleParser::Lexer::doRead(char& c)
    return false;
 }
 //---------------------------------------------------------------------------
-static bool issep(char c) { return (c==' ')||(c=='\t')||(c=='\n')||(c=='\r')||(c=='[')||(c==']')||(c=='(')||(c==')')||(c==',')||(c==';')||(c==':')||(c=='.'); }
+static bool issep(char c) { return (c==' ')||(c=='\t')||(c=='\n')||(c=='\r')||(c=='[')||(c==']')||(c=='(')||(c==')')||(c==',')||(c==';')||(c==':')||(c=='.')||(c=='\"')||(c=='<')||(c=='#'); }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,char c)
    // Lex a number
-- 
2.43.0


From 1bb7b0b500d51046b572d0325604051352c5225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 031/147] fix: TurtleParser takes the token after an empty
 local name for the local name

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 38b8052..0594a9d 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -94,6 +94,8 @@ class TurtleParser
       void unget(Token t,const std::string& s) { putBack=t; if (t>=Integer) putBackValue=s; }
       /// Put a token back
       void ungetIgnored(Token t) { putBack=t; if (t>=Integer) putBackValue=ignored; }
+      /// Does a name start at the next character?
+      bool nameFollows();
       /// Get the line
       unsigned getLine() const { return line; }
    };
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 0cbadcd..2592b73 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -355,6 +355,15 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
    return Eof;
 }
 //---------------------------------------------------------------------------
+bool TurtleParser::Lexer::nameFollows()
+   // Does a name start at the next character?
+{
+   char c;
+   if (!read(c)) return false;
+   unread();
+   return ((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_');
+}
+//---------------------------------------------------------------------------
 TurtleParser::TurtleParser(istream& in)
    : lexer(in),triplesReader(0),nextBlank(0)
    // Constructor
@@ -446,11 +455,11 @@ void TurtleParser::parseQualifiedName(const string& prefix,string& name)
       parseError("unknown prefix '"+prefix+"'");
    string expandedPrefix=prefixes[prefix];
 
-   Lexer::Token token=lexer.next(name);
-   if (isName(token)) {
+   // The local name has to follow the colon directly, it can be empty
+   if (lexer.nameFollows()) {
+      lexer.next(name);
       name=expandedPrefix+name;
    } else {
-      lexer.unget(token,name);
       name=expandedPrefix;
    }
 }
-- 
2.43.0


From b0aa40e1f54b3f765ce2706b48039e91cac0c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 032/147] fix: TurtleParser does not resolve relative URIs in
 directives and data types

---
 rdf3x/src/cts/TurtleParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 2592b73..6a98b57 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -414,8 +414,11 @@ void TurtleParser::parseDirective()
       parseError("directive name expected after '@'");
 
    if (value=="base") {
-      if (lexer.next(base)!=Lexer::URI)
+      std::string uri;
+      if (lexer.next(uri)!=Lexer::URI)
          parseError("URI expected after @base");
+      constructAbsoluteURI(uri);
+      base=uri;
    } else if (value=="prefix") {
       std::string prefixName;
       Lexer::Token token=lexer.next(prefixName);
@@ -430,6 +433,7 @@ void TurtleParser::parseDirective()
       std::string uri;
       if (lexer.next(uri)!=Lexer::URI)
          parseError("URI expected after @prefix");
+      constructAbsoluteURI(uri);
       prefixes[prefixName]=uri;
    } else {
       parseError("unknown directive @"+value);
@@ -636,7 +640,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                string type;
                token=lexer.next(type);
                if (token==Lexer::URI) {
-                  // Already parsed
+                  constructAbsoluteURI(type);
                } else if (token==Lexer::Colon) {
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
-- 
2.43.0


From 490892e00b5bf7d4802922d37f483d49a9153e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 033/147] fix: TurtleParser accepts any token as data type

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 6a98b57..d75f2b5 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -645,6 +645,8 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
+               } else {
+                  parseError("data type expected after '^^'");
                }
                if (type=="http://www.w3.org/2001/XMLSchema#string") {
                   objectType=Type::String;
-- 
2.43.0


From c8459e1bbcefe436f972a564970f396c399ae69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 034/147] fix: TurtleParser uses the same label for an
 anonymous and a named blank node

---
 rdf3x/src/cts/TurtleParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index d75f2b5..602fab0 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -476,7 +476,8 @@ void TurtleParser::parseBlank(std::string& entry)
       case Lexer::Name:
          if ((entry!="_")||(lexer.next()!=Lexer::Colon)||(!isName(lexer.next(entry))))
             parseError("blank nodes must start with '_:'");
-         entry="_:"+entry;
+         // Names with a leading underscore must not clash with constructed ones
+         entry=((entry[0]=='_')?"_:_":"_:")+entry;
          return;
       case Lexer::LBracket:
          {
-- 
2.43.0


From 9c01d66595c03a6e99cd8708aa33ab6466fdb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 035/147] fix: TurtleParser splits decimal numbers at the dot

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 0594a9d..408ae15 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -52,6 +52,8 @@ class TurtleParser
       std::string ignored;
       /// The current line
       unsigned line;
+      /// Is a dot that followed a number still to be delivered?
+      bool pendingDot;
 
       /// Size of the read buffer
       static const unsigned readBufferSize = 1024;
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 602fab0..28791fd 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -30,7 +30,7 @@ TurtleParser::Exception::~Exception()
 }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Lexer(istream& in)
-   : in(in),putBack(Eof),line(1),readBufferStart(0),readBufferEnd(0)
+   : in(in),putBack(Eof),line(1),pendingDot(false),readBufferStart(0),readBufferEnd(0)
    // Constructor
 {
 }
@@ -78,10 +78,20 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
             token+=c;
             if (!read(c)) return Integer;
          }
-         if (issep(c)) {
+         if (issep(c)&&(c!='.')) {
             unread();
             return Integer;
          }
+         // A dot that does not continue the number ends the statement
+         if (c=='.') {
+            char d;
+            bool more=read(d);
+            if (more) unread();
+            if ((!more)||(((d<'0')||(d>'9'))&&(d!='e')&&(d!='E'))) {
+               pendingDot=true;
+               return Integer;
+            }
+         }
       }
 
       // Dot?
@@ -306,6 +316,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
       return result;
    }
 
+   // A dot directly after a number?
+   if (pendingDot) {
+      pendingDot=false;
+      return Dot;
+   }
+
    // Read more
    char c;
    while (read(c)) {
-- 
2.43.0


From d0de40bb864e7f962e17af1186c58987331c4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 036/147] fix: TurtleParser rejects data types with the empty
 prefix

---
 rdf3x/src/cts/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 28791fd..db08dcc 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -659,6 +659,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   constructAbsoluteURI(type);
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
-- 
2.43.0


From 46a4bc636abe6e4c75d4355de1c126c45a5357b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 037/147] fix: HttpClient::parse read the port with its colon,
 and colons after the authority as a port

---
 src/trident/utils/httpclient.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index b3f17d9..6a5ead6 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -64,24 +64,19 @@ HttpClient::URL HttpClient::parse(std::string url) {
 
     //Hostname
     advance(protI, protEnd.length());
-    std::string::const_iterator portI = find(protI, url.cend(), ':');
-    std::string::const_iterator pathI;
-    if (portI != url.end()) {
+    //The authority ends where the path or the query starts
+    const std::string authEnd("/?");
+    std::string::const_iterator pathI = find_first_of(protI, url.cend(),
+            authEnd.begin(), authEnd.end());
+    std::string::const_iterator portI = find(protI, pathI, ':');
+    if (portI != pathI) {
         output.host.reserve(distance(protI, portI));
         transform(protI, portI,
                 back_inserter(output.host),
                 ::tolower); // host is icase
         //Parse the port number
-        pathI  = find(protI, url.cend(), '/');
-        std::string sport;
-        sport.reserve(distance(portI, pathI));
-        transform(portI, pathI,
-                back_inserter(sport),
-                ::tolower);
-        output.port = std::stoi(sport);
-
+        output.port = std::stoi(std::string(portI + 1, pathI));
     } else {
-        pathI  = find(protI, url.cend(), '/');
         output.host.reserve(distance(protI, pathI));
         transform(protI, pathI,
                 back_inserter(output.host),
-- 
2.43.0


From 98e79da26acc117e7c957e35851ca31edb883235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 038/147] fix: HttpClient gave up when the size of a chunk
 arrived in pieces

---
 src/trident/utils/httpclient.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index 6a5ead6..6f7dc95 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -168,6 +168,7 @@ bool HttpClient::getResponse(const std::string &request,
         bool isChunked = false;
         size_t sizeChunk = 0;
         size_t currentChunkSize = 0;
+        std::string lineChunk = "";
 
         //Pointers to the buffer
         size_t sizebuffer = 0;
@@ -198,27 +199,30 @@ bool HttpClient::getResponse(const std::string &request,
                         sizebuffer -= remainingSize;
                     } else if (currentChunkSize == sizeChunk) {
                         //Must read the next chunk
-                        if (sizebuffer >= 1 && remaining[0] == '\r') {
+                        if (lineChunk.empty() && remaining[0] == '\r') {
                             remaining++;
                             sizebuffer--;
                         }
-                        if (sizebuffer >= 1 && remaining[0] == '\n') {
+                        if (sizebuffer >= 1 && lineChunk.empty() &&
+                                remaining[0] == '\n') {
                             remaining++;
                             sizebuffer--;
                         }
-                        std::string rest = std::string(remaining, sizebuffer);
-                        auto end = rest.find("\r\n");
-                        if (end == std::string::npos) {
-                            LOG(ERRORL) << "Special case not handled. Must implement it ...";
-                            return false;
+                        //The line with the size might arrive in pieces
+                        while (sizebuffer > 0 && (lineChunk.empty() ||
+                                    lineChunk.back() != '\n')) {
+                            lineChunk += *remaining;
+                            remaining++;
+                            sizebuffer--;
+                        }
+                        if (lineChunk.empty() || lineChunk.back() != '\n') {
+                            break;
                         }
-                        std::string sSizeChunk = rest.substr(0, end);
                         std::stringstream ss; //convert the string to number
-                        ss << std::hex << sSizeChunk;
+                        ss << std::hex << lineChunk;
                         ss >> sizeChunk;
                         currentChunkSize = 0;
-                        remaining += end + 2;
-                        sizebuffer -= end + 2;
+                        lineChunk = "";
                         if (sizeChunk == 0) {
                             return true;
                         }
-- 
2.43.0


From dd01755c16e166cc634f22ca534227b28a8d738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 039/147] fix: HttpClient never returned when the headers of a
 response arrived in pieces

---
 src/trident/utils/httpclient.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index 6f7dc95..f17bd1c 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -236,13 +236,16 @@ bool HttpClient::getResponse(const std::string &request,
             } else if (!processedHeaders) {
                 //Collect headers until '\r\n\r\n'
                 std::string sbuffer = std::string(remaining, sizebuffer);
+                size_t sizeheaders = headers.size();
                 headers += sbuffer;
                 if (headers.find("\r\n\r\n") != std::string::npos) {
                     auto idx = headers.find("\r\n\r\n");
                     headers = headers.substr(0, idx);
-                    remaining += idx + 4;
-                    sizebuffer -= idx + 4;
+                    remaining += idx + 4 - sizeheaders;
+                    sizebuffer -= idx + 4 - sizeheaders;
                     processedHeaders = true;
+                } else {
+                    sizebuffer = 0; //Read more
                 }
                 if (headers.size() > 13) {
                     //Get the response type
-- 
2.43.0


From f95e248ef7b40e691ac7cdd89c4157f5f88a8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 040/147] fix: HttpClient waited for the body of a response
 without one, and misread a Content-Length without blank

---
 src/trident/utils/httpclient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index f17bd1c..c0f0e22 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -273,12 +273,15 @@ bool HttpClient::getResponse(const std::string &request,
                     isChunked = false;
                     //Get the size of the response
                     auto idx = lheaders.find("content-length:");
-                    std::string line = lheaders.substr(idx + 16);
+                    std::string line = lheaders.substr(idx + 15);
                     auto end = line.find("\r\n");
                     std::stringstream ss;
                     ss << line.substr(0, end);
                     ss >> sizeChunk;
                     processBody = true;
+                    if (sizeChunk == 0) {
+                        return true;
+                    }
                 } else if (lheaders.
                         find("transfer-encoding: chunked") !=
                         std::string::npos) {
-- 
2.43.0


From 62060b94b3f87a1b5515cdb24cf6a2a00210edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 041/147] fix: HttpServer only knew one spelling of
 Content-Length, and took it from the body as well

---
 src/trident/utils/httpserver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 25ebdab..96a878d 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -22,14 +22,17 @@ HttpServer::HttpServer(uint32_t port,
     }
 
 uint64_t HttpServer::getMessageBodyLength(std::string& request) {
-    size_t pos = request.find("Content-Length:");
+    //The names of the headers are case insensitive
+    std::string lrequest = request.substr(0, request.find("\r\n\r\n"));
+    std::transform(lrequest.begin(), lrequest.end(), lrequest.begin(), ::tolower);
+    size_t pos = lrequest.find("\r\ncontent-length:");
     if (pos == std::string::npos) {
         // For GET requests, usually message body is not present. Hence Content-Length field can be omitted
         // For POST requests, if message body is not present, then it Content-Length is 0
         return 0;
     }
-    size_t endpos = request.find("\r\n", pos);
-    std::string bodyLen = request.substr(pos + 16, endpos - pos - 16);
+    size_t endpos = lrequest.find("\r\n", pos + 2);
+    std::string bodyLen = lrequest.substr(pos + 17, endpos - pos - 17);
     uint64_t ret = std::stoul(bodyLen);
     return ret;
 }
-- 
2.43.0


From 15c807fb72fabe016c75a61bfd16d5e678f035b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 042/147] fix: HttpServer handed out requests before they had
 arrived completely

---
 src/trident/utils/httpserver.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 96a878d..572b48d 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -60,21 +60,25 @@ void HttpServer::processSocket() {
                 queueWait.push(socket);
             } else {
                 request += std::string(buffer, len);
-                int bodyLength = getMessageBodyLength(request);
-                int pos = request.find("\r\n\r\n");
-                int headerLength = 0;
-                if (pos == std::string::npos) {
-                    LOG(ERRORL) << "FATAL: End of header not found in the request";
-                }else {
-                    headerLength = pos;
+                //Read until the end of the header, and then the entire body
+                size_t pos = request.find("\r\n\r\n");
+                while (pos == std::string::npos) {
+                    len = read(connFd, buffer, 1024);
+                    if (len <= 0) {
+                        LOG(ERRORL) << "FATAL: End of header not found in the request";
+                        throw 10;
+                    }
+                    request += std::string(buffer, len);
+                    pos = request.find("\r\n\r\n");
                 }
-                if (bodyLength > 0) {
-                    int readBuffer = bodyLength - (1024 - headerLength);
-                    while (readBuffer > 0) {
-                        auto len = read(connFd, buffer, 1024);
-                        readBuffer -= len;
-                        request += std::string(buffer, len);
+                uint64_t bodyLength = getMessageBodyLength(request);
+                while (request.size() - pos - 4 < bodyLength) {
+                    len = read(connFd, buffer, 1024);
+                    if (len <= 0) {
+                        LOG(ERRORL) << "FATAL: The body of the request is not complete";
+                        throw 10;
                     }
+                    request += std::string(buffer, len);
                 }
                 std::string response = "";
                 handlerFunction(request, response);
-- 
2.43.0


From 741dac8d56d049218542403a6a0bb0a6f80ae31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 043/147] fix: JSON::read refused integers beyond the range of
 int

---
 src/trident/utils/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trident/utils/json.cpp b/src/trident/utils/json.cpp
index f2a3fa5..a93c52f 100644
--- a/src/trident/utils/json.cpp
+++ b/src/trident/utils/json.cpp
@@ -70,6 +70,10 @@ std::string parse_simpletype(const rapidjson::Value &value) {
     if (value.IsNumber()) {
         if (value.IsInt()) {
             out = std::to_string(value.GetInt());
+        } else if (value.IsInt64()) {
+            out = std::to_string(value.GetInt64());
+        } else if (value.IsUint64()) {
+            out = std::to_string(value.GetUint64());
         } else if (value.IsDouble()) {
             out = std::to_string(value.GetDouble());
         } else {
-- 
2.43.0


From df0f674e3a7becc30d93cf1e263aa9b4ef4eff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 044/147] fix: JSON::read cut strings at a NUL character

---
 src/trident/utils/json.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trident/utils/json.cpp b/src/trident/utils/json.cpp
index a93c52f..b694614 100644
--- a/src/trident/utils/json.cpp
+++ b/src/trident/utils/json.cpp
@@ -81,7 +81,7 @@ std::string parse_simpletype(const rapidjson::Value &value) {
             throw 10;
         }
     } else if (value.IsString()) {
-        out = value.GetString();
+        out = std::string(value.GetString(), value.GetStringLength());
     } else if (value.IsBool()) {
         out = std::to_string(value.GetBool());
     } else if (value.IsNull()) {
@@ -102,7 +102,8 @@ void parse_value(const rapidjson::Value &src, JSON &dest) {
     if (src.IsObject()) {
         for (rapidjson::Value::ConstMemberIterator itr = src.MemberBegin();
                 itr != src.MemberEnd(); ++itr) {
-            std::string name = itr->name.GetString();
+            std::string name(itr->name.GetString(),
+                    itr->name.GetStringLength());
             //Could be JSON or string-like element
             if (itr->value.IsObject()) {
                 JSON child;
-- 
2.43.0


From 3c94711dffdbdae1191e2578eb3788ae1b329e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 045/147] fix: ParallelTasks::parallel_for started at 0 instead
 of begin

---
 include/trident/utils/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/utils/parallel.h b/include/trident/utils/parallel.h
index c0b6a24..ebfeb65 100644
--- a/include/trident/utils/parallel.h
+++ b/include/trident/utils/parallel.h
@@ -148,8 +148,8 @@ class ParallelTasks {
                 assert(nthreads >= 1);
                 const size_t delta = std::max(grainsize, (size_t) (end - begin + nthreads - 1) / nthreads);
                 std::vector<std::future<void>> threads;
-                size_t currentbegin = 0;
-                size_t currentend = 0;
+                size_t currentbegin = begin;
+                size_t currentend = begin;
                 for (size_t i = 0; i < nthreads && currentend < end; ++i) {
                     currentbegin = currentend;
                     currentend = currentbegin + delta;
-- 
2.43.0


From 580f5deb10b084f1583704894476d912807e5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 046/147] fix: TVec::Pack leaves an empty vector with a
 capacity it no longer has

---
 snap/glib-core/ds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index f02473c..688f6c5 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -916,6 +916,7 @@ void TVec<TVal, TSizeTy>::Pack(){
   IAssertR(MxVals!=-1, "This vector was obtained from TVecPool. Such vectors cannot change its size!");
   if (Vals==0){
     if (ValT!=NULL){delete[] ValT;} ValT=NULL;
+    MxVals=0;
   } else
     if (Vals<MxVals){
       MxVals=Vals;
-- 
2.43.0


From 8dc5f0e75a08ef1987e9b7a9b14efba53d5811e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 047/147] fix: TNEGraph::DelEdge(SrcNId, DstNId) leaves
 parallel edges in the edge table and never ends on a reversed edge

---
 snap/snap-core/graph.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index e6132dd..ddf2641 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -538,10 +538,8 @@ void TNEGraph::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir)
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir)); // there is at least one edge
   while (IsEdge(SrcNId, DstNId, EId, IsDir)) {
-    GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-    GetNode(DstNId).InEIdV.DelIfIn(EId);
+    DelEdge(EId);
   }
-  EdgeH.DelKey(EId);
 }
 
 bool TNEGraph::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
-- 
2.43.0


From f9eb568345686c6beddaaede405d68448d97422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 048/147] fix: TNodeEdgeNet::DelEdge leaves a reversed edge in
 the lists of its end nodes

---
 snap/snap-core/network.h | 6882 +++++++++++++++++++-------------------
 1 file changed, 3440 insertions(+), 3442 deletions(-)

diff --git a/snap/snap-core/network.h b/snap/snap-core/network.h
index a1dd505..52cf788 100644
--- a/snap/snap-core/network.h
+++ b/snap/snap-core/network.h
@@ -1,3442 +1,3440 @@
-#ifndef NETWORK_H
-#define NETWORK_H
-
-/////////////////////////////////////////////////
-// Node Data
-// TNodeData has to implement the following methods:
-//  class TNodeData {
-//  public:
-//    TNodeData() { }
-//    TNodeData(TSIn& SIn) { }
-//    void Save(TSOut& SOut) const { }
-//  };
-
-//#//////////////////////////////////////////////
-/// Node Network (directed graph, TNGraph with data on nodes only).
-template <class TNodeData>
-class TNodeNet {
-public:
-  typedef TNodeData TNodeDat;
-  typedef TNodeNet<TNodeData> TNet;
-  typedef TPt<TNet> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TNodeData NodeDat;
-    TIntV InNIdV, OutNIdV;
-  public:
-    TNode() : Id(-1), NodeDat(), InNIdV(), OutNIdV() { }
-    TNode(const int& NId) : Id(NId), NodeDat(), InNIdV(), OutNIdV() { }
-    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), NodeDat(NodeData), InNIdV(), OutNIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), NodeDat(Node.NodeDat), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), NodeDat(SIn), InNIdV(SIn), OutNIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut);  NodeDat.Save(SOut);  InNIdV.Save(SOut);  OutNIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InNIdV.Len(); }
-    int GetOutDeg() const { return OutNIdV.Len(); }
-    const TNodeData& GetDat() const { return NodeDat; }
-    TNodeData& GetDat() { return NodeDat; }
-    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
-    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
-    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg() ? GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
-    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
-    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
-    friend class TNodeNet<TNodeData>;
-  };
-
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef typename THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-    TNodeNet *Net;
-  public:
-    TNodeI() : NodeHI(), Net(NULL) { }
-    TNodeI(const THashIter& NodeHIter, const TNodeNet* NetPt) : NodeHI(NodeHIter), Net((TNodeNet *) NetPt) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI=NodeI.NodeHI; Net=NodeI.Net; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++;  return *this; }
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNodeNet::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNodeNet::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TNodeNet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    const TNodeData& operator () () const { return NodeHI.GetDat().NodeDat; }
-    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
-    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetInNDat(const int& NodeN) const { return Net->GetNDat(GetInNId(NodeN)); }
-    TNodeData& GetInNDat(const int& NodeN) { return Net->GetNDat(GetInNId(NodeN)); }
-    const TNodeData& GetOutNDat(const int& NodeN) const { return Net->GetNDat(GetOutNId(NodeN)); }
-    TNodeData& GetOutNDat(const int& NodeN) { return Net->GetNDat(GetOutNId(NodeN)); }
-    const TNodeData& GetNbrNDat(const int& NodeN) const { return Net->GetNDat(GetNbrNId(NodeN)); }
-    TNodeData& GetNbrNDat(const int& NodeN) { return Net->GetNDat(GetNbrNId(NodeN)); }
-    friend class TNodeNet<TNodeData>;
-  };
-
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode;  EndNode=EdgeI.EndNode;  CurEdge=EdgeI.CurEdge; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0;  CurNode++;
-      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Gets the source node of an edge.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Gets the destination node of an edge.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    const TNodeData& GetSrcNDat() const { return CurNode.GetDat(); }
-    TNodeData& GetDstNDat() { return CurNode.GetOutNDat(CurEdge); }
-    friend class TNodeNet<TNodeData>;
-  };
-
-protected:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-
-protected:
-  TCRef CRef;
-  TInt MxNId;
-  THash<TInt, TNode> NodeH;
-
-public:
-  TNodeNet() : CRef(), MxNId(0), NodeH() { }
-  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
-  explicit TNodeNet(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
-  TNodeNet(const TNodeNet& NodeNet) : MxNId(NodeNet.MxNId), NodeH(NodeNet.NodeH) { }
-  /// Constructor that loads the network from a (binary) stream SIn.
-  TNodeNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
-  virtual ~TNodeNet() { }
-  /// Saves the network to a (binary) stream SOut.
-  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeNet<TNodeData> > Net = TNodeNet<TNodeData>::New().
-  static PNet New() { return PNet(new TNodeNet()); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
-  static PNet Load(TSIn& SIn) { return PNet(new TNodeNet(SIn)); }
-  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TNodeNet& operator = (const TNodeNet& NodeNet) {
-    if (this!=&NodeNet) { NodeH=NodeNet.NodeH;  MxNId=NodeNet.MxNId; }  return *this; }
-  // nodes
-  /// Returns the number of nodes in the network.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the network. ##TNodeNet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NId and node data NodeDat to the network. ##TNodeNet::AddNode-1
-  int AddNode(int NId, const TNodeData& NodeDat);
-  /// Adds a node NodeI and its node data to the network.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
-  /// Deletes node of ID NId from the network. ##TNodeNet::DelNode
-  virtual void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the network.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the network.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end node in the network.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
-  /// Returns an iterator referring to the node of ID NId in the network.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
-  /// Returns node element for the node of ID NId in the network.
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  /// Sets node data for the node of ID NId in the network.
-  void SetNDat(const int& NId, const TNodeData& NodeDat);
-  /// Returns node data for the node of ID NId in the network.
-  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns node data for the node of ID NId in the network.
-  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-
-  // edges
-  /// Returns the number of edges in the network.
-  int GetEdges() const;
-  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TNodeNet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the network.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeNet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
-  /// Returns an iterator referring to the first edge in the network.
-  TEdgeI BegEI() const { TNodeI NI=BegNI();  while(NI<EndNI() && NI.GetOutDeg()==0) NI++;  return TEdgeI(NI, EndNI()); }
-  /// Returns an iterator referring to the past-the-end edge in the network.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const;
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-
-  /// Returns an ID of a random node in the network.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the network.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the network.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the network is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the network.
-  void Clr(const bool& DoDel=true, const bool& ResetDat=true) {
-    MxNId = 0;  NodeH.Clr(DoDel, -1, ResetDat); }
-  /// Reserves memory for a network of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
-  /// Sorts nodes by node IDs.
-  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
-  /// Sorts nodes by node data.
-  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
-  /// Defragments the network. ##TNodeNet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the network data structure for internal consistency. ##TNodeNet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-
-  friend class TPt<TNodeNet<TNodeData> >;
-};
-
-// set flags
-namespace TSnap {
-template <class TNodeData> struct IsDirected<TNodeNet<TNodeData> > { enum { Val = 1 }; };
-template <class TNodeData> struct IsNodeDat<TNodeNet<TNodeData> > { enum { Val = 1 }; };
-}
-
-template <class TNodeData>
-bool TNodeNet<TNodeData>::HasFlag(const TGraphFlag& Flag) const {
-  return HasGraphFlag(typename TNet, Flag);
-}
-
-template <class TNodeData>
-int TNodeNet<TNodeData>::AddNode(int NId) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId));
-  return NId;
-}
-
-template <class TNodeData>
-int TNodeNet<TNodeData>::AddNode(int NId, const TNodeData& NodeDat) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId, NodeDat));
-  return NId;
-}
-
-template <class TNodeData>
-void TNodeNet<TNodeData>::DelNode(const int& NId) {
-  { TNode& Node = GetNode(NId);
-  for (int e = 0; e < Node.GetOutDeg(); e++) {
-  const int nbr = Node.GetOutNId(e);
-  if (nbr == NId) { continue; }
-    TNode& N = GetNode(nbr);
-    int n = N.InNIdV.SearchBin(NId);
-    if (n!= -1) { N.InNIdV.Del(n); }
-  }
-  for (int e = 0; e < Node.GetInDeg(); e++) {
-  const int nbr = Node.GetInNId(e);
-  if (nbr == NId) { continue; }
-    TNode& N = GetNode(nbr);
-    int n = N.OutNIdV.SearchBin(NId);
-    if (n!= -1) { N.OutNIdV.Del(n); }
-  } }
-  NodeH.DelKey(NId);
-}
-
-template <class TNodeData>
-void TNodeNet<TNodeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
-  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
-  NodeH.GetDat(NId).NodeDat = NodeDat;
-}
-
-template <class TNodeData>
-int TNodeNet<TNodeData>::GetEdges() const {
-  int edges=0;
-  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N);) {
-    edges+=NodeH[N].GetOutDeg(); }
-  return edges;
-}
-
-template <class TNodeData>
-int TNodeNet<TNodeData>::AddEdge(const int& SrcNId, const int& DstNId) {
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  if (IsEdge(SrcNId, DstNId)) { return -2; }
-  GetNode(SrcNId).OutNIdV.AddSorted(DstNId);
-  GetNode(DstNId).InNIdV.AddSorted(SrcNId);
-  return -1; // edge id
-}
-
-template <class TNodeData>
-void TNodeNet<TNodeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  GetNode(SrcNId).OutNIdV.DelIfIn(DstNId);
-  GetNode(DstNId).InNIdV.DelIfIn(SrcNId);
-  if (! IsDir) {
-    GetNode(DstNId).OutNIdV.DelIfIn(SrcNId);
-    GetNode(SrcNId).InNIdV.DelIfIn(DstNId);
-  }
-}
-
-template <class TNodeData>
-bool TNodeNet<TNodeData>::IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) const {
-  if (! IsNode(SrcNId) || ! IsNode(DstNId)) { return false; }
-  if (IsDir) { return GetNode(SrcNId).IsOutNId(DstNId); }
-  else { return GetNode(SrcNId).IsOutNId(DstNId) || GetNode(DstNId).IsOutNId(SrcNId); }
-}
-
-template <class TNodeData>
-void TNodeNet<TNodeData>::GetNIdV(TIntV& NIdV) const {
-  NIdV.Reserve(GetNodes(), 0);
-  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    NIdV.Add(NodeH.GetKey(N)); }
-}
-
-template <class TNodeData>
-typename TNodeNet<TNodeData>::TEdgeI  TNodeNet<TNodeData>::GetEI(const int& SrcNId, const int& DstNId) const {
-  const TNodeI SrcNI = GetNI(SrcNId);
-  const int NodeN = SrcNI.NodeHI.GetDat().OutNIdV.SearchBin(DstNId);
-  if (NodeN == -1) { return EndEI(); }
-  return TEdgeI(SrcNI, EndNI(), NodeN);
-}
-
-template <class TNodeData>
-void TNodeNet<TNodeData>::Defrag(const bool& OnlyNodeLinks) {
-  for (int n = NodeH.FFirstKeyId(); NodeH.FNextKeyId(n); ) {
-    TNode& Node = NodeH[n];
-    Node.InNIdV.Pack();  Node.OutNIdV.Pack();
-  }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
-    NodeH.Defrag(); }
-}
-
-template <class TNodeData>
-bool TNodeNet<TNodeData>::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = true;
-  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    const TNode& Node = NodeH[N];
-    if (! Node.OutNIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("Out-neighbor list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    if (! Node.InNIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("In-neighbor list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    // check out-edges
-    int prevNId = -1;
-    for (int e = 0; e < Node.GetOutDeg(); e++) {
-      if (! IsNode(Node.GetOutNId(e))) {
-        const TStr Msg = TStr::Fmt("Out-edge %d --> %d: node %d does not exist.",
-          Node.GetId(), Node.GetOutNId(e), Node.GetOutNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevNId == Node.GetOutNId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge %d --> %d.",
-          Node.GetId(), Node.GetId(), Node.GetOutNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevNId = Node.GetOutNId(e);
-    }
-    // check in-edges
-    prevNId = -1;
-    for (int e = 0; e < Node.GetInDeg(); e++) {
-      if (! IsNode(Node.GetInNId(e))) {
-        const TStr Msg = TStr::Fmt("In-edge %d <-- %d: node %d does not exist.",
-          Node.GetId(), Node.GetInNId(e), Node.GetInNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevNId == Node.GetInNId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate in-edge %d <-- %d.",
-          Node.GetId(), Node.GetId(), Node.GetInNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevNId = Node.GetInNId(e);
-    }
-  }
-  return RetVal;
-}
-
-/////////////////////////////////////////////////
-// Common network types
-typedef TNodeNet<TInt> TIntNNet;
-typedef TPt<TIntNNet> PIntNNet;
-typedef TNodeNet<TFlt> TFltNNet;
-typedef TPt<TFltNNet> PFltNNet;
-typedef TNodeNet<TStr> TStrNNet;
-typedef TPt<TStrNNet> PStrNNet;
-
-//#//////////////////////////////////////////////
-/// Node Edge Network (directed graph, TNGraph with data on nodes and edges).
-template <class TNodeData, class TEdgeData>
-class TNodeEDatNet {
-public:
-  typedef TNodeData TNodeDat;
-  typedef TEdgeData TEdgeDat;
-  typedef TNodeEDatNet<TNodeData, TEdgeData> TNet;
-  typedef TPt<TNet> PNet;
-  typedef TVec<TPair<TInt, TEdgeData> > TNIdDatPrV;
-public:
-  class TNode {
-  private:
-    TInt  Id;
-    TNodeData NodeDat;
-    TIntV InNIdV;
-    TNIdDatPrV OutNIdV;
-  public:
-    TNode() : Id(-1), NodeDat(), InNIdV(), OutNIdV() { }
-    TNode(const int& NId) : Id(NId), NodeDat(), InNIdV(), OutNIdV() { }
-    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), NodeDat(NodeData), InNIdV(), OutNIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), NodeDat(Node.NodeDat), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), NodeDat(SIn), InNIdV(SIn), OutNIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut);  NodeDat.Save(SOut);  InNIdV.Save(SOut);  OutNIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InNIdV.Len(); }
-    int GetOutDeg() const { return OutNIdV.Len(); }
-    const TNodeData& GetDat() const { return NodeDat; }
-    TNodeData& GetDat() { return NodeDat; }
-    int GetInNId(const int& EdgeN) const { return InNIdV[EdgeN]; }
-    int GetOutNId(const int& EdgeN) const { return OutNIdV[EdgeN].Val1; }
-    int GetNbrNId(const int& EdgeN) const { return EdgeN<GetOutDeg() ? GetOutNId(EdgeN):GetInNId(EdgeN-GetOutDeg()); }
-    TEdgeData& GetOutEDat(const int& EdgeN) { return OutNIdV[EdgeN].Val2; }
-    const TEdgeData& GetOutEDat(const int& EdgeN) const { return OutNIdV[EdgeN].Val2; }
-    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId)!=-1; }
-    bool IsOutNId(const int& NId) const { return TNodeEDatNet::GetNIdPos(OutNIdV, NId)!=-1; }
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
-    friend class TNodeEDatNet<TNodeData, TEdgeData>;
-  };
-
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef typename THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-    TNodeEDatNet *Net;
-  public:
-    TNodeI() : NodeHI(), Net(NULL) { }
-    TNodeI(const THashIter& NodeHIter, const TNodeEDatNet* NetPt) : NodeHI(NodeHIter), Net((TNodeEDatNet *) NetPt) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI=NodeI.NodeHI; Net=NodeI.Net; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++;  return *this; }
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNodeEDatNet::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNodeEDatNet::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TNodeEDatNet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    // node data
-    const TNodeData& operator () () const { return NodeHI.GetDat().NodeDat; }
-    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
-    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetOutNDat(const int& NodeN) const { return Net->GetNDat(GetOutNId(NodeN)); }
-    TNodeData& GetOutNDat(const int& NodeN) { return Net->GetNDat(GetOutNId(NodeN)); }
-    const TNodeData& GetInNDat(const int& NodeN) const { return Net->GetNDat(GetInNId(NodeN)); }
-    TNodeData& GetInNDat(const int& NodeN) { return Net->GetNDat(GetInNId(NodeN)); }
-    const TNodeData& GetNbrNDat(const int& NodeN) const { return Net->GetNDat(GetNbrNId(NodeN)); }
-    TNodeData& GetNbrNDat(const int& NodeN) { return Net->GetNDat(GetNbrNId(NodeN)); }
-    // edge data
-    TEdgeData& GetOutEDat(const int& EdgeN) { return NodeHI.GetDat().GetOutEDat(EdgeN); }
-    const TEdgeData& GetOutEDat(const int& EdgeN) const { return NodeHI.GetDat().GetOutEDat(EdgeN); }
-    TEdgeData& GetInEDat(const int& EdgeN) { return Net->GetEDat(GetInNId(EdgeN), GetId()); }
-    const TEdgeData& GetInEDat(const int& EdgeN) const { return Net->GetEDat(GetInNId(EdgeN), GetId()); }
-    TEdgeData& GetNbrEDat(const int& EdgeN) { return EdgeN<GetOutDeg() ? GetOutEDat(EdgeN) : GetInEDat(EdgeN-GetOutDeg()); }
-    const TEdgeData& GetNbrEDat(const int& EdgeN) const { return EdgeN<GetOutDeg() ? GetOutEDat(EdgeN) : GetInEDat(EdgeN-GetOutDeg()); }
-    friend class TNodeEDatNet<TNodeData, TEdgeData>;
-  };
-
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode;  EndNode=EdgeI.EndNode;  CurEdge=EdgeI.CurEdge; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0;  CurNode++;
-      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Gets the source node of an edge.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Gets the destination node of an edge.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    TEdgeData& operator () () { return CurNode.GetOutEDat(CurEdge); }
-    const TEdgeData& operator () () const { return CurNode.GetOutEDat(CurEdge); }
-    TEdgeData& GetDat() { return CurNode.GetOutEDat(CurEdge); }
-    const TEdgeData& GetDat() const { return CurNode.GetOutEDat(CurEdge); }
-    TNodeData& GetSrcNDat() { return CurNode(); }
-    const TNodeData& GetSrcNDat() const { return CurNode(); }
-    TNodeData& GetDstNDat() { return CurNode.GetOutNDat(CurEdge); }
-    const TNodeData& GetDstNDat() const { return CurNode.GetOutNDat(CurEdge); }
-    friend class TNodeEDatNet<TNodeData, TEdgeData>;
-  };
-
-protected:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  static int GetNIdPos(const TVec<TPair<TInt, TEdgeData> >& NIdV, const int& NId);
-protected:
-  TCRef CRef;
-  TInt MxNId;
-  THash<TInt, TNode> NodeH;
-public:
-  TNodeEDatNet() : CRef(), MxNId(0), NodeH() { }
-  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
-  explicit TNodeEDatNet(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
-  TNodeEDatNet(const TNodeEDatNet& NodeNet) : MxNId(NodeNet.MxNId), NodeH(NodeNet.NodeH) { }
-  /// Constructor that loads the network from a (binary) stream SIn.
-  TNodeEDatNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
-  virtual ~TNodeEDatNet() { }
-  /// Saves the network to a (binary) stream SOut.
-  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeEDatNet<TNodeData, TEdgeData> > Net = TNodeEDatNet<TNodeData, TEdgeData>::New().
-  static PNet New() { return PNet(new TNet()); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
-  static PNet Load(TSIn& SIn) { return PNet(new TNet(SIn)); }
-  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TNodeEDatNet& operator = (const TNodeEDatNet& NodeNet) { if (this!=&NodeNet) {
-    NodeH=NodeNet.NodeH;  MxNId=NodeNet.MxNId; }  return *this; }
-  // nodes
-  /// Returns the number of nodes in the network.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the network. ##TNodeEDatNet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NId and node data NodeDat to the network. ##TNodeEDatNet::AddNode-1
-  int AddNode(int NId, const TNodeData& NodeDat);
-  /// Adds a node NodeI and its node data to the network.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
-  /// Deletes node of ID NId from the network. ##TNodeEDatNet::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the network.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the network.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end node in the network.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
-  /// Returns an iterator referring to the node of ID NId in the network.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
-  /// Returns node element for the node of ID NId in the network.
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  /// Sets node data for the node of ID NId in the network.
-  void SetNDat(const int& NId, const TNodeData& NodeDat);
-  /// Returns node data for the node of ID NId in the network.
-  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns node data for the node of ID NId in the network.
-  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-
-  // edges
-  /// Returns the number of edges in the network.
-  int GetEdges() const;
-  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TNodeEDatNet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge and edge data from node IDs SrcNId to node DstNId. ##TNodeEDatNet::AddEdge-1
-  int AddEdge(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat);
-  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() and its edge data to the network.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI()); }
-  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeEDatNet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
-  /// Returns an iterator referring to the first edge in the network.
-  TEdgeI BegEI() const { TNodeI NI=BegNI();  while(NI<EndNI() && NI.GetOutDeg()==0) NI++; return TEdgeI(NI, EndNI()); }
-  /// Returns an iterator referring to the past-the-end edge in the network.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const; // not supported
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-  /// Sets edge data for the edge between nodes SrcNId and DstNId in the network.
-  void SetEDat(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat);
-  /// Returns edge data in Data for the edge from node IDs SrcNId to DstNId. ##TNodeEDatNet::GetEDat
-  bool GetEDat(const int& SrcNId, const int& DstNId, TEdgeData& EdgeDat) const;
-  /// Returns edge data for the edge from node IDs SrcNId to DstNId.
-  TEdgeData& GetEDat(const int& SrcNId, const int& DstNId);
-  /// Returns edge data for the edge from node IDs SrcNId to DstNId.
-  const TEdgeData& GetEDat(const int& SrcNId, const int& DstNId) const;
-  /// Sets edge data for all the edges in the network to EDat.
-  void SetAllEDat(const TEdgeData& EdgeDat);
-
-  /// Returns an ID of a random node in the network.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the network.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the network.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the network is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the network.
-  void Clr(const bool& DoDel=true, const bool& ResetDat=true) {
-    MxNId = 0;  NodeH.Clr(DoDel, -1, ResetDat); }
-  /// Reserves memory for a network of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
-  /// Sorts nodes by node IDs.
-  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
-  /// Sorts nodes by node data.
-  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
-  /// Defragments the network. ##TNodeEDatNet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the network data structure for internal consistency. ##TNodeEDatNet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-
-  friend class TPt<TNodeEDatNet<TNodeData, TEdgeData> >;
-};
-
-// set flags
-namespace TSnap {
-template <class TNodeData, class TEdgeData> struct IsDirected<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-template <class TNodeData, class TEdgeData> struct IsNodeDat<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-template <class TNodeData, class TEdgeData> struct IsEdgeDat<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEDatNet<TNodeData, TEdgeData>::HasFlag(const TGraphFlag& Flag) const {
-  return HasGraphFlag(typename TNet, Flag);
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::GetNIdPos(const TVec<TPair<TInt, TEdgeData> >& NIdV, const int& NId) {
-  int LValN=0, RValN = NIdV.Len()-1;
-  while (RValN >= LValN) {
-    const int ValN = (LValN+RValN)/2;
-    const int CurNId = NIdV[ValN].Val1;
-    if (NId == CurNId) { return ValN; }
-    if (NId < CurNId) { RValN=ValN-1; }
-    else { LValN=ValN+1; }
-  }
-  return -1;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::AddNode(int NId) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId));
-  return NId;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::AddNode(int NId, const TNodeData& NodeDat) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId, NodeDat));
-  return NId;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
-  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
-  NodeH.GetDat(NId).NodeDat = NodeDat;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::DelNode(const int& NId) {
-  const TNode& Node = GetNode(NId);
-  for (int out = 0; out < Node.GetOutDeg(); out++) {
-    const int nbr = Node.GetOutNId(out);
-    if (nbr == NId) { continue; }
-    TIntV& NIdV = GetNode(nbr).InNIdV;
-    const int pos = NIdV.SearchBin(NId);
-    if (pos != -1) { NIdV.Del(pos); }
-  }
-  for (int in = 0; in < Node.GetInDeg(); in++) {
-    const int nbr = Node.GetInNId(in);
-    if (nbr == NId) { continue; }
-    TNIdDatPrV& NIdDatV = GetNode(nbr).OutNIdV;
-    const int pos = GetNIdPos(NIdDatV, NId);
-    if (pos != -1) { NIdDatV.Del(pos); }
-  }
-  NodeH.DelKey(NId);
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::GetEdges() const {
-  int edges=0;
-  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    edges+=NodeH[N].GetOutDeg(); }
-  return edges;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId) {
-  return AddEdge(SrcNId, DstNId, TEdgeData());
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEDatNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat) {
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  //IAssert(! IsEdge(SrcNId, DstNId));
-  if (IsEdge(SrcNId, DstNId)) {
-    GetEDat(SrcNId, DstNId) = EdgeDat;
-    return -2;
-  }
-  GetNode(SrcNId).OutNIdV.AddSorted(TPair<TInt, TEdgeData>(DstNId, EdgeDat));
-  GetNode(DstNId).InNIdV.AddSorted(SrcNId);
-  return -1; // edge id
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  int pos = GetNIdPos(GetNode(SrcNId).OutNIdV, DstNId);
-  if (pos != -1) { GetNode(SrcNId).OutNIdV.Del(pos); }
-  pos = GetNode(DstNId).InNIdV.SearchBin(SrcNId);
-  if (pos != -1) { GetNode(DstNId).InNIdV.Del(pos); }
-  if (! IsDir) {
-    pos = GetNIdPos(GetNode(DstNId).OutNIdV, SrcNId);
-    if (pos != -1) { GetNode(DstNId).OutNIdV.Del(pos); }
-    pos = GetNode(SrcNId).InNIdV.SearchBin(DstNId);
-    if (pos != -1) { GetNode(SrcNId).InNIdV.Del(pos); }
-  }
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEDatNet<TNodeData, TEdgeData>::IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) const {
-  if (! IsNode(SrcNId) || ! IsNode(DstNId)) { return false; }
-  if (IsDir) { return GetNode(SrcNId).IsOutNId(DstNId); }
-  else { return GetNode(SrcNId).IsOutNId(DstNId) || GetNode(DstNId).IsOutNId(SrcNId); }
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::SetEDat(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat) {
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  IAssertR(IsEdge(SrcNId, DstNId), TStr::Fmt("Edge between %d and %d does not exist.", SrcNId, DstNId).CStr());
-  GetEDat(SrcNId, DstNId) = EdgeDat;
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId, TEdgeData& EdgeDat) const {
-  if (! IsEdge(SrcNId, DstNId)) { return false; }
-  const TNode& N = GetNode(SrcNId);
-  EdgeDat = N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
-  return true;
-}
-
-template <class TNodeData, class TEdgeData>
-TEdgeData& TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId) {
-  Assert(IsEdge(SrcNId, DstNId));
-  TNode& N = GetNode(SrcNId);
-  return N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
-}
-
-template <class TNodeData, class TEdgeData>
-const TEdgeData& TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId) const {
-  Assert(IsEdge(SrcNId, DstNId));
-  const TNode& N = GetNode(SrcNId);
-  return N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::SetAllEDat(const TEdgeData& EdgeDat) {
-  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
-    EI() = EdgeDat;
-  }
-}
-
-template <class TNodeData, class TEdgeData>
-typename TNodeEDatNet<TNodeData, TEdgeData>::TEdgeI  TNodeEDatNet<TNodeData, TEdgeData>::GetEI(const int& SrcNId, const int& DstNId) const {
-  const TNodeI SrcNI = GetNI(SrcNId);
-  int NodeN = -1;
-  //SrcNI.NodeHI.GetDat().OutNIdV.SearchBin(DstNId);
-  const TNIdDatPrV& NIdDatV = SrcNI.NodeHI.GetDat().OutNIdV;
-  int LValN=0, RValN=NIdDatV.Len()-1;
-  while (RValN>=LValN){
-    int ValN=(LValN+RValN)/2;
-    if (DstNId==NIdDatV[ValN].Val1){ NodeN=ValN; break; }
-    if (DstNId<NIdDatV[ValN].Val1){RValN=ValN-1;} else {LValN=ValN+1;}
-  }
-  if (NodeN == -1) { return EndEI(); }
-  else { return TEdgeI(SrcNI, EndNI(), NodeN); }
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::GetNIdV(TIntV& NIdV) const {
-  NIdV.Reserve(GetNodes(), 0);
-  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    NIdV.Add(NodeH.GetKey(N)); }
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEDatNet<TNodeData, TEdgeData>::Defrag(const bool& OnlyNodeLinks) {
-  for (int n = NodeH.FFirstKeyId(); NodeH.FNextKeyId(n);) {
-    TNode& Node = NodeH[n];
-    Node.InNIdV.Pack();  Node.OutNIdV.Pack();
-  }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
-    NodeH.Defrag();
-  }
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEDatNet<TNodeData, TEdgeData>::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = true;
-  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    const TNode& Node = NodeH[N];
-    if (! Node.OutNIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("Out-neighbor list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    if (! Node.InNIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("In-neighbor list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    // check out-edges
-    int prevNId = -1;
-    for (int e = 0; e < Node.GetOutDeg(); e++) {
-      if (! IsNode(Node.GetOutNId(e))) {
-        const TStr Msg = TStr::Fmt("Out-edge %d --> %d: node %d does not exist.",
-          Node.GetId(), Node.GetOutNId(e), Node.GetOutNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevNId == Node.GetOutNId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge %d --> %d.",
-          Node.GetId(), Node.GetId(), Node.GetOutNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevNId = Node.GetOutNId(e);
-    }
-    // check in-edges
-    prevNId = -1;
-    for (int e = 0; e < Node.GetInDeg(); e++) {
-      if (! IsNode(Node.GetInNId(e))) {
-        const TStr Msg = TStr::Fmt("In-edge %d <-- %d: node %d does not exist.",
-          Node.GetId(), Node.GetInNId(e), Node.GetInNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevNId == Node.GetInNId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate in-edge %d <-- %d.",
-          Node.GetId(), Node.GetId(), Node.GetInNId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevNId = Node.GetInNId(e);
-    }
-  }
-  return RetVal;
-}
-
-/////////////////////////////////////////////////
-// Common network types
-typedef TNodeEDatNet<TInt, TInt> TIntNEDNet;
-typedef TPt<TIntNEDNet> PIntNEDNet;
-typedef TNodeEDatNet<TInt, TFlt> TIntFltNEDNet;
-typedef TPt<TIntFltNEDNet> PIntFltNEDNet;
-typedef TNodeEDatNet<TStr, TInt> TStrIntNEDNet;
-typedef TPt<TStrIntNEDNet> PStrIntNEDNet;
-
-//#//////////////////////////////////////////////
-/// Node Edge Network (directed multigraph, TNEGraph with data on nodes and edges).
-template <class TNodeData, class TEdgeData>
-class TNodeEdgeNet {
-public:
-  typedef TNodeData TNodeDat;
-  typedef TEdgeData TEdgeDat;
-  typedef TNodeEdgeNet<TNodeData, TEdgeData> TNet;
-  typedef TPt<TNet> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV InEIdV, OutEIdV;
-    TNodeData NodeDat;
-  public:
-    TNode() : Id(-1), InEIdV(), OutEIdV(), NodeDat() { }
-    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV(), NodeDat()  { }
-    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), InEIdV(), OutEIdV(), NodeDat(NodeData) { }
-    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV), NodeDat(Node.NodeDat) { }
-    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn), NodeDat(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut);  InEIdV.Save(SOut);  OutEIdV.Save(SOut);  NodeDat.Save(SOut); }
-    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InEIdV.Len(); }
-    int GetOutDeg() const { return OutEIdV.Len(); }
-    const TNodeData& GetDat() const { return NodeDat; }
-    TNodeData& GetDat() { return NodeDat; }
-    int GetInEId(const int& NodeN) const { return InEIdV[NodeN]; }
-    int GetOutEId(const int& NodeN) const { return OutEIdV[NodeN]; }
-    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
-    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
-    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
-    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
-    friend class TNodeEdgeNet<TNodeData, TEdgeData>;
-  };
-
-  class TEdge {
-  private:
-    TInt Id, SrcNId, DstNId;
-    TEdgeData EdgeDat;
-  public:
-    TEdge() : Id(-1), SrcNId(-1), DstNId(-1), EdgeDat() { }
-    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId), EdgeDat() { }
-    TEdge(const int& EId, const int& SourceNId, const int& DestNId, const TEdgeData& EdgeData) : Id(EId), SrcNId(SourceNId), DstNId(DestNId), EdgeDat(EdgeData) { }
-    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId), EdgeDat(Edge.EdgeDat) { }
-    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn), EdgeDat(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut);  SrcNId.Save(SOut);  DstNId.Save(SOut);  EdgeDat.Save(SOut); }
-    bool operator < (const TEdge& Edge) const { return EdgeDat < Edge.EdgeDat; }
-    int GetId() const { return Id; }
-    int GetSrcNId() const { return SrcNId; }
-    int GetDstNId() const { return DstNId; }
-    const TEdgeData& GetDat() const { return EdgeDat; }
-    TEdgeData& GetDat() { return EdgeDat; }
-    friend class TNodeEdgeNet;
-  };
-
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef typename THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-    TNodeEdgeNet *Net;
-  public:
-    TNodeI() : NodeHI(), Net(NULL) { }
-    TNodeI(const THashIter& NodeHIter, const TNodeEdgeNet* NetPt) : NodeHI(NodeHIter), Net((TNodeEdgeNet *)NetPt) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI;  Net=NodeI.Net;  return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++;  return *this; }
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node, the sum of in-degree and out-degree.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNodeEdgeNet::TNodeI::GetInNId
-    int GetInNId(const int& EdgeN) const { return Net->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
-    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNodeEdgeNet::TNodeI::GetOutNId
-    int GetOutNId(const int& EdgeN) const { return Net->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
-    /// Returns ID of EdgeN-th neighboring node. ##TNodeEdgeNet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Net->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN));
-      return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const;
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const;
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    // node data
-    const TNodeData& operator () () const { return NodeHI.GetDat().GetDat(); }
-    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
-    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
-    const TNodeData& GetInNDat(const int& EdgeN) const { return Net->GetNDat(GetInNId(EdgeN)); }
-    TNodeData& GetInNDat(const int& EdgeN) { return Net->GetNDat(GetInNId(EdgeN)); }
-    const TNodeData& GetOutNDat(const int& EdgeN) const { return Net->GetNDat(GetOutNId(EdgeN)); }
-    TNodeData& GetOutNDat(const int& EdgeN) { return Net->GetNDat(GetOutNId(EdgeN)); }
-    const TNodeData& GetNbrNDat(const int& EdgeN) const { return Net->GetNDat(GetNbrNId(EdgeN)); }
-    TNodeData& GetNbrNDat(const int& EdgeN) { return Net->GetNDat(GetNbrNId(EdgeN)); }
-    // edges
-    /// Returns ID of EdgeN-th in-edge.
-    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
-    /// Returns ID of EdgeN-th out-edge.
-    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
-    /// Returns ID of EdgeN-th in or out-edge.
-    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
-    /// Tests whether the edge with ID EId is an in-edge of current node.
-    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
-    /// Tests whether the edge with ID EId is an out-edge of current node.
-    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
-    /// Tests whether the edge with ID EId is an in or out-edge of current node.
-    bool IsNbrEId(const int& EId) const { return NodeHI.GetDat().IsNbrEId(EId); }
-    // edge data
-    TEdgeDat& GetInEDat(const int& EdgeN) { return Net->GetEDat(GetInEId(EdgeN)); }
-    const TEdgeDat& GetInEDat(const int& EdgeN) const { return Net->GetEDat(GetInEId(EdgeN)); }
-    TEdgeDat& GetOutEDat(const int& EdgeN) { return Net->GetEDat(GetOutEId(EdgeN)); }
-    const TEdgeDat& GetOutEDat(const int& EdgeN) const { return Net->GetEDat(GetOutEId(EdgeN)); }
-    TEdgeDat& GetNbrEDat(const int& EdgeN) { return Net->GetEDat(GetNbrEId(EdgeN)); }
-    const TEdgeDat& GetNbrEDat(const int& EdgeN) const { return Net->GetEDat(GetNbrEId(EdgeN)); }
-    friend class TNodeEdgeNet;
-  };
-
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    typedef typename THash<TInt, TEdge>::TIter THashIter;
-    THashIter EdgeHI;
-    TNodeEdgeNet *Net;
-  public:
-    TEdgeI() : EdgeHI(), Net(NULL) { }
-    TEdgeI(const THashIter& EdgeHIter, const TNodeEdgeNet *NetPt) : EdgeHI(EdgeHIter), Net((TNodeEdgeNet *) NetPt) { }
-    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Net(EdgeI.Net) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI;  Net=EdgeI.Net; }  return *this; }
-    TEdgeI& operator++ (int) { EdgeHI++;  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
-    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
-    /// Gets edge ID.
-    int GetId() const { return EdgeHI.GetDat().GetId(); }
-    /// Gets the source of an edge.
-    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
-    /// Gets destination of an edge.
-    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
-    const TEdgeData& operator () () const { return EdgeHI.GetDat().GetDat(); }
-    TEdgeData& operator () () { return EdgeHI.GetDat().GetDat(); }
-    const TEdgeData& GetDat() const { return EdgeHI.GetDat().GetDat(); }
-    TEdgeData& GetDat() { return EdgeHI.GetDat().GetDat(); }
-    const TNodeData& GetSrcNDat() const { return Net->GetNDat(GetSrcNId()); }
-    TNodeData& GetSrcNDat() { return Net->GetNDat(GetSrcNId()); }
-    const TNodeData& GetDstNDat() const { return Net->GetNDat(GetDstNId()); }
-    TNodeData& GetDstNDat() { return Net->GetNDat(GetDstNId()); }
-    friend class TNodeEdgeNet;
-  };
-
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  const TNode& GetNodeKId(const int& NodeKeyId) const { return NodeH[NodeKeyId]; }
-  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
-  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
-  const TEdge& GetEdgeKId(const int& EdgeKeyId) const { return EdgeH[EdgeKeyId]; }
-protected:
-  TCRef CRef;
-  TInt MxNId, MxEId;
-  THash<TInt, TNode> NodeH;
-  THash<TInt, TEdge> EdgeH;
-public:
-  TNodeEdgeNet() : CRef(), MxNId(0), MxEId(0) { }
-  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
-  explicit TNodeEdgeNet(const int& Nodes, const int& Edges) : CRef(), MxNId(0), MxEId(0) { Reserve(Nodes, Edges); }
-  TNodeEdgeNet(const TNodeEdgeNet& Net) : MxNId(Net.MxNId), MxEId(Net.MxEId), NodeH(Net.NodeH), EdgeH(Net.EdgeH) { }
-  /// Constructor that loads the network from a (binary) stream SIn.
-  TNodeEdgeNet(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn) { }
-  virtual ~TNodeEdgeNet() { }
-  /// Saves the network to a (binary) stream SOut.
-  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  MxEId.Save(SOut);  NodeH.Save(SOut);  EdgeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeEdgeNet<TNodeData, TEdgeData> > Net = TNodeEdgeNet<TNodeData, TEdgeData>::New().
-  static PNet New() { return PNet(new TNet()); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
-  static PNet Load(TSIn& SIn) { return PNet(new TNet(SIn)); }
-  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TNodeEdgeNet& operator = (const TNodeEdgeNet& Net) {
-    if (this!=&Net) { NodeH=Net.NodeH; EdgeH=Net.EdgeH; MxNId=Net.MxNId; MxEId=Net.MxEId; }  return *this; }
-  // nodes
-  /// Returns the number of nodes in the network.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the network. ##TNodeEdgeNet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds node data to node with ID NId. ##TNodeEdgeNet::AddNode-1
-  int AddNode(int NId, const TNodeData& NodeDat);
-  /// Adds a node NodeI and its node data to the network.
-  friend class TCrossNet;
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
-  /// Deletes node of ID NId from the network. ##TNodeEdgeNet::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the network.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the network.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end node in the network.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
-  /// Returns an iterator referring to the node of ID NId in the network.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
-  /// Sets node data for the node of ID NId in the network.
-  void SetNDat(const int& NId, const TNodeData& NodeDat);
-  /// Returns node data for the node of ID NId in the network.
-  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns node data for the node of ID NId in the network.
-  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-
-  // edges
-  /// Returns the number of edges in the network.
-  int GetEdges() const { return EdgeH.Len(); }
-  /// Returns the number of edges in the network with a unique pair of nodes.
-  int GetUniqEdges(const bool& IsDir=true) const;
-  /// Adds an edge between node IDs SrcNId and DstNId to the graph. ##TNodeEdgeNet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId, int EId = -1);
-  /// Adds an edge and edge data from node IDs SrcNId to node DstNId. ##TNodeEdgeNet::AddEdge-1
-  int AddEdge(const int& SrcNId, const int& DstNId, int EId, const TEdgeData& EdgeDat);
-  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() and its edge data to the network.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId(), EdgeI.GetDat()); }
-  /// Deletes an edge with ID EId from the network.
-  void DelEdge(const int& EId);
-  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeEDatNet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge with ID EId exists in the network.
-  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
-  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId;  return IsEdge(SrcNId, DstNId, EId, IsDir); }
-  /// Tests whether an edge from node IDs SrcNId to DstNId with edge ID EId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
-  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
-  /// Returns an iterator referring to the first edge in the network.
-  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end edge in the network.
-  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
-  /// Sets edge data for the edge of ID NId in the network.
-  void SetEDat(const int& EId, const TEdgeData& EdgeDat);
-  /// Returns edge data for the edge with ID EId.
-  TEdgeData& GetEDat(const int& EId) { return EdgeH.GetDat(EId).EdgeDat; }
-  /// Returns edge data for the edge with ID EId.
-  const TEdgeData& GetEDat(const int& EId) const { return EdgeH.GetDat(EId).EdgeDat; }
-  /// Sets edge data for all the edges in the network to EDat.
-  void SetAllEDat(const TEdgeData& EdgeDat);
-
-  /// Returns an ID of a random node in the network.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the network.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Returns an ID of a random edge in the network.
-  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random edge in the network.
-  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
-  /// Returns a vector of all node IDs in the network.
-  void GetNIdV(TIntV& NIdV) const;
-  /// Returns a vector of all edge IDs in the network.
-  void GetEIdV(TIntV& EIdV) const;
-
-  /// Tests whether the network is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the network.
-  void Clr() { MxNId=0;  MxEId=0;  NodeH.Clr();  EdgeH.Clr(); }
-  /// Reserves memory for a network of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) {
-    if (Nodes>0) { NodeH.Gen(Nodes/2); }  if (Edges>0) { EdgeH.Gen(Edges/2); } }
-  /// Sorts nodes by node IDs.
-  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
-  /// Sorts nodes by node data.
-  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
-  /// Sorts edges by edge IDs.
-  void SortEIdById(const bool& Asc=true) { EdgeH.SortByKey(Asc); }
-  /// Sorts edges by edge data.
-  void SortEIdByDat(const bool& Asc=true) { EdgeH.SortByDat(Asc); }
-  /// Defragments the network. ##TNodeEdgeNet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the network data structure for internal consistency. ##TNodeEdgeNet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-
-  friend class TPt<TNodeEdgeNet<TNodeData, TEdgeData> >;
-};
-
-// set flags
-namespace TSnap {
-template <class TNodeData, class TEdgeData> struct IsMultiGraph<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-template <class TNodeData, class TEdgeData> struct IsDirected<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-template <class TNodeData, class TEdgeData> struct IsNodeDat<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-template <class TNodeData, class TEdgeData> struct IsEdgeDat<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEdgeNet<TNodeData, TEdgeData>::HasFlag(const TGraphFlag& Flag) const {
-  return HasGraphFlag(typename TNet, Flag);
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEdgeNet<TNodeData, TEdgeData>::TNodeI::IsInNId(const int& NId) const {
-  const TNode& Node = NodeHI.GetDat();
-  for (int edge = 0; edge < Node.GetInDeg(); edge++) {
-    if (NId == Net->GetEdge(Node.GetInEId(edge)).GetSrcNId())
-      return true;
-  }
-  return false;
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEdgeNet<TNodeData, TEdgeData>::TNodeI::IsOutNId(const int& NId) const {
-  const TNode& Node = NodeHI.GetDat();
-  for (int edge = 0; edge < Node.GetOutDeg(); edge++) {
-    if (NId == Net->GetEdge(Node.GetOutEId(edge)).GetDstNId())
-      return true;
-  }
-  return false;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEdgeNet<TNodeData, TEdgeData>::AddNode(int NId) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId));
-  return NId;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEdgeNet<TNodeData, TEdgeData>::AddNode(int NId, const TNodeData& NodeDat) {
-  if (NId == -1) {
-    NId = MxNId;  MxNId++;
-  } else {
-    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
-    MxNId = TMath::Mx(NId+1, MxNId());
-  }
-  NodeH.AddDat(NId, TNode(NId, NodeDat));
-  return NId;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::DelNode(const int& NId) {
-  const TNode& Node = GetNode(NId);
-  for (int out = 0; out < Node.GetOutDeg(); out++) {
-    const int EId = Node.GetOutEId(out);
-    const TEdge& Edge = GetEdge(EId);
-    IAssert(Edge.GetSrcNId() == NId);
-    GetNode(Edge.GetDstNId()).InEIdV.DelIfIn(EId);
-    EdgeH.DelKey(EId);
-  }
-  for (int in = 0; in < Node.GetInDeg(); in++) {
-    const int EId = Node.GetInEId(in);
-    const TEdge& Edge = GetEdge(EId);
-    IAssert(Edge.GetDstNId() == NId);
-    GetNode(Edge.GetSrcNId()).OutEIdV.DelIfIn(EId);
-    EdgeH.DelKey(EId);
-  }
-  NodeH.DelKey(NId);
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
-  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
-  NodeH.GetDat(NId).NodeDat = NodeDat;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEdgeNet<TNodeData, TEdgeData>::GetUniqEdges(const bool& IsDir) const {
-  TIntPrSet UniqESet(GetEdges());
-  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
-    const int Src = EI.GetSrcNId();
-    const int Dst = EI.GetDstNId();
-    if (IsDir) { UniqESet.AddKey(TIntPr(Src, Dst)); }
-    else { UniqESet.AddKey(TIntPr(TMath::Mn(Src, Dst), TMath::Mx(Src, Dst))); }
-  }
-  return UniqESet.Len();
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEdgeNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
-  if (EId == -1) { EId = MxEId;  MxEId++; }
-  else { MxEId = TMath::Mx(EId+1, MxEId()); }
-  IAssertR(!IsEdge(EId), TStr::Fmt("EdgeId %d already exists", EId));
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  EdgeH.AddDat(EId, TEdge(EId, SrcNId, DstNId));
-  GetNode(SrcNId).OutEIdV.AddSorted(EId);
-  GetNode(DstNId).InEIdV.AddSorted(EId);
-  return EId;
-}
-
-template <class TNodeData, class TEdgeData>
-int TNodeEdgeNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, int EId, const TEdgeData& EdgeDat) {
-  if (EId == -1) { EId = MxEId;  MxEId++; }
-  else { MxEId = TMath::Mx(EId+1, MxEId()); }
-  IAssertR(!IsEdge(EId), TStr::Fmt("EdgeId %d already exists", EId));
-  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
-  EdgeH.AddDat(EId, TEdge(EId, SrcNId, DstNId, EdgeDat));
-  GetNode(SrcNId).OutEIdV.AddSorted(EId);
-  GetNode(DstNId).InEIdV.AddSorted(EId);
-  return EId;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& EId) {
-  IAssert(IsEdge(EId));
-  const int SrcNId = GetEdge(EId).GetSrcNId();
-  const int DstNId = GetEdge(EId).GetDstNId();
-  GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-  GetNode(DstNId).InEIdV.DelIfIn(EId);
-  EdgeH.DelKey(EId);
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
-  int EId;
-  IAssert(IsEdge(SrcNId, DstNId, EId, IsDir));
-  GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-  GetNode(DstNId).InEIdV.DelIfIn(EId);
-  EdgeH.DelKey(EId);
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEdgeNet<TNodeData, TEdgeData>::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
-  if (! IsNode(SrcNId)) { return false; }
-  if (! IsNode(DstNId)) { return false; }
-  const TNode& SrcNode = GetNode(SrcNId);
-  for (int edge = 0; edge < SrcNode.GetOutDeg(); edge++) {
-    const TEdge& Edge = GetEdge(SrcNode.GetOutEId(edge));
-    if (DstNId == Edge.GetDstNId()) {
-      EId = Edge.GetId();  return true; }
-  }
-  if (! IsDir) {
-    for (int edge = 0; edge < SrcNode.GetInDeg(); edge++) {
-    const TEdge& Edge = GetEdge(SrcNode.GetInEId(edge));
-    if (DstNId == Edge.GetSrcNId()) {
-      EId = Edge.GetId();  return true; }
-    }
-  }
-  return false;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::SetEDat(const int& EId, const TEdgeData& EdgeDat) {
-  IAssertR(IsEdge(EId), TStr::Fmt("EdgeId %d does not exist.", EId).CStr());
-  GetEI(EId).GetDat() = EdgeDat;
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::SetAllEDat(const TEdgeData& EdgeDat) {
-  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
-    EI() = EdgeDat;
-  }
-}
-
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::GetNIdV(TIntV& NIdV) const {
-  NIdV.Gen(GetNodes(), 0);
-  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N);) {
-    NIdV.Add(NodeH.GetKey(N));
-  }
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::GetEIdV(TIntV& EIdV) const {
-  EIdV.Gen(GetEdges(), 0);
-  for (int E=EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(E);) {
-    EIdV.Add(EdgeH.GetKey(E));
-  }
-}
-
-template <class TNodeData, class TEdgeData>
-void TNodeEdgeNet<TNodeData, TEdgeData>::Defrag(const bool& OnlyNodeLinks) {
-  for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid);) {
-    TNode& Node = NodeH[kid];
-    Node.InEIdV.Pack();  Node.OutEIdV.Pack();
-  }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) { NodeH.Defrag(); }
-  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) { EdgeH.Defrag(); }
-}
-
-template <class TNodeData, class TEdgeData>
-bool TNodeEdgeNet<TNodeData, TEdgeData>::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = true;
-  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-    const TNode& Node = NodeH[N];
-    if (! Node.OutEIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("Out-edge list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    if (! Node.InEIdV.IsSorted()) {
-      const TStr Msg = TStr::Fmt("In-edge list of node %d is not sorted.", Node.GetId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    // check out-edge ids
-    int prevEId = -1;
-    for (int e = 0; e < Node.GetOutDeg(); e++) {
-      if (! IsEdge(Node.GetOutEId(e))) {
-        const TStr Msg = TStr::Fmt("Out-edge id %d of node %d does not exist.",  Node.GetOutEId(e), Node.GetId());
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevEId == Node.GetOutEId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge id %d.", Node.GetId(), Node.GetOutEId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevEId = Node.GetOutEId(e);
-    }
-    // check in-edge ids
-    prevEId = -1;
-    for (int e = 0; e < Node.GetInDeg(); e++) {
-      if (! IsEdge(Node.GetInEId(e))) {
-        const TStr Msg = TStr::Fmt("Out-edge id %d of node %d does not exist.",  Node.GetInEId(e), Node.GetId());
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      if (e > 0 && prevEId == Node.GetInEId(e)) {
-        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge id %d.", Node.GetId(), Node.GetInEId(e));
-        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-      }
-      prevEId = Node.GetInEId(e);
-    }
-  }
-  for (int E = EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(E); ) {
-    const TEdge& Edge = EdgeH[E];
-    if (! IsNode(Edge.GetSrcNId())) {
-      const TStr Msg = TStr::Fmt("Edge %d source node %d does not exist.", Edge.GetId(), Edge.GetSrcNId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-    if (! IsNode(Edge.GetDstNId())) {
-      const TStr Msg = TStr::Fmt("Edge %d destination node %d does not exist.", Edge.GetId(), Edge.GetDstNId());
-      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
-    }
-  }
-  return RetVal;
-}
-
-/////////////////////////////////////////////////
-// Common Node-Edge Network Types
-typedef TNodeEdgeNet<TInt, TInt> TIntNENet;
-typedef TPt<TIntNENet> PIntNENet;
-typedef TNodeEdgeNet<TFlt, TFlt> TFltNENet;
-typedef TPt<TFltNENet> PFltNENet;
-
-class TNEANet;
-/// Pointer to a directed attribute multigraph (TNEANet)
-typedef TPt<TNEANet> PNEANet;
-
-//#//////////////////////////////////////////////
-/// Directed multigraph with node edge attributes. ##TNEANet::Class
-class TNEANet {
-public:
-  typedef TNEANet TNet;
-  typedef TPt<TNEANet> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV InEIdV, OutEIdV;
-  public:
-    TNode() : Id(-1), InEIdV(), OutEIdV() { }
-    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); InEIdV.Save(SOut); OutEIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InEIdV.Len(); }
-    int GetOutDeg() const { return OutEIdV.Len(); }
-    int GetInEId(const int& EdgeN) const { return InEIdV[EdgeN]; }
-    int GetOutEId(const int& EdgeN) const { return OutEIdV[EdgeN]; }
-    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
-    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
-    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
-    friend class TNEANet;
-  };
-  class TEdge {
-  private:
-    TInt Id, SrcNId, DstNId;
-  public:
-    TEdge() : Id(-1), SrcNId(-1), DstNId(-1) { }
-    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId) { }
-    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId) { }
-    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); SrcNId.Save(SOut); DstNId.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetSrcNId() const { return SrcNId; }
-    int GetDstNId() const { return DstNId; }
-    friend class TNEANet;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  protected:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-    const TNEANet *Graph;
-  public:
-    TNodeI() : NodeHI(), Graph(NULL) { }
-    TNodeI(const THashIter& NodeHIter, const TNEANet* GraphPt) : NodeHI(NodeHIter), Graph(GraphPt) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Graph(NodeI.Graph) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; Graph=NodeI.Graph; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node, the sum of in-degree and out-degree.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNEANet::TNodeI::GetInNId
-    int GetInNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
-    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNEANet::TNodeI::GetOutNId
-    int GetOutNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
-    /// Returns ID of EdgeN-th neighboring node. ##TNEANet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Graph->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN)); return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const;
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const;
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    /// Returns ID of EdgeN-th in-edge.
-    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
-    /// Returns ID of EdgeN-th out-edge.
-    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
-    /// Returns ID of EdgeN-th in or out-edge.
-    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
-    /// Tests whether the edge with ID EId is an in-edge of current node.
-    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
-    /// Tests whether the edge with ID EId is an out-edge of current node.
-    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
-    /// Tests whether the edge with ID EId is an in or out-edge of current node.
-    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
-    /// Gets vector of attribute names.
-    void GetAttrNames(TStrV& Names) const { Graph->AttrNameNI(GetId(), Names); }
-    /// Gets vector of attribute values.
-    void GetAttrVal(TStrV& Val) const { Graph->AttrValueNI(GetId(), Val); }
-    /// Gets vector of int attribute names.
-    void GetIntAttrNames(TStrV& Names) const { Graph->IntAttrNameNI(GetId(), Names); }
-    /// Gets vector of int attribute values.
-    void GetIntAttrVal(TIntV& Val) const { Graph->IntAttrValueNI(GetId(), Val); }
-    /// Gets vector of int attribute names.
-    void GetIntVAttrNames(TStrV& Names) const { Graph->IntVAttrNameNI(GetId(), Names); }
-    /// Gets vector of int attribute values.
-    void GetIntVAttrVal(TVec<TIntV>& Val) const { Graph->IntVAttrValueNI(GetId(), Val); }
-    /// Gets vector of str attribute names.
-    void GetStrAttrNames(TStrV& Names) const { Graph->StrAttrNameNI(GetId(), Names); }
-    /// Gets vector of str attribute values.
-    void GetStrAttrVal(TStrV& Val) const { Graph->StrAttrValueNI(GetId(), Val); }
-    /// Gets vector of flt attribute names.
-    void GetFltAttrNames(TStrV& Names) const { Graph->FltAttrNameNI(GetId(), Names); }
-    /// Gets vector of flt attribute values.
-    void GetFltAttrVal(TFltV& Val) const { Graph->FltAttrValueNI(GetId(), Val); }
-    friend class TNEANet;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    typedef THash<TInt, TEdge>::TIter THashIter;
-    THashIter EdgeHI;
-    const TNEANet *Graph;
-  public:
-    TEdgeI() : EdgeHI(), Graph(NULL) { }
-    TEdgeI(const THashIter& EdgeHIter, const TNEANet *GraphPt) : EdgeHI(EdgeHIter), Graph(GraphPt) { }
-    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Graph(EdgeI.Graph) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI; Graph=EdgeI.Graph; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { EdgeHI++; return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
-    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
-    /// Returns edge ID.
-    int GetId() const { return EdgeHI.GetDat().GetId(); }
-    /// Returns the source of the edge.
-    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
-    /// Returns the destination of the edge.
-    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
-    /// Gets vector of attribute names.
-    void GetAttrNames(TStrV& Names) const { Graph->AttrNameEI(GetId(), Names); }
-    /// Gets vector of attribute values.
-    void GetAttrVal(TStrV& Val) const { Graph->AttrValueEI(GetId(), Val); }
-    /// Gets vector of int attribute names.
-    void GetIntAttrNames(TStrV& Names) const { Graph->IntAttrNameEI(GetId(), Names); }
-    /// Gets vector of int attribute values.
-    void GetIntAttrVal(TIntV& Val) const { Graph->IntAttrValueEI(GetId(), Val); }
-    /// Gets vector of int attribute names.
-    void GetIntVAttrNames(TStrV& Names) const { Graph->IntVAttrNameEI(GetId(), Names); }
-    /// Gets vector of int attribute values.
-    void GetIntVAttrVal(TVec<TIntV>& Val) const { Graph->IntVAttrValueEI(GetId(), Val); }
-    /// Gets vector of str attribute names.
-    void GetStrAttrNames(TStrV& Names) const { Graph->StrAttrNameEI(GetId(), Names); }
-    /// Gets vector of str attribute values.
-    void GetStrAttrVal(TStrV& Val) const { Graph->StrAttrValueEI(GetId(), Val); }
-    /// Gets vector of flt attribute names.
-    void GetFltAttrNames(TStrV& Names) const { Graph->FltAttrNameEI(GetId(), Names); }
-    /// Gets vector of flt attribute values.
-    void GetFltAttrVal(TFltV& Val) const { Graph->FltAttrValueEI(GetId(), Val); }
-    friend class TNEANet;
-  };
-
-  /// Node/edge integer attribute iterator. Iterates through all nodes/edges for one integer attribute.
-  class TAIntI {
-  private:
-    typedef TIntV::TIter TIntVecIter;
-    TIntVecIter HI;
-    bool isNode;
-    TStr attr;
-    const TNEANet *Graph;
-  public:
-    TAIntI() : HI(), attr(), Graph(NULL) { }
-    TAIntI(const TIntVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
-    TAIntI(const TAIntI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
-    TAIntI& operator = (const TAIntI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
-    bool operator < (const TAIntI& I) const { return HI < I.HI; }
-    bool operator == (const TAIntI& I) const { return HI == I.HI; }
-    /// Returns an attribute of the node.
-    TInt GetDat() const { return HI[0]; }
-    /// Returns true if the attribute has been deleted.
-    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetIntAttrDefaultN(attr) : GetDat() == Graph->GetIntAttrDefaultE(attr); };
-    TAIntI& operator++(int) { HI++; return *this; }
-    friend class TNEANet;
-  };
-
-  class TAIntVI {
-  private:
-    typedef TVec<TIntV>::TIter TIntVVecIter;
-    TIntVVecIter HI;
-    bool isNode;
-    TStr attr;
-    const TNEANet *Graph;
-  public:
-    TAIntVI() : HI(), attr(), Graph(NULL) { }
-    TAIntVI(const TIntVVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
-    TAIntVI(const TAIntVI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
-    TAIntVI& operator = (const TAIntVI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
-    bool operator < (const TAIntVI& I) const { return HI < I.HI; }
-    bool operator == (const TAIntVI& I) const { return HI == I.HI; }
-    /// Returns an attribute of the node.
-    TIntV GetDat() const { return HI[0]; }
-    TAIntVI& operator++(int) { HI++; return *this; }
-    friend class TNEANet;
-  };
-
-  /// Node/edge string attribute iterator. Iterates through all nodes/edges for one string attribute.
-  class TAStrI {
-  private:
-    typedef TStrV::TIter TStrVecIter;
-    TStrVecIter HI;
-    bool isNode;
-    TStr attr;
-    const TNEANet *Graph;
-  public:
-    TAStrI() : HI(), attr(), Graph(NULL) { }
-    TAStrI(const TStrVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
-    TAStrI(const TAStrI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
-    TAStrI& operator = (const TAStrI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
-    bool operator < (const TAStrI& I) const { return HI < I.HI; }
-    bool operator == (const TAStrI& I) const { return HI == I.HI; }
-    /// Returns an attribute of the node.
-    TStr GetDat() const { return HI[0]; }
-    /// Returns true if the attribute has been deleted.
-    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetStrAttrDefaultN(attr) : GetDat() == Graph->GetStrAttrDefaultE(attr); };
-    TAStrI& operator++(int) { HI++; return *this; }
-    friend class TNEANet;
-  };
-
-  /// Node/edge float attribute iterator. Iterates through all nodes/edges for one float attribute.
-  class TAFltI {
-  private:
-    typedef TFltV::TIter TFltVecIter;
-    TFltVecIter HI;
-    bool isNode;
-    TStr attr;
-    const TNEANet *Graph;
-  public:
-    TAFltI() : HI(), attr(), Graph(NULL) { }
-    TAFltI(const TFltVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
-    TAFltI(const TAFltI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
-    TAFltI& operator = (const TAFltI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
-    bool operator < (const TAFltI& I) const { return HI < I.HI; }
-    bool operator == (const TAFltI& I) const { return HI == I.HI; }
-    /// Returns an attribute of the node.
-    TFlt GetDat() const { return HI[0]; }
-    /// Returns true if the attribute has been deleted.
-    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetFltAttrDefaultN(attr) : GetDat() == Graph->GetFltAttrDefaultE(attr); };
-    TAFltI& operator++(int) { HI++; return *this; }
-    friend class TNEANet;
-  };
-
-protected:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
-  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
-
-protected:
-  /// Gets Int node attribute val.  If not a proper attr, return default.
-  TInt GetIntAttrDefaultN(const TStr& attribute) const { return IntDefaultsN.IsKey(attribute) ? IntDefaultsN.GetDat(attribute) : (TInt) TInt::Mn; }
-  /// Gets Str node attribute val.  If not a proper attr, return default.
-  TStr GetStrAttrDefaultN(const TStr& attribute) const { return StrDefaultsN.IsKey(attribute) ? StrDefaultsN.GetDat(attribute) : (TStr) TStr::GetNullStr(); }
-  /// Gets Flt node attribute val.  If not a proper attr, return default.
-  TFlt GetFltAttrDefaultN(const TStr& attribute) const { return FltDefaultsN.IsKey(attribute) ? FltDefaultsN.GetDat(attribute) : (TFlt) TFlt::Mn; }
-  /// Gets Int edge attribute val.  If not a proper attr, return default.
-  TInt GetIntAttrDefaultE(const TStr& attribute) const { return IntDefaultsE.IsKey(attribute) ? IntDefaultsE.GetDat(attribute) : (TInt) TInt::Mn; }
-  /// Gets Str edge attribute val.  If not a proper attr, return default.
-  TStr GetStrAttrDefaultE(const TStr& attribute) const { return StrDefaultsE.IsKey(attribute) ? StrDefaultsE.GetDat(attribute) : (TStr) TStr::GetNullStr(); }
-  /// Gets Flt edge attribute val.  If not a proper attr, return default.
-  TFlt GetFltAttrDefaultE(const TStr& attribute) const { return FltDefaultsE.IsKey(attribute) ? FltDefaultsE.GetDat(attribute) : (TFlt) TFlt::Mn; }
-public:
-  TCRef CRef;
-protected:
-  TInt MxNId, MxEId;
-  THash<TInt, TNode> NodeH;
-  THash<TInt, TEdge> EdgeH;
-  /// KeyToIndexType[N|E]: Key->(Type,Index).
-  TStrIntPrH KeyToIndexTypeN, KeyToIndexTypeE;
-
-  THash<TStr, TInt> IntDefaultsN, IntDefaultsE;
-  THash<TStr, TStr> StrDefaultsN, StrDefaultsE;
-  THash<TStr, TFlt> FltDefaultsN, FltDefaultsE;
-  TVec<TIntV> VecOfIntVecsN, VecOfIntVecsE;
-  TVec<TStrV> VecOfStrVecsN, VecOfStrVecsE;
-  TVec<TFltV> VecOfFltVecsN, VecOfFltVecsE;
-  TVec<TVec<TIntV> > VecOfIntVecVecsN, VecOfIntVecVecsE;
-  enum { IntType, StrType, FltType, IntVType };
-
-  TAttr SAttrN;
-  TAttr SAttrE;
-
-public:
-  TNEANet() : CRef(), MxNId(0), MxEId(0), NodeH(), EdgeH(),
-    KeyToIndexTypeN(), KeyToIndexTypeE(), IntDefaultsN(), IntDefaultsE(),
-    StrDefaultsN(), StrDefaultsE(), FltDefaultsN(), FltDefaultsE(),
-    VecOfIntVecsN(), VecOfIntVecsE(), VecOfStrVecsN(), VecOfStrVecsE(),
-    VecOfFltVecsN(), VecOfFltVecsE(),  VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE(){ }
-  /// Constructor that reserves enough memory for a graph of nodes and edges.
-  explicit TNEANet(const int& Nodes, const int& Edges) : CRef(),
-    MxNId(0), MxEId(0), NodeH(), EdgeH(), KeyToIndexTypeN(), KeyToIndexTypeE(),
-    IntDefaultsN(), IntDefaultsE(), StrDefaultsN(), StrDefaultsE(),
-    FltDefaultsN(), FltDefaultsE(), VecOfIntVecsN(), VecOfIntVecsE(),
-    VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE()
-    { Reserve(Nodes, Edges); }
-  TNEANet(const TNEANet& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
-    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(), KeyToIndexTypeE(),
-    IntDefaultsN(), IntDefaultsE(), StrDefaultsN(), StrDefaultsE(),
-    FltDefaultsN(), FltDefaultsE(), VecOfIntVecsN(), VecOfIntVecsE(),
-    VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE() { }
-  /// Constructor for loading the graph from a (binary) stream SIn.
-  TNEANet(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn),
-    KeyToIndexTypeN(SIn), KeyToIndexTypeE(SIn), IntDefaultsN(SIn), IntDefaultsE(SIn),
-    StrDefaultsN(SIn), StrDefaultsE(SIn), FltDefaultsN(SIn), FltDefaultsE(SIn),
-    VecOfIntVecsN(SIn), VecOfIntVecsE(SIn), VecOfStrVecsN(SIn),VecOfStrVecsE(SIn),
-    VecOfFltVecsN(SIn), VecOfFltVecsE(SIn), VecOfIntVecVecsN(SIn), VecOfIntVecVecsE(SIn), SAttrN(SIn), SAttrE(SIn) { }
-  protected:
-  TNEANet(const TNEANet& Graph, bool modeSubGraph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
-    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(), KeyToIndexTypeE(Graph.KeyToIndexTypeE),
-    IntDefaultsN(Graph.IntDefaultsN), IntDefaultsE(Graph.IntDefaultsE), StrDefaultsN(Graph.StrDefaultsN), StrDefaultsE(Graph.StrDefaultsE),
-    FltDefaultsN(Graph.FltDefaultsN), FltDefaultsE(Graph.FltDefaultsE), VecOfIntVecsN(Graph.VecOfIntVecsN), VecOfIntVecsE(Graph.VecOfIntVecsE),
-    VecOfStrVecsN(Graph.VecOfStrVecsN), VecOfStrVecsE(Graph.VecOfStrVecsE), VecOfFltVecsN(Graph.VecOfFltVecsN), VecOfFltVecsE(Graph.VecOfFltVecsE),
-    VecOfIntVecVecsN(), VecOfIntVecVecsE(Graph.VecOfIntVecVecsE) { }
-  TNEANet(bool copyAll, const TNEANet& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
-    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(Graph.KeyToIndexTypeN), KeyToIndexTypeE(Graph.KeyToIndexTypeE),
-    IntDefaultsN(Graph.IntDefaultsN), IntDefaultsE(Graph.IntDefaultsE), StrDefaultsN(Graph.StrDefaultsN), StrDefaultsE(Graph.StrDefaultsE),
-    FltDefaultsN(Graph.FltDefaultsN), FltDefaultsE(Graph.FltDefaultsE), VecOfIntVecsN(Graph.VecOfIntVecsN), VecOfIntVecsE(Graph.VecOfIntVecsE),
-    VecOfStrVecsN(Graph.VecOfStrVecsN), VecOfStrVecsE(Graph.VecOfStrVecsE), VecOfFltVecsN(Graph.VecOfFltVecsN), VecOfFltVecsE(Graph.VecOfFltVecsE),
-    VecOfIntVecVecsN(Graph.VecOfIntVecVecsN), VecOfIntVecVecsE(Graph.VecOfIntVecVecsE), SAttrN(Graph.SAttrN), SAttrE(Graph.SAttrE) { }
-  public:
-  /// Saves the graph to a (binary) stream SOut. Expects data structures for sparse attributes.
-  void Save(TSOut& SOut) const {
-    MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut);
-    KeyToIndexTypeN.Save(SOut); KeyToIndexTypeE.Save(SOut);
-    IntDefaultsN.Save(SOut); IntDefaultsE.Save(SOut);
-    StrDefaultsN.Save(SOut); StrDefaultsE.Save(SOut);
-    FltDefaultsN.Save(SOut); FltDefaultsE.Save(SOut);
-    VecOfIntVecsN.Save(SOut); VecOfIntVecsE.Save(SOut);
-    VecOfStrVecsN.Save(SOut); VecOfStrVecsE.Save(SOut);
-    VecOfFltVecsN.Save(SOut); VecOfFltVecsE.Save(SOut);
-    VecOfIntVecVecsN.Save(SOut); VecOfIntVecVecsE.Save(SOut); 
-    SAttrN.Save(SOut); SAttrE.Save(SOut); }
-  /// Saves the graph to a (binary) stream SOut. Available for backwards compatibility.
-  void Save_V1(TSOut& SOut) const {
-    MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut);
-    KeyToIndexTypeN.Save(SOut); KeyToIndexTypeE.Save(SOut);
-    IntDefaultsN.Save(SOut); IntDefaultsE.Save(SOut);
-    StrDefaultsN.Save(SOut); StrDefaultsE.Save(SOut);
-    FltDefaultsN.Save(SOut); FltDefaultsE.Save(SOut);
-    VecOfIntVecsN.Save(SOut); VecOfIntVecsE.Save(SOut);
-    VecOfStrVecsN.Save(SOut); VecOfStrVecsE.Save(SOut);
-    VecOfFltVecsN.Save(SOut); VecOfFltVecsE.Save(SOut); }
-  /// Static cons returns pointer to graph. Ex: PNEANet Graph=TNEANet::New().
-  static PNEANet New() { return PNEANet(new TNEANet()); }
-  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNEANet::New
-  static PNEANet New(const int& Nodes, const int& Edges) { return PNEANet(new TNEANet(Nodes, Edges)); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
-  static PNEANet Load(TSIn& SIn) { return PNEANet(new TNEANet(SIn)); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it. Backwards compatible.
-  static PNEANet Load_V1(TSIn& SIn) {
-    PNEANet Graph = PNEANet(new TNEANet());
-    Graph->MxNId.Load(SIn); Graph->MxEId.Load(SIn);
-    Graph->NodeH.Load(SIn); Graph->EdgeH.Load(SIn);
-    Graph->KeyToIndexTypeN.Load(SIn); Graph->KeyToIndexTypeE.Load(SIn);
-    Graph->IntDefaultsN.Load(SIn); Graph->IntDefaultsE.Load(SIn);
-    Graph->StrDefaultsN.Load(SIn); Graph->StrDefaultsE.Load(SIn);
-    Graph->FltDefaultsN.Load(SIn); Graph->FltDefaultsE.Load(SIn);
-    Graph->VecOfIntVecsN.Load(SIn); Graph->VecOfIntVecsE.Load(SIn);
-    Graph->VecOfStrVecsN.Load(SIn); Graph->VecOfStrVecsE.Load(SIn);
-    Graph->VecOfFltVecsN.Load(SIn); Graph->VecOfFltVecsE.Load(SIn);
-    return Graph;
-  }
-  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  
-  TNEANet& operator = (const TNEANet& Graph) { if (this!=&Graph) {
-    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH; }
-    return *this; }
-
-  /// Returns the number of nodes in the graph.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the graph. ##TNEANet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the graph.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
-  /// Deletes node of ID NId from the graph. ##TNEANet::DelNode
-  virtual void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the graph.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the graph.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end node in the graph.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
-  /// Returns an iterator referring to the first node's int attribute.
-  TAIntI BegNAIntI(const TStr& attr) const {
-    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
-  /// Returns an iterator referring to the past-the-end node's attribute.
-  TAIntI EndNAIntI(const TStr& attr) const {
-    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TAIntI GetNAIntI(const TStr& attr, const int& NId) const {
-    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
-
-  /// Returns an iterator referring to the first node's int attribute.
-  TAIntVI BegNAIntVI(const TStr& attr) const {
-    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
-  /// Returns an iterator referring to the past-the-end node's attribute.
-  TAIntVI EndNAIntVI(const TStr& attr) const {
-    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TAIntVI GetNAIntVI(const TStr& attr, const int& NId) const {
-    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
-
-
-  /// Returns an iterator referring to the first node's str attribute.
-  TAStrI BegNAStrI(const TStr& attr) const {
-
-    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
-  /// Returns an iterator referring to the past-the-end node's attribute.
-  TAStrI EndNAStrI(const TStr& attr) const {
-    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TAStrI GetNAStrI(const TStr& attr, const int& NId) const {
-    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
-  /// Returns an iterator referring to the first node's flt attribute.
-  TAFltI BegNAFltI(const TStr& attr) const {
-    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
-  /// Returns an iterator referring to the past-the-end node's attribute.
-  TAFltI EndNAFltI(const TStr& attr) const {
-    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TAFltI GetNAFltI(const TStr& attr, const int& NId) const {
-    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
-
-  /// Returns a vector of attr names for node NId.
-  void AttrNameNI(const TInt& NId, TStrV& Names) const {
-    AttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
-  void AttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void AttrValueNI(const TInt& NId, TStrV& Values) const {
-    AttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
-  void AttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Values) const;
-
-  /// Returns a vector of int attr names for node NId.
-  void IntAttrNameNI(const TInt& NId, TStrV& Names) const {
-    IntAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
-  void IntAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void IntAttrValueNI(const TInt& NId, TIntV& Values) const {
-    IntAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
-  void IntAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TIntV& Values) const;
-
-
-  /// Returns a vector of int attr names for node NId.
-  void IntVAttrNameNI(const TInt& NId, TStrV& Names) const {
-    IntVAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
-  void IntVAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void IntVAttrValueNI(const TInt& NId, TVec<TIntV>& Values) const {
-    IntVAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
-  void IntVAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TVec<TIntV>& Values) const;
-
-
-  /// Returns a vector of str attr names for node NId.
-  void StrAttrNameNI(const TInt& NId, TStrV& Names) const {
-    StrAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
-  void StrAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void StrAttrValueNI(const TInt& NId, TStrV& Values) const {
-    StrAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
-  void StrAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Values) const;
-  /// Returns a vector of int attr names for node NId.
-  void FltAttrNameNI(const TInt& NId, TStrV& Names) const {
-    FltAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
-  void FltAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void FltAttrValueNI(const TInt& NId, TFltV& Values) const {
-    FltAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
-  void FltAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TFltV& Values) const;
-
-  /// Returns a vector of attr names for edge EId.
-  void AttrNameEI(const TInt& EId, TStrV& Names) const {
-    AttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
-  void AttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for edge EId.
-  void AttrValueEI(const TInt& EId, TStrV& Values) const {
-    AttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
-  void AttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Values) const;
-  /// Returns a vector of int attr names for edge EId.
-  void IntAttrNameEI(const TInt& EId, TStrV& Names) const {
-    IntAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
-  void IntAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for edge EId.
-  void IntAttrValueEI(const TInt& EId, TIntV& Values) const {
-    IntAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
-  void IntAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TIntV& Values) const;
-
-
-  /// Returns a vector of int attr names for edge EId.
-  void IntVAttrNameEI(const TInt& EId, TStrV& Names) const {
-    IntVAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
-  void IntVAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for edge EId.
-  void IntVAttrValueEI(const TInt& EId, TVec<TIntV>& Values) const {
-    IntVAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
-  void IntVAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TVec<TIntV>& Values) const;
-
-
-  /// Returns a vector of str attr names for node NId.
-  void StrAttrNameEI(const TInt& EId, TStrV& Names) const {
-    StrAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
-  void StrAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void StrAttrValueEI(const TInt& EId, TStrV& Values) const {
-    StrAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
-  void StrAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Values) const;
-  /// Returns a vector of int attr names for node NId.
-  void FltAttrNameEI(const TInt& EId, TStrV& Names) const {
-    FltAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
-  void FltAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
-  /// Returns a vector of attr values for node NId.
-  void FltAttrValueEI(const TInt& EId, TFltV& Values) const {
-    FltAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
-  void FltAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TFltV& Values) const;
-
-  /// Returns an iterator referring to the first edge's int attribute.
-  TAIntI BegEAIntI(const TStr& attr) const {
-    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the past-the-end edge's attribute.
-  TAIntI EndEAIntI(const TStr& attr) const {
-    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the edge of ID EId in the graph.
-  TAIntI GetEAIntI(const TStr& attr, const int& EId) const {
-    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
-  }
-
-  /// Returns an iterator referring to the first edge's int attribute.
-  TAIntVI BegEAIntVI(const TStr& attr) const {
-    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the past-the-end edge's attribute.
-  TAIntVI EndEAIntVI(const TStr& attr) const {
-    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the edge of ID EId in the graph.
-  TAIntVI GetEAIntVI(const TStr& attr, const int& EId) const {
-    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
-  }
-
-  /// Returns an iterator referring to the first edge's str attribute.
-  TAStrI BegEAStrI(const TStr& attr) const {
-    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);   }
-  /// Returns an iterator referring to the past-the-end edge's attribute.
-  TAStrI EndEAStrI(const TStr& attr) const {
-    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the edge of ID EId in the graph.
-  TAStrI GetEAStrI(const TStr& attr, const int& EId) const {
-    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
-  }
-  /// Returns an iterator referring to the first edge's flt attribute.
-  TAFltI BegEAFltI(const TStr& attr) const {
-    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the past-the-end edge's attribute.
-  TAFltI EndEAFltI(const TStr& attr) const {
-    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
-  }
-  /// Returns an iterator referring to the edge of ID EId in the graph.
-  TAFltI GetEAFltI(const TStr& attr, const int& EId) const {
-    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
-  }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-  /// Returns an ID that is larger than any edge ID in the network.
-  int GetMxEId() const { return MxEId; }
-
-  /// Returns the number of edges in the graph.
-  int GetEdges() const { return EdgeH.Len(); }
-  /// Adds an edge with ID EId between node IDs SrcNId and DstNId to the graph. ##TNEANet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId, int EId  = -1);
-  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId()); }
-  /// Deletes an edge with edge ID EId from the graph.
-  void DelEdge(const int& EId);
-  /// Deletes all edges between node IDs SrcNId and DstNId from the graph. ##TNEANet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge with edge ID EId exists in the graph.
-  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId; return IsEdge(SrcNId, DstNId, EId, IsDir); }
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph. if an edge exists, return its edge ID in EId
-  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
-  /// Returns an edge ID between node IDs SrcNId and DstNId, if such an edge exists. Otherwise, return -1.
-  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
-  /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end edge in the graph.
-  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
-  /// Returns an iterator referring to edge with edge ID EId.
-  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
-
-  /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the graph.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Returns an ID of a random edge in the graph.
-  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random edge in the graph.
-  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the graph.
-  void GetNIdV(TIntV& NIdV) const;
-  /// Gets a vector IDs of all edges in the graph.
-  void GetEIdV(TIntV& EIdV) const;
-
-  /// Tests whether the graph is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the graph.
-  void Clr() { MxNId=0; MxEId=0; NodeH.Clr(); EdgeH.Clr();
-    KeyToIndexTypeN.Clr(); KeyToIndexTypeE.Clr(); IntDefaultsN.Clr(); IntDefaultsE.Clr();
-    StrDefaultsN.Clr(); StrDefaultsE.Clr(); FltDefaultsN.Clr(); FltDefaultsE.Clr();
-    VecOfIntVecsN.Clr(); VecOfIntVecsE.Clr(); VecOfStrVecsN.Clr(); VecOfStrVecsE.Clr();
-    VecOfFltVecsN.Clr(); VecOfFltVecsE.Clr(); VecOfIntVecVecsN.Clr(); VecOfIntVecVecsE.Clr(); 
-    SAttrN.Clr(); SAttrE.Clr();}
-  /// Reserves memory for a graph of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) {
-    if (Nodes>0) { NodeH.Gen(Nodes/2); } if (Edges>0) { EdgeH.Gen(Edges/2); } }
-  /// Defragments the graph. ##TNEANet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the graph data structure for internal consistency. ##TNEANet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the graph in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-
-  /// Attribute based add function for attr to Int value. ##TNEANet::AddIntAttrDatN
-  int AddIntAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return AddIntAttrDatN(NodeI.GetId(), value, attr); }
-  int AddIntAttrDatN(const int& NId, const TInt& value, const TStr& attr);
-  /// Attribute based add function for attr to Str value. ##TNEANet::AddStrAttrDatN
-  int AddStrAttrDatN(const TNodeI& NodeI, const TStr& value, const TStr& attr) { return AddStrAttrDatN(NodeI.GetId(), value, attr); }
-  int AddStrAttrDatN(const int& NId, const TStr& value, const TStr& attr);
-  /// Attribute based add function for attr to Flt value. ##TNEANet::AddFltAttrDatN
-  int AddFltAttrDatN(const TNodeI& NodeI, const TFlt& value, const TStr& attr) { return AddFltAttrDatN(NodeI.GetId(), value, attr); }
-  int AddFltAttrDatN(const int& NId, const TFlt& value, const TStr& attr);
-  /// Attribute based add function for attr to IntV value. ##TNEANet::AddIntVAttrDatN
-  int AddIntVAttrDatN(const TNodeI& NodeI, const TIntV& value, const TStr& attr) { return AddIntVAttrDatN(NodeI.GetId(), value, attr); }
-  int AddIntVAttrDatN(const int& NId, const TIntV& value, const TStr& attr);
-  /// Appends value onto the TIntV attribute for the given node.
-  int AppendIntVAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return AppendIntVAttrDatN(NodeI.GetId(), value, attr); }
-  int AppendIntVAttrDatN(const int& NId, const TInt& value, const TStr& attr);
-  /// Deletes value from the TIntV attribute for the given node.
-  int DelFromIntVAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return DelFromIntVAttrDatN(NodeI.GetId(), value, attr); }
-  int DelFromIntVAttrDatN(const int& NId, const TInt& value, const TStr& attr);
-  /// Attribute based add function for attr to Int value. ##TNEANet::AddIntAttrDatE
-  int AddIntAttrDatE(const TEdgeI& EdgeI, const TInt& value, const TStr& attr) { return AddIntAttrDatE(EdgeI.GetId(), value, attr); }
-  int AddIntAttrDatE(const int& EId, const TInt& value, const TStr& attr);
-  /// Attribute based add function for attr to Str value. ##TNEANet::AddStrAttrDatE
-  int AddStrAttrDatE(const TEdgeI& EdgeI, const TStr& value, const TStr& attr) { return AddStrAttrDatE(EdgeI.GetId(), value, attr); }
-  int AddStrAttrDatE(const int& EId, const TStr& value, const TStr& attr);
-  /// Attribute based add function for attr to Flt value. ##TNEANet::AddFltAttrDatE
-  int AddFltAttrDatE(const TEdgeI& EdgeI, const TFlt& value, const TStr& attr) { return AddFltAttrDatE(EdgeI.GetId(), value, attr); }
-  int AddFltAttrDatE(const int& EId, const TFlt& value, const TStr& attr);
-  /// Attribute based add function for attr to IntV value. ##TNEANet::AddIntVAttrDatE
-  int AddIntVAttrDatE(const TEdgeI& EdgeI, const TIntV& value, const TStr& attr) { return AddIntVAttrDatE(EdgeI.GetId(), value, attr); }
-  int AddIntVAttrDatE(const int& EId, const TIntV& value, const TStr& attr);
-  /// Appends value onto the TIntV attribute for the given node.
-  int AppendIntVAttrDatE(const TEdgeI& EdgeI, const TInt& value, const TStr& attr) { return AppendIntVAttrDatE(EdgeI.GetId(), value, attr); }
-  int AppendIntVAttrDatE(const int& EId, const TInt& value, const TStr& attr);
-  /// Gets the value of int attr from the node attr value vector.
-  TInt GetIntAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetIntAttrDatN(NodeI.GetId(), attr); }
-  TInt GetIntAttrDatN(const int& NId, const TStr& attr);
-
-  /// Gets the value of str attr from the node attr value vector.
-  TStr GetStrAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetStrAttrDatN(NodeI.GetId(), attr); }
-  TStr GetStrAttrDatN(const int& NId, const TStr& attr);
-  /// Gets the value of flt attr from the node attr value vector.
-  TFlt GetFltAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetFltAttrDatN(NodeI.GetId(), attr); }
-  TFlt GetFltAttrDatN(const int& NId, const TStr& attr);
-  /// Gets the value of the intv attr from the node attr value vector.
-  TIntV GetIntVAttrDatN(const TNodeI& NodeI, const TStr& attr) const { return GetIntVAttrDatN(NodeI.GetId(), attr); }
-  TIntV GetIntVAttrDatN(const int& NId, const TStr& attr) const;
-
-  /// Gets the index of the node attr value vector specified by \c attr (same as GetAttrIndN for compatibility reasons).
-  int GetIntAttrIndN(const TStr& attr);
-  /// Gets the index of the node attr value vector specified by \c attr.
-  int GetAttrIndN(const TStr& attr);
-
-  /// Gets the value of an int node attr specified by node iterator \c NodeI and the attr \c index.
-  TInt GetIntAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetIntAttrIndDatN(NodeI.GetId(), index); }
-  /// Gets the value of an int node attr specified by node ID \c NId and the attr \c index.
-  TInt GetIntAttrIndDatN(const int& NId, const int& index);
-
-  /// Gets the value of a string node attr specified by node iterator \c NodeI and the attr \c index.
-  TStr GetStrAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetStrAttrIndDatN(NodeI.GetId(), index); }
-  /// Gets the value of a string node attr specified by node ID \c NId and the attr \c index.
-  TStr GetStrAttrIndDatN(const int& NId, const int& index);
-
-  /// Gets the value of a float node attr specified by node iterator \c NodeI and the attr \c index.
-  TFlt GetFltAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetFltAttrIndDatN(NodeI.GetId(), index); }
-  /// Gets the value of a float node attr specified by node ID \c NId and the attr \c index.
-  TFlt GetFltAttrIndDatN(const int& NId, const int& index);
-
-  /// Gets the value of int attr from the edge attr value vector.
-  TInt GetIntAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetIntAttrDatE(EdgeI.GetId(), attr); }
-  TInt GetIntAttrDatE(const int& EId, const TStr& attr);
-  /// Gets the value of str attr from the edge attr value vector.
-  TStr GetStrAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetStrAttrDatE(EdgeI.GetId(), attr); }
-  TStr GetStrAttrDatE(const int& EId, const TStr& attr);
-  /// Gets the value of flt attr from the edge attr value vector.
-  TFlt GetFltAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetFltAttrDatE(EdgeI.GetId(), attr); }
-  TFlt GetFltAttrDatE(const int& EId, const TStr& attr);
-  /// Gets the value of the intv attr from the edge attr value vector.
-  TIntV GetIntVAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetIntVAttrDatE(EdgeI.GetId(), attr); }
-  TIntV GetIntVAttrDatE(const int& EId, const TStr& attr);
-
-  /// Gets the index of the edge attr value vector specified by \c attr (same as GetAttrIndE for compatibility reasons).
-  int GetIntAttrIndE(const TStr& attr);
-  /// Gets the index of the edge attr value vector specified by \c attr.
-  int GetAttrIndE(const TStr& attr);
-
-  /// Gets the value of an int edge attr specified by edge iterator \c EdgeI and the attr \c index.
-  TInt GetIntAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetIntAttrIndDatE(EdgeI.GetId(), index); }
-  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
-  TInt GetIntAttrIndDatE(const int& EId, const int& index);
- 
-  /// Gets the value of a float edge attr specified by edge iterator \c EdgeI and the attr \c index.
-  TFlt GetFltAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetFltAttrIndDatE(EdgeI.GetId(), index); }
-  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
-  TFlt GetFltAttrIndDatE(const int& EId, const int& index);
- 
-  /// Gets the value of a string edge attr specified by edge iterator \c EdgeI and the attr \c index.
-  TStr GetStrAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetStrAttrIndDatE(EdgeI.GetId(), index); }
-  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
-  TStr GetStrAttrIndDatE(const int& EId, const int& index);
- 
-  /// Deletes the node attribute for NodeI.
-  int DelAttrDatN(const TNodeI& NodeI, const TStr& attr) { return DelAttrDatN(NodeI.GetId(), attr); } 
-  int DelAttrDatN(const int& NId, const TStr& attr); 
-  /// Deletes the edge attribute for NodeI.
-  int DelAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return DelAttrDatE(EdgeI.GetId(), attr); } 
-  int DelAttrDatE(const int& EId, const TStr& attr); 
-
-  /// Adds a new Int node attribute to the hashmap.
-  int AddIntAttrN(const TStr& attr, TInt defaultValue=TInt::Mn);
-  /// Adds a new Str node attribute to the hashmap.
-  int AddStrAttrN(const TStr& attr, TStr defaultValue=TStr::GetNullStr());
-  /// Adds a new Flt node attribute to the hashmap.
-  int AddFltAttrN(const TStr& attr, TFlt defaultValue=TFlt::Mn);
-  /// Adds a new IntV node attribute to the hashmap.
-  int AddIntVAttrN(const TStr& attr);
-
-  /// Adds a new Int edge attribute to the hashmap.
-  int AddIntAttrE(const TStr& attr, TInt defaultValue=TInt::Mn);
-  /// Adds a new Str edge attribute to the hashmap.
-  int AddStrAttrE(const TStr& attr, TStr defaultValue=TStr::GetNullStr());
-  /// Adds a new Flt edge attribute to the hashmap.
-  int AddFltAttrE(const TStr& attr, TFlt defaultValue=TFlt::Mn);
-  /// Adds a new IntV edge attribute to the hashmap.
-  int AddIntVAttrE(const TStr& attr);
-
-  /// Removes all the values for node attr.
-  int DelAttrN(const TStr& attr);
-  /// Removes all the values for edge  attr.
-  int DelAttrE(const TStr& attr);
-
-  /// Returns true if \c attr exists for node \c NId and has default value.
-  bool IsAttrDeletedN(const int& NId, const TStr& attr) const;
-  /// Returns true if Int \c attr exists for node \c NId and has default value.
-  bool IsIntAttrDeletedN(const int& NId, const TStr& attr) const;
-  /// Returns true if IntV \c attr exists for node \c NId and is an empty vector.
-  bool IsIntVAttrDeletedN(const int& NId, const TStr& attr) const;
-  /// Returns true if Str \c attr exists for node \c NId and has default value.
-  bool IsStrAttrDeletedN(const int& NId, const TStr& attr) const;
-  /// Returns true if Flt \c attr exists for node \c NId and has default value.
-  bool IsFltAttrDeletedN(const int& NId, const TStr& attr) const;
-
-  /// Returns true if NId attr deleted for current node attr iterator.
-  bool NodeAttrIsDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-  /// Returns true if NId attr deleted value for current node int attr iterator.
-  bool NodeAttrIsIntDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-  /// Returns true if NId attr deleted value for current node int vector attr iterator.
-  bool NodeAttrIsIntVDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-  /// Returns true if NId attr deleted value for current node str attr iterator.
-  bool NodeAttrIsStrDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-  /// Returns true if NId attr deleted value for current node flt attr iterator.
-  bool NodeAttrIsFltDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-
-  /// Returns true if \c attr exists for edge \c EId and has default value.
-  bool IsAttrDeletedE(const int& EId, const TStr& attr) const;
-  /// Returns true if Int \c attr exists for edge \c EId and has default value.
-  bool IsIntAttrDeletedE(const int& EId, const TStr& attr) const;
-  /// Returns true if IntV \c attr exists for edge \c EId and is an empty vector.
-  bool IsIntVAttrDeletedE(const int& EId, const TStr& attr) const;
-  /// Returns true if Str \c attr exists for edge \c NId and has default value.
-  bool IsStrAttrDeletedE(const int& EId, const TStr& attr) const;
-  /// Returns true if Flt \c attr exists for edge \c NId and has default value.
-  bool IsFltAttrDeletedE(const int& EId, const TStr& attr) const;
-
-  /// Returns true if EId attr deleted for current edge attr iterator.
-  bool EdgeAttrIsDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-  /// Returns true if EId attr deleted for current edge int attr iterator.
-  bool EdgeAttrIsIntDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-  /// Returns true if EId attr deleted for current edge int vector attr iterator.
-  bool EdgeAttrIsIntVDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-  /// Returns true if EId attr deleted for current edge str attr iterator.
-  bool EdgeAttrIsStrDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-  /// Returns true if EId attr deleted for current edge flt attr iterator.
-  bool EdgeAttrIsFltDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-
-  /// Returns node attribute value, converted to Str type.
-  TStr GetNodeAttrValue(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
-  /// Returns edge attribute value, converted to Str type.
-  TStr GetEdgeAttrValue(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
-
-  /// Gets the sum of the weights of all the outgoing edges of the node.
-  TFlt GetWeightOutEdges(const TNodeI& NI, const TStr& attr);
-  /// Checks if there is an edge attribute with name attr.
-  bool IsFltAttrE(const TStr& attr);
-  /// Checks if there is an edge attribute with name attr.
-  bool IsIntAttrE(const TStr& attr);
-  /// Checks if there is an edge attribute with name attr.
-  bool IsStrAttrE(const TStr& attr);
-  /// Gets Vector for the Flt Attribute attr.
-  TVec<TFlt>& GetFltAttrVecE(const TStr& attr);
-  /// Gets keyid for edge with id EId.
-  int GetFltKeyIdE(const int& EId);
-
-  /// Fills OutWeights with the outgoing weight from each node.
-  void GetWeightOutEdgesV(TFltV& OutWeights, const TFltV& AttrVal) ;
-  /// Fills each of the vectors with the names of node attributes of the given type.
-  void GetAttrNNames(TStrV& IntAttrNames, TStrV& FltAttrNames, TStrV& StrAttrNames) const;
-  /// Fills each of the vectors with the names of edge attributes of the given type.
-  void GetAttrENames(TStrV& IntAttrNames, TStrV& FltAttrNames, TStrV& StrAttrNames) const;
-
-
-  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
-  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  } 
-  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
-    return DelSAttrDatN(NodeI.GetId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
-    return DelSAttrDatN(NodeI.GetId(), AttrId);
-  }
-
-  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
-  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
-  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
-  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  /// Adds Int sparse attribute with name \c AttrName to the given edge with id \c EId.
-  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given edge with id \c EId. 
-  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given edge with id \c EId.
-  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given edge with id \c EId.
-  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
-    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given edge with id \c EId.
-  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given edge with id \c EId.
-  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
-  } 
-
-  /// Gets Flt sparse attribute with name \c AttrName from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TFlt& ValX) const; 
-  /// Gets Flt sparse attribute with id \c AttrId from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
-  } 
-
-  /// Gets Str sparse attribute with name \c AttrName from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from edge with id \c EId.
-  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from edge with id \c EId.
-  int DelSAttrDatE(const TInt& EId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from edge with id \c EId.
-  int DelSAttrDatE(const TInt& EId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
-    return DelSAttrDatE(EdgeI.GetId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
-    return DelSAttrDatE(EdgeI.GetId(), AttrId);
-  } 
-  /// Gets a list of all sparse attributes of type \c AttrType for edge with id \c EId.
-  int GetSAttrVE(const TInt& EId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
-  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVE(EdgeI.GetId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrE(const TStr& AttrName, TIntV& IdV) const;
-  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrE(const TInt& AttrId, TIntV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  /// Returns a small multigraph on 5 nodes and 6 edges. ##TNEANet::GetSmallGraph
-  static PNEANet GetSmallGraph();
-  friend class TPt<TNEANet>;
-};
-
-// set flags
-namespace TSnap {
-template <> struct IsMultiGraph<TNEANet> { enum { Val = 1 }; };
-template <> struct IsDirected<TNEANet> { enum { Val = 1 }; };
-}
-
- //#//////////////////////////////////////////////
-/// Undirected networks
-
-class TUndirNet;
-
-/// Pointer to an undirected network (TUndirNet)
-typedef TPt<TUndirNet> PUndirNet;
-
-//#//////////////////////////////////////////////
-/// Directed networks
-class TDirNet;
-
-/// Pointer to a directed network (TDirNet)
-typedef TPt<TDirNet> PDirNet;
-
-//#//////////////////////////////////////////////
-/// Undirected network. ##TUndirNet::Class
-class TUndirNet {
-public:
-  typedef TUndirNet TNet;
-  typedef TPt<TUndirNet> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV NIdV;
-  public:
-    TNode() : Id(-1), NIdV() { }
-    TNode(const int& NId) : Id(NId), NIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return NIdV.Len(); }
-    int GetInDeg() const { return GetDeg(); }
-    int GetOutDeg() const { return GetDeg(); }
-    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
-    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
-    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
-    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
-    void PackOutNIdV() { NIdV.Pack(); }
-    void PackNIdV() { NIdV.Pack(); }
-    friend class TUndirNet;
-    friend class TUndirNetMtx;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-  public:
-    TNodeI() : NodeHI() { }
-    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
-
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    /// Decrement iterator.
-    TNodeI& operator-- (int) { NodeHI--; return *this; }
-
-
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node (returns same as value GetDeg() since the network is undirected).
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node (returns same as value GetDeg() since the network is undirected).
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TUndirNet::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TUndirNet::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TUndirNet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return NodeHI.GetDat().IsNbrNId(NId); }
-    friend class TUndirNet;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; } return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { do { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++; while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } } } while (CurNode < EndNode && GetSrcNId()>GetDstNId()); return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Returns the source of the edge. Since the network is undirected, this is the node with a smaller ID of the edge endpoints.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Returns the destination of the edge. Since the network is undirected, this is the node with a greater ID of the edge endpoints.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    friend class TUndirNet;
-  };
-private:
-  TCRef CRef;
-  TInt MxNId, NEdges;
-  THash<TInt, TNode> NodeH;
-
-  TAttr SAttrN;
-  TAttrPair SAttrE;
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  TIntPr OrderEdgeNodes(const int& SrcNId, const int& DstNId) const;
-public:
-  TUndirNet() : CRef(), MxNId(0), NEdges(0), NodeH(), SAttrN(), SAttrE() { }
-  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
-  explicit TUndirNet(const int& Nodes, const int& Edges) : MxNId(0), NEdges(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
-  TUndirNet(const TUndirNet& Graph) : MxNId(Graph.MxNId), NEdges(Graph.NEdges), NodeH(Graph.NodeH),
-    SAttrN(), SAttrE() { }
-  /// Constructor that loads the network from a (binary) stream SIn.
-  TUndirNet(TSIn& SIn) : MxNId(SIn), NEdges(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
-  /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut);
-    SAttrN.Save(SOut); SAttrE.Save(SOut); }
-  /// Saves the network to a (binary) stream SOut. Available for backwards compatibility.
-  void Save_V1(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the network. Call: PUndirNet Graph = TUndirNet::New().
-  static PUndirNet New() { return new TUndirNet(); }
-  /// Static constructor that returns a pointer to the network and reserves enough memory for Nodes nodes and Edges edges. ##TUndirNet::New
-  static PUndirNet New(const int& Nodes, const int& Edges) { return new TUndirNet(Nodes, Edges); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
-  static PUndirNet Load(TSIn& SIn) { return PUndirNet(new TUndirNet(SIn)); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it. Backwards compatible.
-  static PUndirNet Load_V1(TSIn& SIn) { PUndirNet Graph = PUndirNet(new TUndirNet());
-    Graph->MxNId.Load(SIn); Graph->NEdges.Load(SIn); Graph->NodeH.Load(SIn); return Graph;
-  }
-
-  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TUndirNet& operator = (const TUndirNet& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; } return *this; }
-  
-  /// Returns the number of nodes in the network.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the network. ##TUndirNet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the network.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
-  /// Adds a node of ID NId to the network and create edges to all nodes in vector NbrNIdV. ##TUndirNet::AddNode-1
-  int AddNode(const int& NId, const TIntV& NbrNIdV);
-  /// Adds a node of ID NId to the network and create edges to all nodes in vector NIdVId in the vector pool Pool. ##TUndirNet::AddNode-2
-  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NIdVId);
-  /// Deletes node of ID NId from the network. ##TUndirNet::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the network.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the network.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
-  /// Returns an iterator referring to the past-the-end node in the network.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
-  /// Returns an iterator referring to the node of ID NId in the network.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-
-  /// Returns the number of edges in the network.
-  int GetEdges() const;
-  /// Adds an edge between node IDs SrcNId and DstNId to the network. ##TUndirNet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the network.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge between node IDs SrcNId and DstNId from the network. ##TUndirNet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId);
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId) const;
-  /// Returns an iterator referring to the first edge in the network.
-  TEdgeI BegEI() const { TNodeI NI = BegNI(); TEdgeI EI(NI, EndNI(), 0); if (GetNodes() != 0 && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { EI++; } return EI; }
-  /// Returns an iterator referring to the past-the-end edge in the network.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const;
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network. ##TUndirNet::GetEI
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-
-  /// Returns an ID of a random node in the network.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the network.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the network.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the network is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the network.
-  void Clr() { MxNId=0; NEdges=0; NodeH.Clr(); SAttrN.Clr(); SAttrE.Clr(); }
-  /// Reserves memory for a network of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) NodeH.Gen(Nodes/2); }
-  /// Reserves memory for node ID NId having Deg edges.
-  void ReserveNIdDeg(const int& NId, const int& Deg) { GetNode(NId).NIdV.Reserve(Deg); }
-  /// Defragments the network. ##TUndirNet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the network data structure for internal consistency. ##TUndirNet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the network in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small network on 5 nodes and 5 edges. ##TUndirNet::GetSmallGraph
-  static PUndirNet GetSmallGraph();
-
-  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
-  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  } 
-  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
-    return DelSAttrDatN(NodeI.GetId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
-    return DelSAttrDatN(NodeI.GetId(), AttrId);
-  }
-
-  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
-  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
-  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
-  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  /// Adds Int sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  } 
-
-  /// Gets Flt sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TFlt& ValX) const; 
-  /// Gets Flt sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  } 
-
-  /// Gets Str sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
-    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
-    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId);
-  } 
-  /// Gets a list of all sparse attributes of type \c AttrType for edge with ids \c SrcId and \c DstId.
-  int GetSAttrVE(const int& SrcNId, const int& DstNId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
-  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrE(const TStr& AttrName, TIntPrV& IdV) const;
-  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrE(const TInt& AttrId, TIntPrV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  friend class TUndirNetMtx;
-  friend class TPt<TUndirNet>;
-};
-
-//#//////////////////////////////////////////////
-/// Directed network. ##TDirNet::Class
-class TDirNet {
-public:
-  typedef TDirNet TNet;
-  typedef TPt<TDirNet> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV InNIdV, OutNIdV;
-  public:
-    TNode() : Id(-1), InNIdV(), OutNIdV() { }
-    TNode(const int& NId) : Id(NId), InNIdV(), OutNIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), InNIdV(SIn), OutNIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); InNIdV.Save(SOut); OutNIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InNIdV.Len(); }
-    int GetOutDeg() const { return OutNIdV.Len(); }
-    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
-    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
-    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg()?GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
-    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
-    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    void PackOutNIdV() { OutNIdV.Pack(); }
-    void PackNIdV() { InNIdV.Pack(); }
-    friend class TDirNet;
-    friend class TDirNetMtx;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-  public:
-    TNodeI() : NodeHI() { }
-    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    /// Decrement iterator.
-    TNodeI& operator-- (int) { NodeHI--; return *this; }
-
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node, the sum of in-degree and out-degree.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TDirNet::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TDirNet::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TDirNet::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    friend class TDirNet;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
-      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Returns the source node of the edge.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Returns the destination node of the edge.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    friend class TDirNet;
-  };
-private:
-  TCRef CRef;
-  TInt MxNId;
-  THash<TInt, TNode> NodeH;
-  TAttr SAttrN;
-  TAttrPair SAttrE;
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-public:
-  TDirNet() : CRef(), MxNId(0), NodeH(), SAttrN(), SAttrE() { }
-  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
-  explicit TDirNet(const int& Nodes, const int& Edges) : MxNId(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
-  TDirNet(const TDirNet& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH), SAttrN(), SAttrE() { }
-  /// Constructor that loads the network from a (binary) stream SIn.
-  TDirNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
-  /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); SAttrN.Save(SOut); SAttrE.Save(SOut); }
-  /// Saves the network to a (binary) stream SOut. Available for backwards compatibility.
-  void Save_V1(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the network. Call: PDirNet Graph = TDirNet::New().
-  static PDirNet New() { return new TDirNet(); }
-  /// Static constructor that returns a pointer to the network and reserves enough memory for Nodes nodes and Edges edges. ##TDirNet::New
-  static PDirNet New(const int& Nodes, const int& Edges) { return new TDirNet(Nodes, Edges); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
-  static PDirNet Load(TSIn& SIn) { return PDirNet(new TDirNet(SIn)); }
-  /// Static constructor that loads the network from a stream SIn and returns a pointer to it. Backwards compatible.
-  static PDirNet Load_V1(TSIn& SIn) { PDirNet Graph = PDirNet(new TDirNet());
-    Graph->MxNId.Load(SIn); Graph->NodeH.Load(SIn); return Graph;
-  }
-  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TDirNet& operator = (const TDirNet& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; }  return *this; }
-  
-  /// Returns the number of nodes in the network.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the network. ##TDirNet::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the network.
-  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
-  /// Adds a node of ID NId to the network, creates edges to the node from all nodes in vector InNIdV, creates edges from the node to all nodes in vector OutNIdV. ##TDirNet::AddNode-1
-  int AddNode(const int& NId, const TIntV& InNIdV, const TIntV& OutNIdV);
-  /// Adds a node of ID NId to the network, creates edges to the node from all nodes in vector InNIdV in the vector pool Pool, creates edges from the node to all nodes in vector OutNIdVin the vector pool Pool . ##TDirNet::AddNode-2
-  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& SrcVId, const int& DstVId);
-  /// Deletes node of ID NId from the network. ##TDirNet::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the network.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the network.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
-  /// Returns an iterator referring to the past-the-end node in the network.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
-  /// Returns an iterator referring to the node of ID NId in the network.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
-  // GetNodeC() has been commented out. It was a quick shortcut, do not use.
-  //const TNode& GetNodeC(const int& NId) const { return NodeH.GetDat(NId); }
-  /// Returns an ID that is larger than any node ID in the network.
-  int GetMxNId() const { return MxNId; }
-
-  /// Returns the number of edges in the network.
-  int GetEdges() const;
-  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TDirNet::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the network.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TDirNet::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
-  /// Returns an iterator referring to the first edge in the network.
-  TEdgeI BegEI() const { TNodeI NI=BegNI(); while(NI<EndNI() && NI.GetOutDeg()==0){NI++;} return TEdgeI(NI, EndNI()); }
-  /// Returns an iterator referring to the past-the-end edge in the network.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const; // not supported
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-
-  /// Returns an ID of a random node in the network.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the network.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the network.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the network is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the network.
-  void Clr() { MxNId=0; NodeH.Clr(); SAttrN.Clr(); SAttrE.Clr(); }
-  /// Reserves memory for a network of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
-  /// Reserves memory for node ID NId having InDeg in-edges.
-  void ReserveNIdInDeg(const int& NId, const int& InDeg) { GetNode(NId).InNIdV.Reserve(InDeg); }
-  /// Reserves memory for node ID NId having OutDeg out-edges.
-  void ReserveNIdOutDeg(const int& NId, const int& OutDeg) { GetNode(NId).OutNIdV.Reserve(OutDeg); }
-  /// Defragments the network. ##TDirNet::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the network data structure for internal consistency. ##TDirNet::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the network in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small network on 5 nodes and 6 edges. ##TDirNet::GetSmallGraph
-  static PDirNet GetSmallGraph();
-
-  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
-  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
-  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
-  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
-  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  } 
-  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
-  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
-  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
-  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
-    return DelSAttrDatN(NodeI.GetId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
-  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
-    return DelSAttrDatN(NodeI.GetId(), AttrId);
-  }
-
-  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
-  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
-  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
-  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  /// Adds Int sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TInt& Val);
-  /// Adds Int sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TInt& Val);
-
-  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Adds Flt sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TFlt& Val);
-  /// Adds Flt sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TFlt& Val);
-
-  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Adds Str sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TStr& Val);
-  /// Adds Str sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
-  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TStr& Val);
-
-  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
-  }
-  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
-  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
-    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
-  }
-
-  /// Gets Int sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TInt& ValX) const;
-  /// Gets Int sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TInt& ValX) const;
-
-  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  } 
-
-  /// Gets Flt sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TFlt& ValX) const; 
-  /// Gets Flt sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TFlt& ValX) const;
-
-  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  } 
-
-  /// Gets Str sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TStr& ValX) const;
-  /// Gets Str sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TStr& ValX) const;
-
-  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
-  }
-  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
-  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
-    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
-  }
-
-  /// Deletes sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
-  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName);
-  /// Deletes sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
-  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId);
-
-  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
-    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName);
-  }
-  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
-  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
-    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId);
-  } 
-  /// Gets a list of all sparse attributes of type \c AttrType for edge with ids \c SrcId and \c DstId.
-  int GetSAttrVE(const int& SrcNId, const int& DstNId, const TAttrType AttrType, TAttrPrV& AttrV) const;
-  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
-  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
-    return GetSAttrVE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrType, AttrV);
-  }
-
-  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
-  int GetIdVSAttrE(const TStr& AttrName, TIntPrV& IdV) const;
-  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
-  int GetIdVSAttrE(const TInt& AttrId, TIntPrV& IdV) const;
-
-  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
-  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
-
-  /// Gets id and type for attribute with name \c Name.
-  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
-  /// Gets name and type for attribute with id \c AttrId.
-  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
-
-  friend class TPt<TDirNet>;
-  friend class TDirNetMtx;
-};
-
-// set flags
-namespace TSnap {
-template <> struct IsDirected<TDirNet> { enum { Val = 1 }; };
-}
-#endif // NETWORK_H
+#ifndef NETWORK_H
+#define NETWORK_H
+
+/////////////////////////////////////////////////
+// Node Data
+// TNodeData has to implement the following methods:
+//  class TNodeData {
+//  public:
+//    TNodeData() { }
+//    TNodeData(TSIn& SIn) { }
+//    void Save(TSOut& SOut) const { }
+//  };
+
+//#//////////////////////////////////////////////
+/// Node Network (directed graph, TNGraph with data on nodes only).
+template <class TNodeData>
+class TNodeNet {
+public:
+  typedef TNodeData TNodeDat;
+  typedef TNodeNet<TNodeData> TNet;
+  typedef TPt<TNet> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TNodeData NodeDat;
+    TIntV InNIdV, OutNIdV;
+  public:
+    TNode() : Id(-1), NodeDat(), InNIdV(), OutNIdV() { }
+    TNode(const int& NId) : Id(NId), NodeDat(), InNIdV(), OutNIdV() { }
+    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), NodeDat(NodeData), InNIdV(), OutNIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), NodeDat(Node.NodeDat), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), NodeDat(SIn), InNIdV(SIn), OutNIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut);  NodeDat.Save(SOut);  InNIdV.Save(SOut);  OutNIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InNIdV.Len(); }
+    int GetOutDeg() const { return OutNIdV.Len(); }
+    const TNodeData& GetDat() const { return NodeDat; }
+    TNodeData& GetDat() { return NodeDat; }
+    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
+    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
+    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg() ? GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
+    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
+    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
+    friend class TNodeNet<TNodeData>;
+  };
+
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef typename THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+    TNodeNet *Net;
+  public:
+    TNodeI() : NodeHI(), Net(NULL) { }
+    TNodeI(const THashIter& NodeHIter, const TNodeNet* NetPt) : NodeHI(NodeHIter), Net((TNodeNet *) NetPt) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI=NodeI.NodeHI; Net=NodeI.Net; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++;  return *this; }
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNodeNet::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNodeNet::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TNodeNet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    const TNodeData& operator () () const { return NodeHI.GetDat().NodeDat; }
+    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
+    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetInNDat(const int& NodeN) const { return Net->GetNDat(GetInNId(NodeN)); }
+    TNodeData& GetInNDat(const int& NodeN) { return Net->GetNDat(GetInNId(NodeN)); }
+    const TNodeData& GetOutNDat(const int& NodeN) const { return Net->GetNDat(GetOutNId(NodeN)); }
+    TNodeData& GetOutNDat(const int& NodeN) { return Net->GetNDat(GetOutNId(NodeN)); }
+    const TNodeData& GetNbrNDat(const int& NodeN) const { return Net->GetNDat(GetNbrNId(NodeN)); }
+    TNodeData& GetNbrNDat(const int& NodeN) { return Net->GetNDat(GetNbrNId(NodeN)); }
+    friend class TNodeNet<TNodeData>;
+  };
+
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode;  EndNode=EdgeI.EndNode;  CurEdge=EdgeI.CurEdge; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0;  CurNode++;
+      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Gets the source node of an edge.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Gets the destination node of an edge.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    const TNodeData& GetSrcNDat() const { return CurNode.GetDat(); }
+    TNodeData& GetDstNDat() { return CurNode.GetOutNDat(CurEdge); }
+    friend class TNodeNet<TNodeData>;
+  };
+
+protected:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+
+protected:
+  TCRef CRef;
+  TInt MxNId;
+  THash<TInt, TNode> NodeH;
+
+public:
+  TNodeNet() : CRef(), MxNId(0), NodeH() { }
+  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
+  explicit TNodeNet(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
+  TNodeNet(const TNodeNet& NodeNet) : MxNId(NodeNet.MxNId), NodeH(NodeNet.NodeH) { }
+  /// Constructor that loads the network from a (binary) stream SIn.
+  TNodeNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
+  virtual ~TNodeNet() { }
+  /// Saves the network to a (binary) stream SOut.
+  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeNet<TNodeData> > Net = TNodeNet<TNodeData>::New().
+  static PNet New() { return PNet(new TNodeNet()); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
+  static PNet Load(TSIn& SIn) { return PNet(new TNodeNet(SIn)); }
+  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TNodeNet& operator = (const TNodeNet& NodeNet) {
+    if (this!=&NodeNet) { NodeH=NodeNet.NodeH;  MxNId=NodeNet.MxNId; }  return *this; }
+  // nodes
+  /// Returns the number of nodes in the network.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the network. ##TNodeNet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NId and node data NodeDat to the network. ##TNodeNet::AddNode-1
+  int AddNode(int NId, const TNodeData& NodeDat);
+  /// Adds a node NodeI and its node data to the network.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
+  /// Deletes node of ID NId from the network. ##TNodeNet::DelNode
+  virtual void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the network.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the network.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end node in the network.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
+  /// Returns an iterator referring to the node of ID NId in the network.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
+  /// Returns node element for the node of ID NId in the network.
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  /// Sets node data for the node of ID NId in the network.
+  void SetNDat(const int& NId, const TNodeData& NodeDat);
+  /// Returns node data for the node of ID NId in the network.
+  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns node data for the node of ID NId in the network.
+  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+
+  // edges
+  /// Returns the number of edges in the network.
+  int GetEdges() const;
+  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TNodeNet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the network.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeNet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
+  /// Returns an iterator referring to the first edge in the network.
+  TEdgeI BegEI() const { TNodeI NI=BegNI();  while(NI<EndNI() && NI.GetOutDeg()==0) NI++;  return TEdgeI(NI, EndNI()); }
+  /// Returns an iterator referring to the past-the-end edge in the network.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const;
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+
+  /// Returns an ID of a random node in the network.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the network.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the network.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the network is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the network.
+  void Clr(const bool& DoDel=true, const bool& ResetDat=true) {
+    MxNId = 0;  NodeH.Clr(DoDel, -1, ResetDat); }
+  /// Reserves memory for a network of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
+  /// Sorts nodes by node IDs.
+  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
+  /// Sorts nodes by node data.
+  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
+  /// Defragments the network. ##TNodeNet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the network data structure for internal consistency. ##TNodeNet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+
+  friend class TPt<TNodeNet<TNodeData> >;
+};
+
+// set flags
+namespace TSnap {
+template <class TNodeData> struct IsDirected<TNodeNet<TNodeData> > { enum { Val = 1 }; };
+template <class TNodeData> struct IsNodeDat<TNodeNet<TNodeData> > { enum { Val = 1 }; };
+}
+
+template <class TNodeData>
+bool TNodeNet<TNodeData>::HasFlag(const TGraphFlag& Flag) const {
+  return HasGraphFlag(typename TNet, Flag);
+}
+
+template <class TNodeData>
+int TNodeNet<TNodeData>::AddNode(int NId) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId));
+  return NId;
+}
+
+template <class TNodeData>
+int TNodeNet<TNodeData>::AddNode(int NId, const TNodeData& NodeDat) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId, NodeDat));
+  return NId;
+}
+
+template <class TNodeData>
+void TNodeNet<TNodeData>::DelNode(const int& NId) {
+  { TNode& Node = GetNode(NId);
+  for (int e = 0; e < Node.GetOutDeg(); e++) {
+  const int nbr = Node.GetOutNId(e);
+  if (nbr == NId) { continue; }
+    TNode& N = GetNode(nbr);
+    int n = N.InNIdV.SearchBin(NId);
+    if (n!= -1) { N.InNIdV.Del(n); }
+  }
+  for (int e = 0; e < Node.GetInDeg(); e++) {
+  const int nbr = Node.GetInNId(e);
+  if (nbr == NId) { continue; }
+    TNode& N = GetNode(nbr);
+    int n = N.OutNIdV.SearchBin(NId);
+    if (n!= -1) { N.OutNIdV.Del(n); }
+  } }
+  NodeH.DelKey(NId);
+}
+
+template <class TNodeData>
+void TNodeNet<TNodeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
+  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
+  NodeH.GetDat(NId).NodeDat = NodeDat;
+}
+
+template <class TNodeData>
+int TNodeNet<TNodeData>::GetEdges() const {
+  int edges=0;
+  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N);) {
+    edges+=NodeH[N].GetOutDeg(); }
+  return edges;
+}
+
+template <class TNodeData>
+int TNodeNet<TNodeData>::AddEdge(const int& SrcNId, const int& DstNId) {
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  if (IsEdge(SrcNId, DstNId)) { return -2; }
+  GetNode(SrcNId).OutNIdV.AddSorted(DstNId);
+  GetNode(DstNId).InNIdV.AddSorted(SrcNId);
+  return -1; // edge id
+}
+
+template <class TNodeData>
+void TNodeNet<TNodeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  GetNode(SrcNId).OutNIdV.DelIfIn(DstNId);
+  GetNode(DstNId).InNIdV.DelIfIn(SrcNId);
+  if (! IsDir) {
+    GetNode(DstNId).OutNIdV.DelIfIn(SrcNId);
+    GetNode(SrcNId).InNIdV.DelIfIn(DstNId);
+  }
+}
+
+template <class TNodeData>
+bool TNodeNet<TNodeData>::IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) const {
+  if (! IsNode(SrcNId) || ! IsNode(DstNId)) { return false; }
+  if (IsDir) { return GetNode(SrcNId).IsOutNId(DstNId); }
+  else { return GetNode(SrcNId).IsOutNId(DstNId) || GetNode(DstNId).IsOutNId(SrcNId); }
+}
+
+template <class TNodeData>
+void TNodeNet<TNodeData>::GetNIdV(TIntV& NIdV) const {
+  NIdV.Reserve(GetNodes(), 0);
+  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    NIdV.Add(NodeH.GetKey(N)); }
+}
+
+template <class TNodeData>
+typename TNodeNet<TNodeData>::TEdgeI  TNodeNet<TNodeData>::GetEI(const int& SrcNId, const int& DstNId) const {
+  const TNodeI SrcNI = GetNI(SrcNId);
+  const int NodeN = SrcNI.NodeHI.GetDat().OutNIdV.SearchBin(DstNId);
+  if (NodeN == -1) { return EndEI(); }
+  return TEdgeI(SrcNI, EndNI(), NodeN);
+}
+
+template <class TNodeData>
+void TNodeNet<TNodeData>::Defrag(const bool& OnlyNodeLinks) {
+  for (int n = NodeH.FFirstKeyId(); NodeH.FNextKeyId(n); ) {
+    TNode& Node = NodeH[n];
+    Node.InNIdV.Pack();  Node.OutNIdV.Pack();
+  }
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
+    NodeH.Defrag(); }
+}
+
+template <class TNodeData>
+bool TNodeNet<TNodeData>::IsOk(const bool& ThrowExcept) const {
+  bool RetVal = true;
+  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    const TNode& Node = NodeH[N];
+    if (! Node.OutNIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("Out-neighbor list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    if (! Node.InNIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("In-neighbor list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    // check out-edges
+    int prevNId = -1;
+    for (int e = 0; e < Node.GetOutDeg(); e++) {
+      if (! IsNode(Node.GetOutNId(e))) {
+        const TStr Msg = TStr::Fmt("Out-edge %d --> %d: node %d does not exist.",
+          Node.GetId(), Node.GetOutNId(e), Node.GetOutNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevNId == Node.GetOutNId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge %d --> %d.",
+          Node.GetId(), Node.GetId(), Node.GetOutNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevNId = Node.GetOutNId(e);
+    }
+    // check in-edges
+    prevNId = -1;
+    for (int e = 0; e < Node.GetInDeg(); e++) {
+      if (! IsNode(Node.GetInNId(e))) {
+        const TStr Msg = TStr::Fmt("In-edge %d <-- %d: node %d does not exist.",
+          Node.GetId(), Node.GetInNId(e), Node.GetInNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevNId == Node.GetInNId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate in-edge %d <-- %d.",
+          Node.GetId(), Node.GetId(), Node.GetInNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevNId = Node.GetInNId(e);
+    }
+  }
+  return RetVal;
+}
+
+/////////////////////////////////////////////////
+// Common network types
+typedef TNodeNet<TInt> TIntNNet;
+typedef TPt<TIntNNet> PIntNNet;
+typedef TNodeNet<TFlt> TFltNNet;
+typedef TPt<TFltNNet> PFltNNet;
+typedef TNodeNet<TStr> TStrNNet;
+typedef TPt<TStrNNet> PStrNNet;
+
+//#//////////////////////////////////////////////
+/// Node Edge Network (directed graph, TNGraph with data on nodes and edges).
+template <class TNodeData, class TEdgeData>
+class TNodeEDatNet {
+public:
+  typedef TNodeData TNodeDat;
+  typedef TEdgeData TEdgeDat;
+  typedef TNodeEDatNet<TNodeData, TEdgeData> TNet;
+  typedef TPt<TNet> PNet;
+  typedef TVec<TPair<TInt, TEdgeData> > TNIdDatPrV;
+public:
+  class TNode {
+  private:
+    TInt  Id;
+    TNodeData NodeDat;
+    TIntV InNIdV;
+    TNIdDatPrV OutNIdV;
+  public:
+    TNode() : Id(-1), NodeDat(), InNIdV(), OutNIdV() { }
+    TNode(const int& NId) : Id(NId), NodeDat(), InNIdV(), OutNIdV() { }
+    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), NodeDat(NodeData), InNIdV(), OutNIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), NodeDat(Node.NodeDat), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), NodeDat(SIn), InNIdV(SIn), OutNIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut);  NodeDat.Save(SOut);  InNIdV.Save(SOut);  OutNIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InNIdV.Len(); }
+    int GetOutDeg() const { return OutNIdV.Len(); }
+    const TNodeData& GetDat() const { return NodeDat; }
+    TNodeData& GetDat() { return NodeDat; }
+    int GetInNId(const int& EdgeN) const { return InNIdV[EdgeN]; }
+    int GetOutNId(const int& EdgeN) const { return OutNIdV[EdgeN].Val1; }
+    int GetNbrNId(const int& EdgeN) const { return EdgeN<GetOutDeg() ? GetOutNId(EdgeN):GetInNId(EdgeN-GetOutDeg()); }
+    TEdgeData& GetOutEDat(const int& EdgeN) { return OutNIdV[EdgeN].Val2; }
+    const TEdgeData& GetOutEDat(const int& EdgeN) const { return OutNIdV[EdgeN].Val2; }
+    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId)!=-1; }
+    bool IsOutNId(const int& NId) const { return TNodeEDatNet::GetNIdPos(OutNIdV, NId)!=-1; }
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
+    friend class TNodeEDatNet<TNodeData, TEdgeData>;
+  };
+
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef typename THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+    TNodeEDatNet *Net;
+  public:
+    TNodeI() : NodeHI(), Net(NULL) { }
+    TNodeI(const THashIter& NodeHIter, const TNodeEDatNet* NetPt) : NodeHI(NodeHIter), Net((TNodeEDatNet *) NetPt) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI=NodeI.NodeHI; Net=NodeI.Net; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++;  return *this; }
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNodeEDatNet::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNodeEDatNet::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TNodeEDatNet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    // node data
+    const TNodeData& operator () () const { return NodeHI.GetDat().NodeDat; }
+    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
+    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetOutNDat(const int& NodeN) const { return Net->GetNDat(GetOutNId(NodeN)); }
+    TNodeData& GetOutNDat(const int& NodeN) { return Net->GetNDat(GetOutNId(NodeN)); }
+    const TNodeData& GetInNDat(const int& NodeN) const { return Net->GetNDat(GetInNId(NodeN)); }
+    TNodeData& GetInNDat(const int& NodeN) { return Net->GetNDat(GetInNId(NodeN)); }
+    const TNodeData& GetNbrNDat(const int& NodeN) const { return Net->GetNDat(GetNbrNId(NodeN)); }
+    TNodeData& GetNbrNDat(const int& NodeN) { return Net->GetNDat(GetNbrNId(NodeN)); }
+    // edge data
+    TEdgeData& GetOutEDat(const int& EdgeN) { return NodeHI.GetDat().GetOutEDat(EdgeN); }
+    const TEdgeData& GetOutEDat(const int& EdgeN) const { return NodeHI.GetDat().GetOutEDat(EdgeN); }
+    TEdgeData& GetInEDat(const int& EdgeN) { return Net->GetEDat(GetInNId(EdgeN), GetId()); }
+    const TEdgeData& GetInEDat(const int& EdgeN) const { return Net->GetEDat(GetInNId(EdgeN), GetId()); }
+    TEdgeData& GetNbrEDat(const int& EdgeN) { return EdgeN<GetOutDeg() ? GetOutEDat(EdgeN) : GetInEDat(EdgeN-GetOutDeg()); }
+    const TEdgeData& GetNbrEDat(const int& EdgeN) const { return EdgeN<GetOutDeg() ? GetOutEDat(EdgeN) : GetInEDat(EdgeN-GetOutDeg()); }
+    friend class TNodeEDatNet<TNodeData, TEdgeData>;
+  };
+
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode;  EndNode=EdgeI.EndNode;  CurEdge=EdgeI.CurEdge; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0;  CurNode++;
+      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Gets the source node of an edge.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Gets the destination node of an edge.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    TEdgeData& operator () () { return CurNode.GetOutEDat(CurEdge); }
+    const TEdgeData& operator () () const { return CurNode.GetOutEDat(CurEdge); }
+    TEdgeData& GetDat() { return CurNode.GetOutEDat(CurEdge); }
+    const TEdgeData& GetDat() const { return CurNode.GetOutEDat(CurEdge); }
+    TNodeData& GetSrcNDat() { return CurNode(); }
+    const TNodeData& GetSrcNDat() const { return CurNode(); }
+    TNodeData& GetDstNDat() { return CurNode.GetOutNDat(CurEdge); }
+    const TNodeData& GetDstNDat() const { return CurNode.GetOutNDat(CurEdge); }
+    friend class TNodeEDatNet<TNodeData, TEdgeData>;
+  };
+
+protected:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  static int GetNIdPos(const TVec<TPair<TInt, TEdgeData> >& NIdV, const int& NId);
+protected:
+  TCRef CRef;
+  TInt MxNId;
+  THash<TInt, TNode> NodeH;
+public:
+  TNodeEDatNet() : CRef(), MxNId(0), NodeH() { }
+  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
+  explicit TNodeEDatNet(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
+  TNodeEDatNet(const TNodeEDatNet& NodeNet) : MxNId(NodeNet.MxNId), NodeH(NodeNet.NodeH) { }
+  /// Constructor that loads the network from a (binary) stream SIn.
+  TNodeEDatNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
+  virtual ~TNodeEDatNet() { }
+  /// Saves the network to a (binary) stream SOut.
+  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeEDatNet<TNodeData, TEdgeData> > Net = TNodeEDatNet<TNodeData, TEdgeData>::New().
+  static PNet New() { return PNet(new TNet()); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
+  static PNet Load(TSIn& SIn) { return PNet(new TNet(SIn)); }
+  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TNodeEDatNet& operator = (const TNodeEDatNet& NodeNet) { if (this!=&NodeNet) {
+    NodeH=NodeNet.NodeH;  MxNId=NodeNet.MxNId; }  return *this; }
+  // nodes
+  /// Returns the number of nodes in the network.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the network. ##TNodeEDatNet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NId and node data NodeDat to the network. ##TNodeEDatNet::AddNode-1
+  int AddNode(int NId, const TNodeData& NodeDat);
+  /// Adds a node NodeI and its node data to the network.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
+  /// Deletes node of ID NId from the network. ##TNodeEDatNet::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the network.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the network.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end node in the network.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
+  /// Returns an iterator referring to the node of ID NId in the network.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
+  /// Returns node element for the node of ID NId in the network.
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  /// Sets node data for the node of ID NId in the network.
+  void SetNDat(const int& NId, const TNodeData& NodeDat);
+  /// Returns node data for the node of ID NId in the network.
+  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns node data for the node of ID NId in the network.
+  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+
+  // edges
+  /// Returns the number of edges in the network.
+  int GetEdges() const;
+  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TNodeEDatNet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge and edge data from node IDs SrcNId to node DstNId. ##TNodeEDatNet::AddEdge-1
+  int AddEdge(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat);
+  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() and its edge data to the network.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI()); }
+  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeEDatNet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
+  /// Returns an iterator referring to the first edge in the network.
+  TEdgeI BegEI() const { TNodeI NI=BegNI();  while(NI<EndNI() && NI.GetOutDeg()==0) NI++; return TEdgeI(NI, EndNI()); }
+  /// Returns an iterator referring to the past-the-end edge in the network.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const; // not supported
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+  /// Sets edge data for the edge between nodes SrcNId and DstNId in the network.
+  void SetEDat(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat);
+  /// Returns edge data in Data for the edge from node IDs SrcNId to DstNId. ##TNodeEDatNet::GetEDat
+  bool GetEDat(const int& SrcNId, const int& DstNId, TEdgeData& EdgeDat) const;
+  /// Returns edge data for the edge from node IDs SrcNId to DstNId.
+  TEdgeData& GetEDat(const int& SrcNId, const int& DstNId);
+  /// Returns edge data for the edge from node IDs SrcNId to DstNId.
+  const TEdgeData& GetEDat(const int& SrcNId, const int& DstNId) const;
+  /// Sets edge data for all the edges in the network to EDat.
+  void SetAllEDat(const TEdgeData& EdgeDat);
+
+  /// Returns an ID of a random node in the network.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the network.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the network.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the network is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the network.
+  void Clr(const bool& DoDel=true, const bool& ResetDat=true) {
+    MxNId = 0;  NodeH.Clr(DoDel, -1, ResetDat); }
+  /// Reserves memory for a network of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
+  /// Sorts nodes by node IDs.
+  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
+  /// Sorts nodes by node data.
+  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
+  /// Defragments the network. ##TNodeEDatNet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the network data structure for internal consistency. ##TNodeEDatNet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+
+  friend class TPt<TNodeEDatNet<TNodeData, TEdgeData> >;
+};
+
+// set flags
+namespace TSnap {
+template <class TNodeData, class TEdgeData> struct IsDirected<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+template <class TNodeData, class TEdgeData> struct IsNodeDat<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+template <class TNodeData, class TEdgeData> struct IsEdgeDat<TNodeEDatNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEDatNet<TNodeData, TEdgeData>::HasFlag(const TGraphFlag& Flag) const {
+  return HasGraphFlag(typename TNet, Flag);
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::GetNIdPos(const TVec<TPair<TInt, TEdgeData> >& NIdV, const int& NId) {
+  int LValN=0, RValN = NIdV.Len()-1;
+  while (RValN >= LValN) {
+    const int ValN = (LValN+RValN)/2;
+    const int CurNId = NIdV[ValN].Val1;
+    if (NId == CurNId) { return ValN; }
+    if (NId < CurNId) { RValN=ValN-1; }
+    else { LValN=ValN+1; }
+  }
+  return -1;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::AddNode(int NId) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId));
+  return NId;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::AddNode(int NId, const TNodeData& NodeDat) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId, NodeDat));
+  return NId;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
+  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
+  NodeH.GetDat(NId).NodeDat = NodeDat;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::DelNode(const int& NId) {
+  const TNode& Node = GetNode(NId);
+  for (int out = 0; out < Node.GetOutDeg(); out++) {
+    const int nbr = Node.GetOutNId(out);
+    if (nbr == NId) { continue; }
+    TIntV& NIdV = GetNode(nbr).InNIdV;
+    const int pos = NIdV.SearchBin(NId);
+    if (pos != -1) { NIdV.Del(pos); }
+  }
+  for (int in = 0; in < Node.GetInDeg(); in++) {
+    const int nbr = Node.GetInNId(in);
+    if (nbr == NId) { continue; }
+    TNIdDatPrV& NIdDatV = GetNode(nbr).OutNIdV;
+    const int pos = GetNIdPos(NIdDatV, NId);
+    if (pos != -1) { NIdDatV.Del(pos); }
+  }
+  NodeH.DelKey(NId);
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::GetEdges() const {
+  int edges=0;
+  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    edges+=NodeH[N].GetOutDeg(); }
+  return edges;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId) {
+  return AddEdge(SrcNId, DstNId, TEdgeData());
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEDatNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat) {
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  //IAssert(! IsEdge(SrcNId, DstNId));
+  if (IsEdge(SrcNId, DstNId)) {
+    GetEDat(SrcNId, DstNId) = EdgeDat;
+    return -2;
+  }
+  GetNode(SrcNId).OutNIdV.AddSorted(TPair<TInt, TEdgeData>(DstNId, EdgeDat));
+  GetNode(DstNId).InNIdV.AddSorted(SrcNId);
+  return -1; // edge id
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  int pos = GetNIdPos(GetNode(SrcNId).OutNIdV, DstNId);
+  if (pos != -1) { GetNode(SrcNId).OutNIdV.Del(pos); }
+  pos = GetNode(DstNId).InNIdV.SearchBin(SrcNId);
+  if (pos != -1) { GetNode(DstNId).InNIdV.Del(pos); }
+  if (! IsDir) {
+    pos = GetNIdPos(GetNode(DstNId).OutNIdV, SrcNId);
+    if (pos != -1) { GetNode(DstNId).OutNIdV.Del(pos); }
+    pos = GetNode(SrcNId).InNIdV.SearchBin(DstNId);
+    if (pos != -1) { GetNode(SrcNId).InNIdV.Del(pos); }
+  }
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEDatNet<TNodeData, TEdgeData>::IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) const {
+  if (! IsNode(SrcNId) || ! IsNode(DstNId)) { return false; }
+  if (IsDir) { return GetNode(SrcNId).IsOutNId(DstNId); }
+  else { return GetNode(SrcNId).IsOutNId(DstNId) || GetNode(DstNId).IsOutNId(SrcNId); }
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::SetEDat(const int& SrcNId, const int& DstNId, const TEdgeData& EdgeDat) {
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  IAssertR(IsEdge(SrcNId, DstNId), TStr::Fmt("Edge between %d and %d does not exist.", SrcNId, DstNId).CStr());
+  GetEDat(SrcNId, DstNId) = EdgeDat;
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId, TEdgeData& EdgeDat) const {
+  if (! IsEdge(SrcNId, DstNId)) { return false; }
+  const TNode& N = GetNode(SrcNId);
+  EdgeDat = N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
+  return true;
+}
+
+template <class TNodeData, class TEdgeData>
+TEdgeData& TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId) {
+  Assert(IsEdge(SrcNId, DstNId));
+  TNode& N = GetNode(SrcNId);
+  return N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
+}
+
+template <class TNodeData, class TEdgeData>
+const TEdgeData& TNodeEDatNet<TNodeData, TEdgeData>::GetEDat(const int& SrcNId, const int& DstNId) const {
+  Assert(IsEdge(SrcNId, DstNId));
+  const TNode& N = GetNode(SrcNId);
+  return N.GetOutEDat(GetNIdPos(N.OutNIdV, DstNId));
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::SetAllEDat(const TEdgeData& EdgeDat) {
+  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
+    EI() = EdgeDat;
+  }
+}
+
+template <class TNodeData, class TEdgeData>
+typename TNodeEDatNet<TNodeData, TEdgeData>::TEdgeI  TNodeEDatNet<TNodeData, TEdgeData>::GetEI(const int& SrcNId, const int& DstNId) const {
+  const TNodeI SrcNI = GetNI(SrcNId);
+  int NodeN = -1;
+  //SrcNI.NodeHI.GetDat().OutNIdV.SearchBin(DstNId);
+  const TNIdDatPrV& NIdDatV = SrcNI.NodeHI.GetDat().OutNIdV;
+  int LValN=0, RValN=NIdDatV.Len()-1;
+  while (RValN>=LValN){
+    int ValN=(LValN+RValN)/2;
+    if (DstNId==NIdDatV[ValN].Val1){ NodeN=ValN; break; }
+    if (DstNId<NIdDatV[ValN].Val1){RValN=ValN-1;} else {LValN=ValN+1;}
+  }
+  if (NodeN == -1) { return EndEI(); }
+  else { return TEdgeI(SrcNI, EndNI(), NodeN); }
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::GetNIdV(TIntV& NIdV) const {
+  NIdV.Reserve(GetNodes(), 0);
+  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    NIdV.Add(NodeH.GetKey(N)); }
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEDatNet<TNodeData, TEdgeData>::Defrag(const bool& OnlyNodeLinks) {
+  for (int n = NodeH.FFirstKeyId(); NodeH.FNextKeyId(n);) {
+    TNode& Node = NodeH[n];
+    Node.InNIdV.Pack();  Node.OutNIdV.Pack();
+  }
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
+    NodeH.Defrag();
+  }
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEDatNet<TNodeData, TEdgeData>::IsOk(const bool& ThrowExcept) const {
+  bool RetVal = true;
+  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    const TNode& Node = NodeH[N];
+    if (! Node.OutNIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("Out-neighbor list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    if (! Node.InNIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("In-neighbor list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    // check out-edges
+    int prevNId = -1;
+    for (int e = 0; e < Node.GetOutDeg(); e++) {
+      if (! IsNode(Node.GetOutNId(e))) {
+        const TStr Msg = TStr::Fmt("Out-edge %d --> %d: node %d does not exist.",
+          Node.GetId(), Node.GetOutNId(e), Node.GetOutNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevNId == Node.GetOutNId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge %d --> %d.",
+          Node.GetId(), Node.GetId(), Node.GetOutNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevNId = Node.GetOutNId(e);
+    }
+    // check in-edges
+    prevNId = -1;
+    for (int e = 0; e < Node.GetInDeg(); e++) {
+      if (! IsNode(Node.GetInNId(e))) {
+        const TStr Msg = TStr::Fmt("In-edge %d <-- %d: node %d does not exist.",
+          Node.GetId(), Node.GetInNId(e), Node.GetInNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevNId == Node.GetInNId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate in-edge %d <-- %d.",
+          Node.GetId(), Node.GetId(), Node.GetInNId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevNId = Node.GetInNId(e);
+    }
+  }
+  return RetVal;
+}
+
+/////////////////////////////////////////////////
+// Common network types
+typedef TNodeEDatNet<TInt, TInt> TIntNEDNet;
+typedef TPt<TIntNEDNet> PIntNEDNet;
+typedef TNodeEDatNet<TInt, TFlt> TIntFltNEDNet;
+typedef TPt<TIntFltNEDNet> PIntFltNEDNet;
+typedef TNodeEDatNet<TStr, TInt> TStrIntNEDNet;
+typedef TPt<TStrIntNEDNet> PStrIntNEDNet;
+
+//#//////////////////////////////////////////////
+/// Node Edge Network (directed multigraph, TNEGraph with data on nodes and edges).
+template <class TNodeData, class TEdgeData>
+class TNodeEdgeNet {
+public:
+  typedef TNodeData TNodeDat;
+  typedef TEdgeData TEdgeDat;
+  typedef TNodeEdgeNet<TNodeData, TEdgeData> TNet;
+  typedef TPt<TNet> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV InEIdV, OutEIdV;
+    TNodeData NodeDat;
+  public:
+    TNode() : Id(-1), InEIdV(), OutEIdV(), NodeDat() { }
+    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV(), NodeDat()  { }
+    TNode(const int& NId, const TNodeData& NodeData) : Id(NId), InEIdV(), OutEIdV(), NodeDat(NodeData) { }
+    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV), NodeDat(Node.NodeDat) { }
+    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn), NodeDat(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut);  InEIdV.Save(SOut);  OutEIdV.Save(SOut);  NodeDat.Save(SOut); }
+    bool operator < (const TNode& Node) const { return NodeDat < Node.NodeDat; }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InEIdV.Len(); }
+    int GetOutDeg() const { return OutEIdV.Len(); }
+    const TNodeData& GetDat() const { return NodeDat; }
+    TNodeData& GetDat() { return NodeDat; }
+    int GetInEId(const int& NodeN) const { return InEIdV[NodeN]; }
+    int GetOutEId(const int& NodeN) const { return OutEIdV[NodeN]; }
+    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
+    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
+    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
+    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
+    friend class TNodeEdgeNet<TNodeData, TEdgeData>;
+  };
+
+  class TEdge {
+  private:
+    TInt Id, SrcNId, DstNId;
+    TEdgeData EdgeDat;
+  public:
+    TEdge() : Id(-1), SrcNId(-1), DstNId(-1), EdgeDat() { }
+    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId), EdgeDat() { }
+    TEdge(const int& EId, const int& SourceNId, const int& DestNId, const TEdgeData& EdgeData) : Id(EId), SrcNId(SourceNId), DstNId(DestNId), EdgeDat(EdgeData) { }
+    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId), EdgeDat(Edge.EdgeDat) { }
+    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn), EdgeDat(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut);  SrcNId.Save(SOut);  DstNId.Save(SOut);  EdgeDat.Save(SOut); }
+    bool operator < (const TEdge& Edge) const { return EdgeDat < Edge.EdgeDat; }
+    int GetId() const { return Id; }
+    int GetSrcNId() const { return SrcNId; }
+    int GetDstNId() const { return DstNId; }
+    const TEdgeData& GetDat() const { return EdgeDat; }
+    TEdgeData& GetDat() { return EdgeDat; }
+    friend class TNodeEdgeNet;
+  };
+
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef typename THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+    TNodeEdgeNet *Net;
+  public:
+    TNodeI() : NodeHI(), Net(NULL) { }
+    TNodeI(const THashIter& NodeHIter, const TNodeEdgeNet* NetPt) : NodeHI(NodeHIter), Net((TNodeEdgeNet *)NetPt) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Net(NodeI.Net) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI;  Net=NodeI.Net;  return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++;  return *this; }
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node, the sum of in-degree and out-degree.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNodeEdgeNet::TNodeI::GetInNId
+    int GetInNId(const int& EdgeN) const { return Net->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
+    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNodeEdgeNet::TNodeI::GetOutNId
+    int GetOutNId(const int& EdgeN) const { return Net->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
+    /// Returns ID of EdgeN-th neighboring node. ##TNodeEdgeNet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Net->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN));
+      return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const;
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const;
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    // node data
+    const TNodeData& operator () () const { return NodeHI.GetDat().GetDat(); }
+    TNodeData& operator () () { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetDat() const { return NodeHI.GetDat().GetDat(); }
+    TNodeData& GetDat() { return NodeHI.GetDat().GetDat(); }
+    const TNodeData& GetInNDat(const int& EdgeN) const { return Net->GetNDat(GetInNId(EdgeN)); }
+    TNodeData& GetInNDat(const int& EdgeN) { return Net->GetNDat(GetInNId(EdgeN)); }
+    const TNodeData& GetOutNDat(const int& EdgeN) const { return Net->GetNDat(GetOutNId(EdgeN)); }
+    TNodeData& GetOutNDat(const int& EdgeN) { return Net->GetNDat(GetOutNId(EdgeN)); }
+    const TNodeData& GetNbrNDat(const int& EdgeN) const { return Net->GetNDat(GetNbrNId(EdgeN)); }
+    TNodeData& GetNbrNDat(const int& EdgeN) { return Net->GetNDat(GetNbrNId(EdgeN)); }
+    // edges
+    /// Returns ID of EdgeN-th in-edge.
+    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
+    /// Returns ID of EdgeN-th out-edge.
+    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
+    /// Returns ID of EdgeN-th in or out-edge.
+    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
+    /// Tests whether the edge with ID EId is an in-edge of current node.
+    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
+    /// Tests whether the edge with ID EId is an out-edge of current node.
+    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
+    /// Tests whether the edge with ID EId is an in or out-edge of current node.
+    bool IsNbrEId(const int& EId) const { return NodeHI.GetDat().IsNbrEId(EId); }
+    // edge data
+    TEdgeDat& GetInEDat(const int& EdgeN) { return Net->GetEDat(GetInEId(EdgeN)); }
+    const TEdgeDat& GetInEDat(const int& EdgeN) const { return Net->GetEDat(GetInEId(EdgeN)); }
+    TEdgeDat& GetOutEDat(const int& EdgeN) { return Net->GetEDat(GetOutEId(EdgeN)); }
+    const TEdgeDat& GetOutEDat(const int& EdgeN) const { return Net->GetEDat(GetOutEId(EdgeN)); }
+    TEdgeDat& GetNbrEDat(const int& EdgeN) { return Net->GetEDat(GetNbrEId(EdgeN)); }
+    const TEdgeDat& GetNbrEDat(const int& EdgeN) const { return Net->GetEDat(GetNbrEId(EdgeN)); }
+    friend class TNodeEdgeNet;
+  };
+
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    typedef typename THash<TInt, TEdge>::TIter THashIter;
+    THashIter EdgeHI;
+    TNodeEdgeNet *Net;
+  public:
+    TEdgeI() : EdgeHI(), Net(NULL) { }
+    TEdgeI(const THashIter& EdgeHIter, const TNodeEdgeNet *NetPt) : EdgeHI(EdgeHIter), Net((TNodeEdgeNet *) NetPt) { }
+    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Net(EdgeI.Net) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI;  Net=EdgeI.Net; }  return *this; }
+    TEdgeI& operator++ (int) { EdgeHI++;  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
+    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
+    /// Gets edge ID.
+    int GetId() const { return EdgeHI.GetDat().GetId(); }
+    /// Gets the source of an edge.
+    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
+    /// Gets destination of an edge.
+    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
+    const TEdgeData& operator () () const { return EdgeHI.GetDat().GetDat(); }
+    TEdgeData& operator () () { return EdgeHI.GetDat().GetDat(); }
+    const TEdgeData& GetDat() const { return EdgeHI.GetDat().GetDat(); }
+    TEdgeData& GetDat() { return EdgeHI.GetDat().GetDat(); }
+    const TNodeData& GetSrcNDat() const { return Net->GetNDat(GetSrcNId()); }
+    TNodeData& GetSrcNDat() { return Net->GetNDat(GetSrcNId()); }
+    const TNodeData& GetDstNDat() const { return Net->GetNDat(GetDstNId()); }
+    TNodeData& GetDstNDat() { return Net->GetNDat(GetDstNId()); }
+    friend class TNodeEdgeNet;
+  };
+
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  const TNode& GetNodeKId(const int& NodeKeyId) const { return NodeH[NodeKeyId]; }
+  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
+  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
+  const TEdge& GetEdgeKId(const int& EdgeKeyId) const { return EdgeH[EdgeKeyId]; }
+protected:
+  TCRef CRef;
+  TInt MxNId, MxEId;
+  THash<TInt, TNode> NodeH;
+  THash<TInt, TEdge> EdgeH;
+public:
+  TNodeEdgeNet() : CRef(), MxNId(0), MxEId(0) { }
+  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
+  explicit TNodeEdgeNet(const int& Nodes, const int& Edges) : CRef(), MxNId(0), MxEId(0) { Reserve(Nodes, Edges); }
+  TNodeEdgeNet(const TNodeEdgeNet& Net) : MxNId(Net.MxNId), MxEId(Net.MxEId), NodeH(Net.NodeH), EdgeH(Net.EdgeH) { }
+  /// Constructor that loads the network from a (binary) stream SIn.
+  TNodeEdgeNet(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn) { }
+  virtual ~TNodeEdgeNet() { }
+  /// Saves the network to a (binary) stream SOut.
+  virtual void Save(TSOut& SOut) const { MxNId.Save(SOut);  MxEId.Save(SOut);  NodeH.Save(SOut);  EdgeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the network. Call: TPt <TNodeEdgeNet<TNodeData, TEdgeData> > Net = TNodeEdgeNet<TNodeData, TEdgeData>::New().
+  static PNet New() { return PNet(new TNet()); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
+  static PNet Load(TSIn& SIn) { return PNet(new TNet(SIn)); }
+  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TNodeEdgeNet& operator = (const TNodeEdgeNet& Net) {
+    if (this!=&Net) { NodeH=Net.NodeH; EdgeH=Net.EdgeH; MxNId=Net.MxNId; MxEId=Net.MxEId; }  return *this; }
+  // nodes
+  /// Returns the number of nodes in the network.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the network. ##TNodeEdgeNet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds node data to node with ID NId. ##TNodeEdgeNet::AddNode-1
+  int AddNode(int NId, const TNodeData& NodeDat);
+  /// Adds a node NodeI and its node data to the network.
+  friend class TCrossNet;
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.GetDat()); }
+  /// Deletes node of ID NId from the network. ##TNodeEdgeNet::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the network.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the network.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end node in the network.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
+  /// Returns an iterator referring to the node of ID NId in the network.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
+  /// Sets node data for the node of ID NId in the network.
+  void SetNDat(const int& NId, const TNodeData& NodeDat);
+  /// Returns node data for the node of ID NId in the network.
+  TNodeData& GetNDat(const int& NId) { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns node data for the node of ID NId in the network.
+  const TNodeData& GetNDat(const int& NId) const { return NodeH.GetDat(NId).NodeDat; }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+
+  // edges
+  /// Returns the number of edges in the network.
+  int GetEdges() const { return EdgeH.Len(); }
+  /// Returns the number of edges in the network with a unique pair of nodes.
+  int GetUniqEdges(const bool& IsDir=true) const;
+  /// Adds an edge between node IDs SrcNId and DstNId to the graph. ##TNodeEdgeNet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId, int EId = -1);
+  /// Adds an edge and edge data from node IDs SrcNId to node DstNId. ##TNodeEdgeNet::AddEdge-1
+  int AddEdge(const int& SrcNId, const int& DstNId, int EId, const TEdgeData& EdgeDat);
+  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() and its edge data to the network.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId(), EdgeI.GetDat()); }
+  /// Deletes an edge with ID EId from the network.
+  void DelEdge(const int& EId);
+  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TNodeEDatNet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge with ID EId exists in the network.
+  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
+  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId;  return IsEdge(SrcNId, DstNId, EId, IsDir); }
+  /// Tests whether an edge from node IDs SrcNId to DstNId with edge ID EId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
+  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
+  /// Returns an iterator referring to the first edge in the network.
+  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end edge in the network.
+  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
+  /// Sets edge data for the edge of ID NId in the network.
+  void SetEDat(const int& EId, const TEdgeData& EdgeDat);
+  /// Returns edge data for the edge with ID EId.
+  TEdgeData& GetEDat(const int& EId) { return EdgeH.GetDat(EId).EdgeDat; }
+  /// Returns edge data for the edge with ID EId.
+  const TEdgeData& GetEDat(const int& EId) const { return EdgeH.GetDat(EId).EdgeDat; }
+  /// Sets edge data for all the edges in the network to EDat.
+  void SetAllEDat(const TEdgeData& EdgeDat);
+
+  /// Returns an ID of a random node in the network.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the network.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Returns an ID of a random edge in the network.
+  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random edge in the network.
+  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
+  /// Returns a vector of all node IDs in the network.
+  void GetNIdV(TIntV& NIdV) const;
+  /// Returns a vector of all edge IDs in the network.
+  void GetEIdV(TIntV& EIdV) const;
+
+  /// Tests whether the network is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the network.
+  void Clr() { MxNId=0;  MxEId=0;  NodeH.Clr();  EdgeH.Clr(); }
+  /// Reserves memory for a network of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) {
+    if (Nodes>0) { NodeH.Gen(Nodes/2); }  if (Edges>0) { EdgeH.Gen(Edges/2); } }
+  /// Sorts nodes by node IDs.
+  void SortNIdById(const bool& Asc=true) { NodeH.SortByKey(Asc); }
+  /// Sorts nodes by node data.
+  void SortNIdByDat(const bool& Asc=true) { NodeH.SortByDat(Asc); }
+  /// Sorts edges by edge IDs.
+  void SortEIdById(const bool& Asc=true) { EdgeH.SortByKey(Asc); }
+  /// Sorts edges by edge data.
+  void SortEIdByDat(const bool& Asc=true) { EdgeH.SortByDat(Asc); }
+  /// Defragments the network. ##TNodeEdgeNet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the network data structure for internal consistency. ##TNodeEdgeNet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+
+  friend class TPt<TNodeEdgeNet<TNodeData, TEdgeData> >;
+};
+
+// set flags
+namespace TSnap {
+template <class TNodeData, class TEdgeData> struct IsMultiGraph<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+template <class TNodeData, class TEdgeData> struct IsDirected<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+template <class TNodeData, class TEdgeData> struct IsNodeDat<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+template <class TNodeData, class TEdgeData> struct IsEdgeDat<TNodeEdgeNet<TNodeData, TEdgeData> > { enum { Val = 1 }; };
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEdgeNet<TNodeData, TEdgeData>::HasFlag(const TGraphFlag& Flag) const {
+  return HasGraphFlag(typename TNet, Flag);
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEdgeNet<TNodeData, TEdgeData>::TNodeI::IsInNId(const int& NId) const {
+  const TNode& Node = NodeHI.GetDat();
+  for (int edge = 0; edge < Node.GetInDeg(); edge++) {
+    if (NId == Net->GetEdge(Node.GetInEId(edge)).GetSrcNId())
+      return true;
+  }
+  return false;
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEdgeNet<TNodeData, TEdgeData>::TNodeI::IsOutNId(const int& NId) const {
+  const TNode& Node = NodeHI.GetDat();
+  for (int edge = 0; edge < Node.GetOutDeg(); edge++) {
+    if (NId == Net->GetEdge(Node.GetOutEId(edge)).GetDstNId())
+      return true;
+  }
+  return false;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEdgeNet<TNodeData, TEdgeData>::AddNode(int NId) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId));
+  return NId;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEdgeNet<TNodeData, TEdgeData>::AddNode(int NId, const TNodeData& NodeDat) {
+  if (NId == -1) {
+    NId = MxNId;  MxNId++;
+  } else {
+    IAssertR(!IsNode(NId), TStr::Fmt("NodeId %d already exists", NId));
+    MxNId = TMath::Mx(NId+1, MxNId());
+  }
+  NodeH.AddDat(NId, TNode(NId, NodeDat));
+  return NId;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::DelNode(const int& NId) {
+  const TNode& Node = GetNode(NId);
+  for (int out = 0; out < Node.GetOutDeg(); out++) {
+    const int EId = Node.GetOutEId(out);
+    const TEdge& Edge = GetEdge(EId);
+    IAssert(Edge.GetSrcNId() == NId);
+    GetNode(Edge.GetDstNId()).InEIdV.DelIfIn(EId);
+    EdgeH.DelKey(EId);
+  }
+  for (int in = 0; in < Node.GetInDeg(); in++) {
+    const int EId = Node.GetInEId(in);
+    const TEdge& Edge = GetEdge(EId);
+    IAssert(Edge.GetDstNId() == NId);
+    GetNode(Edge.GetSrcNId()).OutEIdV.DelIfIn(EId);
+    EdgeH.DelKey(EId);
+  }
+  NodeH.DelKey(NId);
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::SetNDat(const int& NId, const TNodeData& NodeDat) {
+  IAssertR(IsNode(NId), TStr::Fmt("NodeId %d does not exist.", NId).CStr());
+  NodeH.GetDat(NId).NodeDat = NodeDat;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEdgeNet<TNodeData, TEdgeData>::GetUniqEdges(const bool& IsDir) const {
+  TIntPrSet UniqESet(GetEdges());
+  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
+    const int Src = EI.GetSrcNId();
+    const int Dst = EI.GetDstNId();
+    if (IsDir) { UniqESet.AddKey(TIntPr(Src, Dst)); }
+    else { UniqESet.AddKey(TIntPr(TMath::Mn(Src, Dst), TMath::Mx(Src, Dst))); }
+  }
+  return UniqESet.Len();
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEdgeNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
+  if (EId == -1) { EId = MxEId;  MxEId++; }
+  else { MxEId = TMath::Mx(EId+1, MxEId()); }
+  IAssertR(!IsEdge(EId), TStr::Fmt("EdgeId %d already exists", EId));
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  EdgeH.AddDat(EId, TEdge(EId, SrcNId, DstNId));
+  GetNode(SrcNId).OutEIdV.AddSorted(EId);
+  GetNode(DstNId).InEIdV.AddSorted(EId);
+  return EId;
+}
+
+template <class TNodeData, class TEdgeData>
+int TNodeEdgeNet<TNodeData, TEdgeData>::AddEdge(const int& SrcNId, const int& DstNId, int EId, const TEdgeData& EdgeDat) {
+  if (EId == -1) { EId = MxEId;  MxEId++; }
+  else { MxEId = TMath::Mx(EId+1, MxEId()); }
+  IAssertR(!IsEdge(EId), TStr::Fmt("EdgeId %d already exists", EId));
+  IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
+  EdgeH.AddDat(EId, TEdge(EId, SrcNId, DstNId, EdgeDat));
+  GetNode(SrcNId).OutEIdV.AddSorted(EId);
+  GetNode(DstNId).InEIdV.AddSorted(EId);
+  return EId;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& EId) {
+  IAssert(IsEdge(EId));
+  const int SrcNId = GetEdge(EId).GetSrcNId();
+  const int DstNId = GetEdge(EId).GetDstNId();
+  GetNode(SrcNId).OutEIdV.DelIfIn(EId);
+  GetNode(DstNId).InEIdV.DelIfIn(EId);
+  EdgeH.DelKey(EId);
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
+  int EId;
+  IAssert(IsEdge(SrcNId, DstNId, EId, IsDir));
+  DelEdge(EId);
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEdgeNet<TNodeData, TEdgeData>::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
+  if (! IsNode(SrcNId)) { return false; }
+  if (! IsNode(DstNId)) { return false; }
+  const TNode& SrcNode = GetNode(SrcNId);
+  for (int edge = 0; edge < SrcNode.GetOutDeg(); edge++) {
+    const TEdge& Edge = GetEdge(SrcNode.GetOutEId(edge));
+    if (DstNId == Edge.GetDstNId()) {
+      EId = Edge.GetId();  return true; }
+  }
+  if (! IsDir) {
+    for (int edge = 0; edge < SrcNode.GetInDeg(); edge++) {
+    const TEdge& Edge = GetEdge(SrcNode.GetInEId(edge));
+    if (DstNId == Edge.GetSrcNId()) {
+      EId = Edge.GetId();  return true; }
+    }
+  }
+  return false;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::SetEDat(const int& EId, const TEdgeData& EdgeDat) {
+  IAssertR(IsEdge(EId), TStr::Fmt("EdgeId %d does not exist.", EId).CStr());
+  GetEI(EId).GetDat() = EdgeDat;
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::SetAllEDat(const TEdgeData& EdgeDat) {
+  for (TEdgeI EI = BegEI(); EI < EndEI(); EI++) {
+    EI() = EdgeDat;
+  }
+}
+
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::GetNIdV(TIntV& NIdV) const {
+  NIdV.Gen(GetNodes(), 0);
+  for (int N=NodeH.FFirstKeyId(); NodeH.FNextKeyId(N);) {
+    NIdV.Add(NodeH.GetKey(N));
+  }
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::GetEIdV(TIntV& EIdV) const {
+  EIdV.Gen(GetEdges(), 0);
+  for (int E=EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(E);) {
+    EIdV.Add(EdgeH.GetKey(E));
+  }
+}
+
+template <class TNodeData, class TEdgeData>
+void TNodeEdgeNet<TNodeData, TEdgeData>::Defrag(const bool& OnlyNodeLinks) {
+  for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid);) {
+    TNode& Node = NodeH[kid];
+    Node.InEIdV.Pack();  Node.OutEIdV.Pack();
+  }
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) { NodeH.Defrag(); }
+  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) { EdgeH.Defrag(); }
+}
+
+template <class TNodeData, class TEdgeData>
+bool TNodeEdgeNet<TNodeData, TEdgeData>::IsOk(const bool& ThrowExcept) const {
+  bool RetVal = true;
+  for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
+    const TNode& Node = NodeH[N];
+    if (! Node.OutEIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("Out-edge list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    if (! Node.InEIdV.IsSorted()) {
+      const TStr Msg = TStr::Fmt("In-edge list of node %d is not sorted.", Node.GetId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    // check out-edge ids
+    int prevEId = -1;
+    for (int e = 0; e < Node.GetOutDeg(); e++) {
+      if (! IsEdge(Node.GetOutEId(e))) {
+        const TStr Msg = TStr::Fmt("Out-edge id %d of node %d does not exist.",  Node.GetOutEId(e), Node.GetId());
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevEId == Node.GetOutEId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge id %d.", Node.GetId(), Node.GetOutEId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevEId = Node.GetOutEId(e);
+    }
+    // check in-edge ids
+    prevEId = -1;
+    for (int e = 0; e < Node.GetInDeg(); e++) {
+      if (! IsEdge(Node.GetInEId(e))) {
+        const TStr Msg = TStr::Fmt("Out-edge id %d of node %d does not exist.",  Node.GetInEId(e), Node.GetId());
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      if (e > 0 && prevEId == Node.GetInEId(e)) {
+        const TStr Msg = TStr::Fmt("Node %d has duplidate out-edge id %d.", Node.GetId(), Node.GetInEId(e));
+        if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+      }
+      prevEId = Node.GetInEId(e);
+    }
+  }
+  for (int E = EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(E); ) {
+    const TEdge& Edge = EdgeH[E];
+    if (! IsNode(Edge.GetSrcNId())) {
+      const TStr Msg = TStr::Fmt("Edge %d source node %d does not exist.", Edge.GetId(), Edge.GetSrcNId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+    if (! IsNode(Edge.GetDstNId())) {
+      const TStr Msg = TStr::Fmt("Edge %d destination node %d does not exist.", Edge.GetId(), Edge.GetDstNId());
+      if (ThrowExcept) { EAssertR(false, Msg); } else { ErrNotify(Msg.CStr()); } RetVal=false;
+    }
+  }
+  return RetVal;
+}
+
+/////////////////////////////////////////////////
+// Common Node-Edge Network Types
+typedef TNodeEdgeNet<TInt, TInt> TIntNENet;
+typedef TPt<TIntNENet> PIntNENet;
+typedef TNodeEdgeNet<TFlt, TFlt> TFltNENet;
+typedef TPt<TFltNENet> PFltNENet;
+
+class TNEANet;
+/// Pointer to a directed attribute multigraph (TNEANet)
+typedef TPt<TNEANet> PNEANet;
+
+//#//////////////////////////////////////////////
+/// Directed multigraph with node edge attributes. ##TNEANet::Class
+class TNEANet {
+public:
+  typedef TNEANet TNet;
+  typedef TPt<TNEANet> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV InEIdV, OutEIdV;
+  public:
+    TNode() : Id(-1), InEIdV(), OutEIdV() { }
+    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); InEIdV.Save(SOut); OutEIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InEIdV.Len(); }
+    int GetOutDeg() const { return OutEIdV.Len(); }
+    int GetInEId(const int& EdgeN) const { return InEIdV[EdgeN]; }
+    int GetOutEId(const int& EdgeN) const { return OutEIdV[EdgeN]; }
+    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
+    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
+    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
+    friend class TNEANet;
+  };
+  class TEdge {
+  private:
+    TInt Id, SrcNId, DstNId;
+  public:
+    TEdge() : Id(-1), SrcNId(-1), DstNId(-1) { }
+    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId) { }
+    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId) { }
+    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); SrcNId.Save(SOut); DstNId.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetSrcNId() const { return SrcNId; }
+    int GetDstNId() const { return DstNId; }
+    friend class TNEANet;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  protected:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+    const TNEANet *Graph;
+  public:
+    TNodeI() : NodeHI(), Graph(NULL) { }
+    TNodeI(const THashIter& NodeHIter, const TNEANet* GraphPt) : NodeHI(NodeHIter), Graph(GraphPt) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Graph(NodeI.Graph) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; Graph=NodeI.Graph; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node, the sum of in-degree and out-degree.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNEANet::TNodeI::GetInNId
+    int GetInNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
+    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNEANet::TNodeI::GetOutNId
+    int GetOutNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
+    /// Returns ID of EdgeN-th neighboring node. ##TNEANet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Graph->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN)); return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const;
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const;
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    /// Returns ID of EdgeN-th in-edge.
+    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
+    /// Returns ID of EdgeN-th out-edge.
+    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
+    /// Returns ID of EdgeN-th in or out-edge.
+    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
+    /// Tests whether the edge with ID EId is an in-edge of current node.
+    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
+    /// Tests whether the edge with ID EId is an out-edge of current node.
+    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
+    /// Tests whether the edge with ID EId is an in or out-edge of current node.
+    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
+    /// Gets vector of attribute names.
+    void GetAttrNames(TStrV& Names) const { Graph->AttrNameNI(GetId(), Names); }
+    /// Gets vector of attribute values.
+    void GetAttrVal(TStrV& Val) const { Graph->AttrValueNI(GetId(), Val); }
+    /// Gets vector of int attribute names.
+    void GetIntAttrNames(TStrV& Names) const { Graph->IntAttrNameNI(GetId(), Names); }
+    /// Gets vector of int attribute values.
+    void GetIntAttrVal(TIntV& Val) const { Graph->IntAttrValueNI(GetId(), Val); }
+    /// Gets vector of int attribute names.
+    void GetIntVAttrNames(TStrV& Names) const { Graph->IntVAttrNameNI(GetId(), Names); }
+    /// Gets vector of int attribute values.
+    void GetIntVAttrVal(TVec<TIntV>& Val) const { Graph->IntVAttrValueNI(GetId(), Val); }
+    /// Gets vector of str attribute names.
+    void GetStrAttrNames(TStrV& Names) const { Graph->StrAttrNameNI(GetId(), Names); }
+    /// Gets vector of str attribute values.
+    void GetStrAttrVal(TStrV& Val) const { Graph->StrAttrValueNI(GetId(), Val); }
+    /// Gets vector of flt attribute names.
+    void GetFltAttrNames(TStrV& Names) const { Graph->FltAttrNameNI(GetId(), Names); }
+    /// Gets vector of flt attribute values.
+    void GetFltAttrVal(TFltV& Val) const { Graph->FltAttrValueNI(GetId(), Val); }
+    friend class TNEANet;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    typedef THash<TInt, TEdge>::TIter THashIter;
+    THashIter EdgeHI;
+    const TNEANet *Graph;
+  public:
+    TEdgeI() : EdgeHI(), Graph(NULL) { }
+    TEdgeI(const THashIter& EdgeHIter, const TNEANet *GraphPt) : EdgeHI(EdgeHIter), Graph(GraphPt) { }
+    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Graph(EdgeI.Graph) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI; Graph=EdgeI.Graph; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { EdgeHI++; return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
+    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
+    /// Returns edge ID.
+    int GetId() const { return EdgeHI.GetDat().GetId(); }
+    /// Returns the source of the edge.
+    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
+    /// Returns the destination of the edge.
+    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
+    /// Gets vector of attribute names.
+    void GetAttrNames(TStrV& Names) const { Graph->AttrNameEI(GetId(), Names); }
+    /// Gets vector of attribute values.
+    void GetAttrVal(TStrV& Val) const { Graph->AttrValueEI(GetId(), Val); }
+    /// Gets vector of int attribute names.
+    void GetIntAttrNames(TStrV& Names) const { Graph->IntAttrNameEI(GetId(), Names); }
+    /// Gets vector of int attribute values.
+    void GetIntAttrVal(TIntV& Val) const { Graph->IntAttrValueEI(GetId(), Val); }
+    /// Gets vector of int attribute names.
+    void GetIntVAttrNames(TStrV& Names) const { Graph->IntVAttrNameEI(GetId(), Names); }
+    /// Gets vector of int attribute values.
+    void GetIntVAttrVal(TVec<TIntV>& Val) const { Graph->IntVAttrValueEI(GetId(), Val); }
+    /// Gets vector of str attribute names.
+    void GetStrAttrNames(TStrV& Names) const { Graph->StrAttrNameEI(GetId(), Names); }
+    /// Gets vector of str attribute values.
+    void GetStrAttrVal(TStrV& Val) const { Graph->StrAttrValueEI(GetId(), Val); }
+    /// Gets vector of flt attribute names.
+    void GetFltAttrNames(TStrV& Names) const { Graph->FltAttrNameEI(GetId(), Names); }
+    /// Gets vector of flt attribute values.
+    void GetFltAttrVal(TFltV& Val) const { Graph->FltAttrValueEI(GetId(), Val); }
+    friend class TNEANet;
+  };
+
+  /// Node/edge integer attribute iterator. Iterates through all nodes/edges for one integer attribute.
+  class TAIntI {
+  private:
+    typedef TIntV::TIter TIntVecIter;
+    TIntVecIter HI;
+    bool isNode;
+    TStr attr;
+    const TNEANet *Graph;
+  public:
+    TAIntI() : HI(), attr(), Graph(NULL) { }
+    TAIntI(const TIntVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
+    TAIntI(const TAIntI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
+    TAIntI& operator = (const TAIntI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
+    bool operator < (const TAIntI& I) const { return HI < I.HI; }
+    bool operator == (const TAIntI& I) const { return HI == I.HI; }
+    /// Returns an attribute of the node.
+    TInt GetDat() const { return HI[0]; }
+    /// Returns true if the attribute has been deleted.
+    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetIntAttrDefaultN(attr) : GetDat() == Graph->GetIntAttrDefaultE(attr); };
+    TAIntI& operator++(int) { HI++; return *this; }
+    friend class TNEANet;
+  };
+
+  class TAIntVI {
+  private:
+    typedef TVec<TIntV>::TIter TIntVVecIter;
+    TIntVVecIter HI;
+    bool isNode;
+    TStr attr;
+    const TNEANet *Graph;
+  public:
+    TAIntVI() : HI(), attr(), Graph(NULL) { }
+    TAIntVI(const TIntVVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
+    TAIntVI(const TAIntVI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
+    TAIntVI& operator = (const TAIntVI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
+    bool operator < (const TAIntVI& I) const { return HI < I.HI; }
+    bool operator == (const TAIntVI& I) const { return HI == I.HI; }
+    /// Returns an attribute of the node.
+    TIntV GetDat() const { return HI[0]; }
+    TAIntVI& operator++(int) { HI++; return *this; }
+    friend class TNEANet;
+  };
+
+  /// Node/edge string attribute iterator. Iterates through all nodes/edges for one string attribute.
+  class TAStrI {
+  private:
+    typedef TStrV::TIter TStrVecIter;
+    TStrVecIter HI;
+    bool isNode;
+    TStr attr;
+    const TNEANet *Graph;
+  public:
+    TAStrI() : HI(), attr(), Graph(NULL) { }
+    TAStrI(const TStrVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
+    TAStrI(const TAStrI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
+    TAStrI& operator = (const TAStrI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
+    bool operator < (const TAStrI& I) const { return HI < I.HI; }
+    bool operator == (const TAStrI& I) const { return HI == I.HI; }
+    /// Returns an attribute of the node.
+    TStr GetDat() const { return HI[0]; }
+    /// Returns true if the attribute has been deleted.
+    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetStrAttrDefaultN(attr) : GetDat() == Graph->GetStrAttrDefaultE(attr); };
+    TAStrI& operator++(int) { HI++; return *this; }
+    friend class TNEANet;
+  };
+
+  /// Node/edge float attribute iterator. Iterates through all nodes/edges for one float attribute.
+  class TAFltI {
+  private:
+    typedef TFltV::TIter TFltVecIter;
+    TFltVecIter HI;
+    bool isNode;
+    TStr attr;
+    const TNEANet *Graph;
+  public:
+    TAFltI() : HI(), attr(), Graph(NULL) { }
+    TAFltI(const TFltVecIter& HIter, TStr attribute, bool isEdgeIter, const TNEANet* GraphPt) : HI(HIter), attr(), Graph(GraphPt) { isNode = !isEdgeIter; attr = attribute; }
+    TAFltI(const TAFltI& I) : HI(I.HI), attr(I.attr), Graph(I.Graph) { isNode = I.isNode; }
+    TAFltI& operator = (const TAFltI& I) { HI = I.HI; Graph=I.Graph; isNode = I.isNode; attr = I.attr; return *this; }
+    bool operator < (const TAFltI& I) const { return HI < I.HI; }
+    bool operator == (const TAFltI& I) const { return HI == I.HI; }
+    /// Returns an attribute of the node.
+    TFlt GetDat() const { return HI[0]; }
+    /// Returns true if the attribute has been deleted.
+    bool IsDeleted() const { return isNode ? GetDat() == Graph->GetFltAttrDefaultN(attr) : GetDat() == Graph->GetFltAttrDefaultE(attr); };
+    TAFltI& operator++(int) { HI++; return *this; }
+    friend class TNEANet;
+  };
+
+protected:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
+  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
+
+protected:
+  /// Gets Int node attribute val.  If not a proper attr, return default.
+  TInt GetIntAttrDefaultN(const TStr& attribute) const { return IntDefaultsN.IsKey(attribute) ? IntDefaultsN.GetDat(attribute) : (TInt) TInt::Mn; }
+  /// Gets Str node attribute val.  If not a proper attr, return default.
+  TStr GetStrAttrDefaultN(const TStr& attribute) const { return StrDefaultsN.IsKey(attribute) ? StrDefaultsN.GetDat(attribute) : (TStr) TStr::GetNullStr(); }
+  /// Gets Flt node attribute val.  If not a proper attr, return default.
+  TFlt GetFltAttrDefaultN(const TStr& attribute) const { return FltDefaultsN.IsKey(attribute) ? FltDefaultsN.GetDat(attribute) : (TFlt) TFlt::Mn; }
+  /// Gets Int edge attribute val.  If not a proper attr, return default.
+  TInt GetIntAttrDefaultE(const TStr& attribute) const { return IntDefaultsE.IsKey(attribute) ? IntDefaultsE.GetDat(attribute) : (TInt) TInt::Mn; }
+  /// Gets Str edge attribute val.  If not a proper attr, return default.
+  TStr GetStrAttrDefaultE(const TStr& attribute) const { return StrDefaultsE.IsKey(attribute) ? StrDefaultsE.GetDat(attribute) : (TStr) TStr::GetNullStr(); }
+  /// Gets Flt edge attribute val.  If not a proper attr, return default.
+  TFlt GetFltAttrDefaultE(const TStr& attribute) const { return FltDefaultsE.IsKey(attribute) ? FltDefaultsE.GetDat(attribute) : (TFlt) TFlt::Mn; }
+public:
+  TCRef CRef;
+protected:
+  TInt MxNId, MxEId;
+  THash<TInt, TNode> NodeH;
+  THash<TInt, TEdge> EdgeH;
+  /// KeyToIndexType[N|E]: Key->(Type,Index).
+  TStrIntPrH KeyToIndexTypeN, KeyToIndexTypeE;
+
+  THash<TStr, TInt> IntDefaultsN, IntDefaultsE;
+  THash<TStr, TStr> StrDefaultsN, StrDefaultsE;
+  THash<TStr, TFlt> FltDefaultsN, FltDefaultsE;
+  TVec<TIntV> VecOfIntVecsN, VecOfIntVecsE;
+  TVec<TStrV> VecOfStrVecsN, VecOfStrVecsE;
+  TVec<TFltV> VecOfFltVecsN, VecOfFltVecsE;
+  TVec<TVec<TIntV> > VecOfIntVecVecsN, VecOfIntVecVecsE;
+  enum { IntType, StrType, FltType, IntVType };
+
+  TAttr SAttrN;
+  TAttr SAttrE;
+
+public:
+  TNEANet() : CRef(), MxNId(0), MxEId(0), NodeH(), EdgeH(),
+    KeyToIndexTypeN(), KeyToIndexTypeE(), IntDefaultsN(), IntDefaultsE(),
+    StrDefaultsN(), StrDefaultsE(), FltDefaultsN(), FltDefaultsE(),
+    VecOfIntVecsN(), VecOfIntVecsE(), VecOfStrVecsN(), VecOfStrVecsE(),
+    VecOfFltVecsN(), VecOfFltVecsE(),  VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE(){ }
+  /// Constructor that reserves enough memory for a graph of nodes and edges.
+  explicit TNEANet(const int& Nodes, const int& Edges) : CRef(),
+    MxNId(0), MxEId(0), NodeH(), EdgeH(), KeyToIndexTypeN(), KeyToIndexTypeE(),
+    IntDefaultsN(), IntDefaultsE(), StrDefaultsN(), StrDefaultsE(),
+    FltDefaultsN(), FltDefaultsE(), VecOfIntVecsN(), VecOfIntVecsE(),
+    VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE()
+    { Reserve(Nodes, Edges); }
+  TNEANet(const TNEANet& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
+    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(), KeyToIndexTypeE(),
+    IntDefaultsN(), IntDefaultsE(), StrDefaultsN(), StrDefaultsE(),
+    FltDefaultsN(), FltDefaultsE(), VecOfIntVecsN(), VecOfIntVecsE(),
+    VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE() { }
+  /// Constructor for loading the graph from a (binary) stream SIn.
+  TNEANet(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn),
+    KeyToIndexTypeN(SIn), KeyToIndexTypeE(SIn), IntDefaultsN(SIn), IntDefaultsE(SIn),
+    StrDefaultsN(SIn), StrDefaultsE(SIn), FltDefaultsN(SIn), FltDefaultsE(SIn),
+    VecOfIntVecsN(SIn), VecOfIntVecsE(SIn), VecOfStrVecsN(SIn),VecOfStrVecsE(SIn),
+    VecOfFltVecsN(SIn), VecOfFltVecsE(SIn), VecOfIntVecVecsN(SIn), VecOfIntVecVecsE(SIn), SAttrN(SIn), SAttrE(SIn) { }
+  protected:
+  TNEANet(const TNEANet& Graph, bool modeSubGraph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
+    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(), KeyToIndexTypeE(Graph.KeyToIndexTypeE),
+    IntDefaultsN(Graph.IntDefaultsN), IntDefaultsE(Graph.IntDefaultsE), StrDefaultsN(Graph.StrDefaultsN), StrDefaultsE(Graph.StrDefaultsE),
+    FltDefaultsN(Graph.FltDefaultsN), FltDefaultsE(Graph.FltDefaultsE), VecOfIntVecsN(Graph.VecOfIntVecsN), VecOfIntVecsE(Graph.VecOfIntVecsE),
+    VecOfStrVecsN(Graph.VecOfStrVecsN), VecOfStrVecsE(Graph.VecOfStrVecsE), VecOfFltVecsN(Graph.VecOfFltVecsN), VecOfFltVecsE(Graph.VecOfFltVecsE),
+    VecOfIntVecVecsN(), VecOfIntVecVecsE(Graph.VecOfIntVecVecsE) { }
+  TNEANet(bool copyAll, const TNEANet& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
+    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(Graph.KeyToIndexTypeN), KeyToIndexTypeE(Graph.KeyToIndexTypeE),
+    IntDefaultsN(Graph.IntDefaultsN), IntDefaultsE(Graph.IntDefaultsE), StrDefaultsN(Graph.StrDefaultsN), StrDefaultsE(Graph.StrDefaultsE),
+    FltDefaultsN(Graph.FltDefaultsN), FltDefaultsE(Graph.FltDefaultsE), VecOfIntVecsN(Graph.VecOfIntVecsN), VecOfIntVecsE(Graph.VecOfIntVecsE),
+    VecOfStrVecsN(Graph.VecOfStrVecsN), VecOfStrVecsE(Graph.VecOfStrVecsE), VecOfFltVecsN(Graph.VecOfFltVecsN), VecOfFltVecsE(Graph.VecOfFltVecsE),
+    VecOfIntVecVecsN(Graph.VecOfIntVecVecsN), VecOfIntVecVecsE(Graph.VecOfIntVecVecsE), SAttrN(Graph.SAttrN), SAttrE(Graph.SAttrE) { }
+  public:
+  /// Saves the graph to a (binary) stream SOut. Expects data structures for sparse attributes.
+  void Save(TSOut& SOut) const {
+    MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut);
+    KeyToIndexTypeN.Save(SOut); KeyToIndexTypeE.Save(SOut);
+    IntDefaultsN.Save(SOut); IntDefaultsE.Save(SOut);
+    StrDefaultsN.Save(SOut); StrDefaultsE.Save(SOut);
+    FltDefaultsN.Save(SOut); FltDefaultsE.Save(SOut);
+    VecOfIntVecsN.Save(SOut); VecOfIntVecsE.Save(SOut);
+    VecOfStrVecsN.Save(SOut); VecOfStrVecsE.Save(SOut);
+    VecOfFltVecsN.Save(SOut); VecOfFltVecsE.Save(SOut);
+    VecOfIntVecVecsN.Save(SOut); VecOfIntVecVecsE.Save(SOut); 
+    SAttrN.Save(SOut); SAttrE.Save(SOut); }
+  /// Saves the graph to a (binary) stream SOut. Available for backwards compatibility.
+  void Save_V1(TSOut& SOut) const {
+    MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut);
+    KeyToIndexTypeN.Save(SOut); KeyToIndexTypeE.Save(SOut);
+    IntDefaultsN.Save(SOut); IntDefaultsE.Save(SOut);
+    StrDefaultsN.Save(SOut); StrDefaultsE.Save(SOut);
+    FltDefaultsN.Save(SOut); FltDefaultsE.Save(SOut);
+    VecOfIntVecsN.Save(SOut); VecOfIntVecsE.Save(SOut);
+    VecOfStrVecsN.Save(SOut); VecOfStrVecsE.Save(SOut);
+    VecOfFltVecsN.Save(SOut); VecOfFltVecsE.Save(SOut); }
+  /// Static cons returns pointer to graph. Ex: PNEANet Graph=TNEANet::New().
+  static PNEANet New() { return PNEANet(new TNEANet()); }
+  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNEANet::New
+  static PNEANet New(const int& Nodes, const int& Edges) { return PNEANet(new TNEANet(Nodes, Edges)); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
+  static PNEANet Load(TSIn& SIn) { return PNEANet(new TNEANet(SIn)); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it. Backwards compatible.
+  static PNEANet Load_V1(TSIn& SIn) {
+    PNEANet Graph = PNEANet(new TNEANet());
+    Graph->MxNId.Load(SIn); Graph->MxEId.Load(SIn);
+    Graph->NodeH.Load(SIn); Graph->EdgeH.Load(SIn);
+    Graph->KeyToIndexTypeN.Load(SIn); Graph->KeyToIndexTypeE.Load(SIn);
+    Graph->IntDefaultsN.Load(SIn); Graph->IntDefaultsE.Load(SIn);
+    Graph->StrDefaultsN.Load(SIn); Graph->StrDefaultsE.Load(SIn);
+    Graph->FltDefaultsN.Load(SIn); Graph->FltDefaultsE.Load(SIn);
+    Graph->VecOfIntVecsN.Load(SIn); Graph->VecOfIntVecsE.Load(SIn);
+    Graph->VecOfStrVecsN.Load(SIn); Graph->VecOfStrVecsE.Load(SIn);
+    Graph->VecOfFltVecsN.Load(SIn); Graph->VecOfFltVecsE.Load(SIn);
+    return Graph;
+  }
+  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  
+  TNEANet& operator = (const TNEANet& Graph) { if (this!=&Graph) {
+    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH; }
+    return *this; }
+
+  /// Returns the number of nodes in the graph.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the graph. ##TNEANet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the graph.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
+  /// Deletes node of ID NId from the graph. ##TNEANet::DelNode
+  virtual void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the graph.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the graph.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end node in the graph.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
+  /// Returns an iterator referring to the first node's int attribute.
+  TAIntI BegNAIntI(const TStr& attr) const {
+    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
+  /// Returns an iterator referring to the past-the-end node's attribute.
+  TAIntI EndNAIntI(const TStr& attr) const {
+    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TAIntI GetNAIntI(const TStr& attr, const int& NId) const {
+    return TAIntI(VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
+
+  /// Returns an iterator referring to the first node's int attribute.
+  TAIntVI BegNAIntVI(const TStr& attr) const {
+    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
+  /// Returns an iterator referring to the past-the-end node's attribute.
+  TAIntVI EndNAIntVI(const TStr& attr) const {
+    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TAIntVI GetNAIntVI(const TStr& attr, const int& NId) const {
+    return TAIntVI(VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
+
+
+  /// Returns an iterator referring to the first node's str attribute.
+  TAStrI BegNAStrI(const TStr& attr) const {
+
+    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
+  /// Returns an iterator referring to the past-the-end node's attribute.
+  TAStrI EndNAStrI(const TStr& attr) const {
+    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TAStrI GetNAStrI(const TStr& attr, const int& NId) const {
+    return TAStrI(VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
+  /// Returns an iterator referring to the first node's flt attribute.
+  TAFltI BegNAFltI(const TStr& attr) const {
+    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].BegI(), attr, false, this); }
+  /// Returns an iterator referring to the past-the-end node's attribute.
+  TAFltI EndNAFltI(const TStr& attr) const {
+    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].EndI(), attr, false, this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TAFltI GetNAFltI(const TStr& attr, const int& NId) const {
+    return TAFltI(VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].GetI(NodeH.GetKeyId(NId)), attr, false, this); }
+
+  /// Returns a vector of attr names for node NId.
+  void AttrNameNI(const TInt& NId, TStrV& Names) const {
+    AttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
+  void AttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void AttrValueNI(const TInt& NId, TStrV& Values) const {
+    AttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
+  void AttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Values) const;
+
+  /// Returns a vector of int attr names for node NId.
+  void IntAttrNameNI(const TInt& NId, TStrV& Names) const {
+    IntAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
+  void IntAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void IntAttrValueNI(const TInt& NId, TIntV& Values) const {
+    IntAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
+  void IntAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TIntV& Values) const;
+
+
+  /// Returns a vector of int attr names for node NId.
+  void IntVAttrNameNI(const TInt& NId, TStrV& Names) const {
+    IntVAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
+  void IntVAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void IntVAttrValueNI(const TInt& NId, TVec<TIntV>& Values) const {
+    IntVAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
+  void IntVAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TVec<TIntV>& Values) const;
+
+
+  /// Returns a vector of str attr names for node NId.
+  void StrAttrNameNI(const TInt& NId, TStrV& Names) const {
+    StrAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
+  void StrAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void StrAttrValueNI(const TInt& NId, TStrV& Values) const {
+    StrAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
+  void StrAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Values) const;
+  /// Returns a vector of int attr names for node NId.
+  void FltAttrNameNI(const TInt& NId, TStrV& Names) const {
+    FltAttrNameNI(NId, KeyToIndexTypeN.BegI(), Names);}
+  void FltAttrNameNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void FltAttrValueNI(const TInt& NId, TFltV& Values) const {
+    FltAttrValueNI(NId, KeyToIndexTypeN.BegI(), Values);}
+  void FltAttrValueNI(const TInt& NId, TStrIntPrH::TIter NodeHI, TFltV& Values) const;
+
+  /// Returns a vector of attr names for edge EId.
+  void AttrNameEI(const TInt& EId, TStrV& Names) const {
+    AttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
+  void AttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for edge EId.
+  void AttrValueEI(const TInt& EId, TStrV& Values) const {
+    AttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
+  void AttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Values) const;
+  /// Returns a vector of int attr names for edge EId.
+  void IntAttrNameEI(const TInt& EId, TStrV& Names) const {
+    IntAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
+  void IntAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for edge EId.
+  void IntAttrValueEI(const TInt& EId, TIntV& Values) const {
+    IntAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
+  void IntAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TIntV& Values) const;
+
+
+  /// Returns a vector of int attr names for edge EId.
+  void IntVAttrNameEI(const TInt& EId, TStrV& Names) const {
+    IntVAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
+  void IntVAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for edge EId.
+  void IntVAttrValueEI(const TInt& EId, TVec<TIntV>& Values) const {
+    IntVAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
+  void IntVAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TVec<TIntV>& Values) const;
+
+
+  /// Returns a vector of str attr names for node NId.
+  void StrAttrNameEI(const TInt& EId, TStrV& Names) const {
+    StrAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
+  void StrAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void StrAttrValueEI(const TInt& EId, TStrV& Values) const {
+    StrAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
+  void StrAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Values) const;
+  /// Returns a vector of int attr names for node NId.
+  void FltAttrNameEI(const TInt& EId, TStrV& Names) const {
+    FltAttrNameEI(EId, KeyToIndexTypeE.BegI(), Names);}
+  void FltAttrNameEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& Names) const;
+  /// Returns a vector of attr values for node NId.
+  void FltAttrValueEI(const TInt& EId, TFltV& Values) const {
+    FltAttrValueEI(EId, KeyToIndexTypeE.BegI(), Values);}
+  void FltAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TFltV& Values) const;
+
+  /// Returns an iterator referring to the first edge's int attribute.
+  TAIntI BegEAIntI(const TStr& attr) const {
+    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the past-the-end edge's attribute.
+  TAIntI EndEAIntI(const TStr& attr) const {
+    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the edge of ID EId in the graph.
+  TAIntI GetEAIntI(const TStr& attr, const int& EId) const {
+    return TAIntI(VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
+  }
+
+  /// Returns an iterator referring to the first edge's int attribute.
+  TAIntVI BegEAIntVI(const TStr& attr) const {
+    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the past-the-end edge's attribute.
+  TAIntVI EndEAIntVI(const TStr& attr) const {
+    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the edge of ID EId in the graph.
+  TAIntVI GetEAIntVI(const TStr& attr, const int& EId) const {
+    return TAIntVI(VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
+  }
+
+  /// Returns an iterator referring to the first edge's str attribute.
+  TAStrI BegEAStrI(const TStr& attr) const {
+    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);   }
+  /// Returns an iterator referring to the past-the-end edge's attribute.
+  TAStrI EndEAStrI(const TStr& attr) const {
+    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the edge of ID EId in the graph.
+  TAStrI GetEAStrI(const TStr& attr, const int& EId) const {
+    return TAStrI(VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
+  }
+  /// Returns an iterator referring to the first edge's flt attribute.
+  TAFltI BegEAFltI(const TStr& attr) const {
+    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].BegI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the past-the-end edge's attribute.
+  TAFltI EndEAFltI(const TStr& attr) const {
+    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].EndI(), attr, true, this);
+  }
+  /// Returns an iterator referring to the edge of ID EId in the graph.
+  TAFltI GetEAFltI(const TStr& attr, const int& EId) const {
+    return TAFltI(VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].GetI(EdgeH.GetKeyId(EId)), attr, true, this);
+  }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+  /// Returns an ID that is larger than any edge ID in the network.
+  int GetMxEId() const { return MxEId; }
+
+  /// Returns the number of edges in the graph.
+  int GetEdges() const { return EdgeH.Len(); }
+  /// Adds an edge with ID EId between node IDs SrcNId and DstNId to the graph. ##TNEANet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId, int EId  = -1);
+  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId()); }
+  /// Deletes an edge with edge ID EId from the graph.
+  void DelEdge(const int& EId);
+  /// Deletes all edges between node IDs SrcNId and DstNId from the graph. ##TNEANet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge with edge ID EId exists in the graph.
+  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId; return IsEdge(SrcNId, DstNId, EId, IsDir); }
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph. if an edge exists, return its edge ID in EId
+  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
+  /// Returns an edge ID between node IDs SrcNId and DstNId, if such an edge exists. Otherwise, return -1.
+  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
+  /// Returns an iterator referring to the first edge in the graph.
+  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end edge in the graph.
+  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
+  /// Returns an iterator referring to edge with edge ID EId.
+  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
+
+  /// Returns an ID of a random node in the graph.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the graph.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Returns an ID of a random edge in the graph.
+  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random edge in the graph.
+  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the graph.
+  void GetNIdV(TIntV& NIdV) const;
+  /// Gets a vector IDs of all edges in the graph.
+  void GetEIdV(TIntV& EIdV) const;
+
+  /// Tests whether the graph is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the graph.
+  void Clr() { MxNId=0; MxEId=0; NodeH.Clr(); EdgeH.Clr();
+    KeyToIndexTypeN.Clr(); KeyToIndexTypeE.Clr(); IntDefaultsN.Clr(); IntDefaultsE.Clr();
+    StrDefaultsN.Clr(); StrDefaultsE.Clr(); FltDefaultsN.Clr(); FltDefaultsE.Clr();
+    VecOfIntVecsN.Clr(); VecOfIntVecsE.Clr(); VecOfStrVecsN.Clr(); VecOfStrVecsE.Clr();
+    VecOfFltVecsN.Clr(); VecOfFltVecsE.Clr(); VecOfIntVecVecsN.Clr(); VecOfIntVecVecsE.Clr(); 
+    SAttrN.Clr(); SAttrE.Clr();}
+  /// Reserves memory for a graph of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) {
+    if (Nodes>0) { NodeH.Gen(Nodes/2); } if (Edges>0) { EdgeH.Gen(Edges/2); } }
+  /// Defragments the graph. ##TNEANet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the graph data structure for internal consistency. ##TNEANet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the graph in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+
+  /// Attribute based add function for attr to Int value. ##TNEANet::AddIntAttrDatN
+  int AddIntAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return AddIntAttrDatN(NodeI.GetId(), value, attr); }
+  int AddIntAttrDatN(const int& NId, const TInt& value, const TStr& attr);
+  /// Attribute based add function for attr to Str value. ##TNEANet::AddStrAttrDatN
+  int AddStrAttrDatN(const TNodeI& NodeI, const TStr& value, const TStr& attr) { return AddStrAttrDatN(NodeI.GetId(), value, attr); }
+  int AddStrAttrDatN(const int& NId, const TStr& value, const TStr& attr);
+  /// Attribute based add function for attr to Flt value. ##TNEANet::AddFltAttrDatN
+  int AddFltAttrDatN(const TNodeI& NodeI, const TFlt& value, const TStr& attr) { return AddFltAttrDatN(NodeI.GetId(), value, attr); }
+  int AddFltAttrDatN(const int& NId, const TFlt& value, const TStr& attr);
+  /// Attribute based add function for attr to IntV value. ##TNEANet::AddIntVAttrDatN
+  int AddIntVAttrDatN(const TNodeI& NodeI, const TIntV& value, const TStr& attr) { return AddIntVAttrDatN(NodeI.GetId(), value, attr); }
+  int AddIntVAttrDatN(const int& NId, const TIntV& value, const TStr& attr);
+  /// Appends value onto the TIntV attribute for the given node.
+  int AppendIntVAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return AppendIntVAttrDatN(NodeI.GetId(), value, attr); }
+  int AppendIntVAttrDatN(const int& NId, const TInt& value, const TStr& attr);
+  /// Deletes value from the TIntV attribute for the given node.
+  int DelFromIntVAttrDatN(const TNodeI& NodeI, const TInt& value, const TStr& attr) { return DelFromIntVAttrDatN(NodeI.GetId(), value, attr); }
+  int DelFromIntVAttrDatN(const int& NId, const TInt& value, const TStr& attr);
+  /// Attribute based add function for attr to Int value. ##TNEANet::AddIntAttrDatE
+  int AddIntAttrDatE(const TEdgeI& EdgeI, const TInt& value, const TStr& attr) { return AddIntAttrDatE(EdgeI.GetId(), value, attr); }
+  int AddIntAttrDatE(const int& EId, const TInt& value, const TStr& attr);
+  /// Attribute based add function for attr to Str value. ##TNEANet::AddStrAttrDatE
+  int AddStrAttrDatE(const TEdgeI& EdgeI, const TStr& value, const TStr& attr) { return AddStrAttrDatE(EdgeI.GetId(), value, attr); }
+  int AddStrAttrDatE(const int& EId, const TStr& value, const TStr& attr);
+  /// Attribute based add function for attr to Flt value. ##TNEANet::AddFltAttrDatE
+  int AddFltAttrDatE(const TEdgeI& EdgeI, const TFlt& value, const TStr& attr) { return AddFltAttrDatE(EdgeI.GetId(), value, attr); }
+  int AddFltAttrDatE(const int& EId, const TFlt& value, const TStr& attr);
+  /// Attribute based add function for attr to IntV value. ##TNEANet::AddIntVAttrDatE
+  int AddIntVAttrDatE(const TEdgeI& EdgeI, const TIntV& value, const TStr& attr) { return AddIntVAttrDatE(EdgeI.GetId(), value, attr); }
+  int AddIntVAttrDatE(const int& EId, const TIntV& value, const TStr& attr);
+  /// Appends value onto the TIntV attribute for the given node.
+  int AppendIntVAttrDatE(const TEdgeI& EdgeI, const TInt& value, const TStr& attr) { return AppendIntVAttrDatE(EdgeI.GetId(), value, attr); }
+  int AppendIntVAttrDatE(const int& EId, const TInt& value, const TStr& attr);
+  /// Gets the value of int attr from the node attr value vector.
+  TInt GetIntAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetIntAttrDatN(NodeI.GetId(), attr); }
+  TInt GetIntAttrDatN(const int& NId, const TStr& attr);
+
+  /// Gets the value of str attr from the node attr value vector.
+  TStr GetStrAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetStrAttrDatN(NodeI.GetId(), attr); }
+  TStr GetStrAttrDatN(const int& NId, const TStr& attr);
+  /// Gets the value of flt attr from the node attr value vector.
+  TFlt GetFltAttrDatN(const TNodeI& NodeI, const TStr& attr) { return GetFltAttrDatN(NodeI.GetId(), attr); }
+  TFlt GetFltAttrDatN(const int& NId, const TStr& attr);
+  /// Gets the value of the intv attr from the node attr value vector.
+  TIntV GetIntVAttrDatN(const TNodeI& NodeI, const TStr& attr) const { return GetIntVAttrDatN(NodeI.GetId(), attr); }
+  TIntV GetIntVAttrDatN(const int& NId, const TStr& attr) const;
+
+  /// Gets the index of the node attr value vector specified by \c attr (same as GetAttrIndN for compatibility reasons).
+  int GetIntAttrIndN(const TStr& attr);
+  /// Gets the index of the node attr value vector specified by \c attr.
+  int GetAttrIndN(const TStr& attr);
+
+  /// Gets the value of an int node attr specified by node iterator \c NodeI and the attr \c index.
+  TInt GetIntAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetIntAttrIndDatN(NodeI.GetId(), index); }
+  /// Gets the value of an int node attr specified by node ID \c NId and the attr \c index.
+  TInt GetIntAttrIndDatN(const int& NId, const int& index);
+
+  /// Gets the value of a string node attr specified by node iterator \c NodeI and the attr \c index.
+  TStr GetStrAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetStrAttrIndDatN(NodeI.GetId(), index); }
+  /// Gets the value of a string node attr specified by node ID \c NId and the attr \c index.
+  TStr GetStrAttrIndDatN(const int& NId, const int& index);
+
+  /// Gets the value of a float node attr specified by node iterator \c NodeI and the attr \c index.
+  TFlt GetFltAttrIndDatN(const TNodeI& NodeI, const int& index) { return GetFltAttrIndDatN(NodeI.GetId(), index); }
+  /// Gets the value of a float node attr specified by node ID \c NId and the attr \c index.
+  TFlt GetFltAttrIndDatN(const int& NId, const int& index);
+
+  /// Gets the value of int attr from the edge attr value vector.
+  TInt GetIntAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetIntAttrDatE(EdgeI.GetId(), attr); }
+  TInt GetIntAttrDatE(const int& EId, const TStr& attr);
+  /// Gets the value of str attr from the edge attr value vector.
+  TStr GetStrAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetStrAttrDatE(EdgeI.GetId(), attr); }
+  TStr GetStrAttrDatE(const int& EId, const TStr& attr);
+  /// Gets the value of flt attr from the edge attr value vector.
+  TFlt GetFltAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetFltAttrDatE(EdgeI.GetId(), attr); }
+  TFlt GetFltAttrDatE(const int& EId, const TStr& attr);
+  /// Gets the value of the intv attr from the edge attr value vector.
+  TIntV GetIntVAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return GetIntVAttrDatE(EdgeI.GetId(), attr); }
+  TIntV GetIntVAttrDatE(const int& EId, const TStr& attr);
+
+  /// Gets the index of the edge attr value vector specified by \c attr (same as GetAttrIndE for compatibility reasons).
+  int GetIntAttrIndE(const TStr& attr);
+  /// Gets the index of the edge attr value vector specified by \c attr.
+  int GetAttrIndE(const TStr& attr);
+
+  /// Gets the value of an int edge attr specified by edge iterator \c EdgeI and the attr \c index.
+  TInt GetIntAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetIntAttrIndDatE(EdgeI.GetId(), index); }
+  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
+  TInt GetIntAttrIndDatE(const int& EId, const int& index);
+ 
+  /// Gets the value of a float edge attr specified by edge iterator \c EdgeI and the attr \c index.
+  TFlt GetFltAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetFltAttrIndDatE(EdgeI.GetId(), index); }
+  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
+  TFlt GetFltAttrIndDatE(const int& EId, const int& index);
+ 
+  /// Gets the value of a string edge attr specified by edge iterator \c EdgeI and the attr \c index.
+  TStr GetStrAttrIndDatE(const TEdgeI& EdgeI, const int& index) { return GetStrAttrIndDatE(EdgeI.GetId(), index); }
+  /// Gets the value of an int edge attr specified by edge ID \c EId and the attr \c index.
+  TStr GetStrAttrIndDatE(const int& EId, const int& index);
+ 
+  /// Deletes the node attribute for NodeI.
+  int DelAttrDatN(const TNodeI& NodeI, const TStr& attr) { return DelAttrDatN(NodeI.GetId(), attr); } 
+  int DelAttrDatN(const int& NId, const TStr& attr); 
+  /// Deletes the edge attribute for NodeI.
+  int DelAttrDatE(const TEdgeI& EdgeI, const TStr& attr) { return DelAttrDatE(EdgeI.GetId(), attr); } 
+  int DelAttrDatE(const int& EId, const TStr& attr); 
+
+  /// Adds a new Int node attribute to the hashmap.
+  int AddIntAttrN(const TStr& attr, TInt defaultValue=TInt::Mn);
+  /// Adds a new Str node attribute to the hashmap.
+  int AddStrAttrN(const TStr& attr, TStr defaultValue=TStr::GetNullStr());
+  /// Adds a new Flt node attribute to the hashmap.
+  int AddFltAttrN(const TStr& attr, TFlt defaultValue=TFlt::Mn);
+  /// Adds a new IntV node attribute to the hashmap.
+  int AddIntVAttrN(const TStr& attr);
+
+  /// Adds a new Int edge attribute to the hashmap.
+  int AddIntAttrE(const TStr& attr, TInt defaultValue=TInt::Mn);
+  /// Adds a new Str edge attribute to the hashmap.
+  int AddStrAttrE(const TStr& attr, TStr defaultValue=TStr::GetNullStr());
+  /// Adds a new Flt edge attribute to the hashmap.
+  int AddFltAttrE(const TStr& attr, TFlt defaultValue=TFlt::Mn);
+  /// Adds a new IntV edge attribute to the hashmap.
+  int AddIntVAttrE(const TStr& attr);
+
+  /// Removes all the values for node attr.
+  int DelAttrN(const TStr& attr);
+  /// Removes all the values for edge  attr.
+  int DelAttrE(const TStr& attr);
+
+  /// Returns true if \c attr exists for node \c NId and has default value.
+  bool IsAttrDeletedN(const int& NId, const TStr& attr) const;
+  /// Returns true if Int \c attr exists for node \c NId and has default value.
+  bool IsIntAttrDeletedN(const int& NId, const TStr& attr) const;
+  /// Returns true if IntV \c attr exists for node \c NId and is an empty vector.
+  bool IsIntVAttrDeletedN(const int& NId, const TStr& attr) const;
+  /// Returns true if Str \c attr exists for node \c NId and has default value.
+  bool IsStrAttrDeletedN(const int& NId, const TStr& attr) const;
+  /// Returns true if Flt \c attr exists for node \c NId and has default value.
+  bool IsFltAttrDeletedN(const int& NId, const TStr& attr) const;
+
+  /// Returns true if NId attr deleted for current node attr iterator.
+  bool NodeAttrIsDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+  /// Returns true if NId attr deleted value for current node int attr iterator.
+  bool NodeAttrIsIntDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+  /// Returns true if NId attr deleted value for current node int vector attr iterator.
+  bool NodeAttrIsIntVDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+  /// Returns true if NId attr deleted value for current node str attr iterator.
+  bool NodeAttrIsStrDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+  /// Returns true if NId attr deleted value for current node flt attr iterator.
+  bool NodeAttrIsFltDeleted(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+
+  /// Returns true if \c attr exists for edge \c EId and has default value.
+  bool IsAttrDeletedE(const int& EId, const TStr& attr) const;
+  /// Returns true if Int \c attr exists for edge \c EId and has default value.
+  bool IsIntAttrDeletedE(const int& EId, const TStr& attr) const;
+  /// Returns true if IntV \c attr exists for edge \c EId and is an empty vector.
+  bool IsIntVAttrDeletedE(const int& EId, const TStr& attr) const;
+  /// Returns true if Str \c attr exists for edge \c NId and has default value.
+  bool IsStrAttrDeletedE(const int& EId, const TStr& attr) const;
+  /// Returns true if Flt \c attr exists for edge \c NId and has default value.
+  bool IsFltAttrDeletedE(const int& EId, const TStr& attr) const;
+
+  /// Returns true if EId attr deleted for current edge attr iterator.
+  bool EdgeAttrIsDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+  /// Returns true if EId attr deleted for current edge int attr iterator.
+  bool EdgeAttrIsIntDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+  /// Returns true if EId attr deleted for current edge int vector attr iterator.
+  bool EdgeAttrIsIntVDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+  /// Returns true if EId attr deleted for current edge str attr iterator.
+  bool EdgeAttrIsStrDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+  /// Returns true if EId attr deleted for current edge flt attr iterator.
+  bool EdgeAttrIsFltDeleted(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+
+  /// Returns node attribute value, converted to Str type.
+  TStr GetNodeAttrValue(const int& NId, const TStrIntPrH::TIter& NodeHI) const;
+  /// Returns edge attribute value, converted to Str type.
+  TStr GetEdgeAttrValue(const int& EId, const TStrIntPrH::TIter& EdgeHI) const;
+
+  /// Gets the sum of the weights of all the outgoing edges of the node.
+  TFlt GetWeightOutEdges(const TNodeI& NI, const TStr& attr);
+  /// Checks if there is an edge attribute with name attr.
+  bool IsFltAttrE(const TStr& attr);
+  /// Checks if there is an edge attribute with name attr.
+  bool IsIntAttrE(const TStr& attr);
+  /// Checks if there is an edge attribute with name attr.
+  bool IsStrAttrE(const TStr& attr);
+  /// Gets Vector for the Flt Attribute attr.
+  TVec<TFlt>& GetFltAttrVecE(const TStr& attr);
+  /// Gets keyid for edge with id EId.
+  int GetFltKeyIdE(const int& EId);
+
+  /// Fills OutWeights with the outgoing weight from each node.
+  void GetWeightOutEdgesV(TFltV& OutWeights, const TFltV& AttrVal) ;
+  /// Fills each of the vectors with the names of node attributes of the given type.
+  void GetAttrNNames(TStrV& IntAttrNames, TStrV& FltAttrNames, TStrV& StrAttrNames) const;
+  /// Fills each of the vectors with the names of edge attributes of the given type.
+  void GetAttrENames(TStrV& IntAttrNames, TStrV& FltAttrNames, TStrV& StrAttrNames) const;
+
+
+  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
+  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  } 
+  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
+    return DelSAttrDatN(NodeI.GetId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
+    return DelSAttrDatN(NodeI.GetId(), AttrId);
+  }
+
+  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
+  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
+  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
+  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  /// Adds Int sparse attribute with name \c AttrName to the given edge with id \c EId.
+  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given edge with id \c EId. 
+  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given edge with id \c EId.
+  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given edge with id \c EId.
+  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
+    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given edge with id \c EId.
+  int AddSAttrDatE(const TInt& EId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given edge with id \c EId.
+  int AddSAttrDatE(const TInt& EId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
+  } 
+
+  /// Gets Flt sparse attribute with name \c AttrName from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TFlt& ValX) const; 
+  /// Gets Flt sparse attribute with id \c AttrId from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
+  } 
+
+  /// Gets Str sparse attribute with name \c AttrName from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from edge with id \c EId.
+  int GetSAttrDatE(const TInt& EId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from edge with id \c EId.
+  int DelSAttrDatE(const TInt& EId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from edge with id \c EId.
+  int DelSAttrDatE(const TInt& EId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
+    return DelSAttrDatE(EdgeI.GetId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
+    return DelSAttrDatE(EdgeI.GetId(), AttrId);
+  } 
+  /// Gets a list of all sparse attributes of type \c AttrType for edge with id \c EId.
+  int GetSAttrVE(const TInt& EId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
+  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVE(EdgeI.GetId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrE(const TStr& AttrName, TIntV& IdV) const;
+  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrE(const TInt& AttrId, TIntV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  /// Returns a small multigraph on 5 nodes and 6 edges. ##TNEANet::GetSmallGraph
+  static PNEANet GetSmallGraph();
+  friend class TPt<TNEANet>;
+};
+
+// set flags
+namespace TSnap {
+template <> struct IsMultiGraph<TNEANet> { enum { Val = 1 }; };
+template <> struct IsDirected<TNEANet> { enum { Val = 1 }; };
+}
+
+ //#//////////////////////////////////////////////
+/// Undirected networks
+
+class TUndirNet;
+
+/// Pointer to an undirected network (TUndirNet)
+typedef TPt<TUndirNet> PUndirNet;
+
+//#//////////////////////////////////////////////
+/// Directed networks
+class TDirNet;
+
+/// Pointer to a directed network (TDirNet)
+typedef TPt<TDirNet> PDirNet;
+
+//#//////////////////////////////////////////////
+/// Undirected network. ##TUndirNet::Class
+class TUndirNet {
+public:
+  typedef TUndirNet TNet;
+  typedef TPt<TUndirNet> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV NIdV;
+  public:
+    TNode() : Id(-1), NIdV() { }
+    TNode(const int& NId) : Id(NId), NIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return NIdV.Len(); }
+    int GetInDeg() const { return GetDeg(); }
+    int GetOutDeg() const { return GetDeg(); }
+    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
+    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
+    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
+    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
+    void PackOutNIdV() { NIdV.Pack(); }
+    void PackNIdV() { NIdV.Pack(); }
+    friend class TUndirNet;
+    friend class TUndirNetMtx;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+  public:
+    TNodeI() : NodeHI() { }
+    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
+
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    /// Decrement iterator.
+    TNodeI& operator-- (int) { NodeHI--; return *this; }
+
+
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node (returns same as value GetDeg() since the network is undirected).
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node (returns same as value GetDeg() since the network is undirected).
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TUndirNet::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TUndirNet::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TUndirNet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return NodeHI.GetDat().IsNbrNId(NId); }
+    friend class TUndirNet;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; } return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { do { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++; while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } } } while (CurNode < EndNode && GetSrcNId()>GetDstNId()); return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Returns the source of the edge. Since the network is undirected, this is the node with a smaller ID of the edge endpoints.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Returns the destination of the edge. Since the network is undirected, this is the node with a greater ID of the edge endpoints.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    friend class TUndirNet;
+  };
+private:
+  TCRef CRef;
+  TInt MxNId, NEdges;
+  THash<TInt, TNode> NodeH;
+
+  TAttr SAttrN;
+  TAttrPair SAttrE;
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  TIntPr OrderEdgeNodes(const int& SrcNId, const int& DstNId) const;
+public:
+  TUndirNet() : CRef(), MxNId(0), NEdges(0), NodeH(), SAttrN(), SAttrE() { }
+  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
+  explicit TUndirNet(const int& Nodes, const int& Edges) : MxNId(0), NEdges(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
+  TUndirNet(const TUndirNet& Graph) : MxNId(Graph.MxNId), NEdges(Graph.NEdges), NodeH(Graph.NodeH),
+    SAttrN(), SAttrE() { }
+  /// Constructor that loads the network from a (binary) stream SIn.
+  TUndirNet(TSIn& SIn) : MxNId(SIn), NEdges(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
+  /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut);
+    SAttrN.Save(SOut); SAttrE.Save(SOut); }
+  /// Saves the network to a (binary) stream SOut. Available for backwards compatibility.
+  void Save_V1(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the network. Call: PUndirNet Graph = TUndirNet::New().
+  static PUndirNet New() { return new TUndirNet(); }
+  /// Static constructor that returns a pointer to the network and reserves enough memory for Nodes nodes and Edges edges. ##TUndirNet::New
+  static PUndirNet New(const int& Nodes, const int& Edges) { return new TUndirNet(Nodes, Edges); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
+  static PUndirNet Load(TSIn& SIn) { return PUndirNet(new TUndirNet(SIn)); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it. Backwards compatible.
+  static PUndirNet Load_V1(TSIn& SIn) { PUndirNet Graph = PUndirNet(new TUndirNet());
+    Graph->MxNId.Load(SIn); Graph->NEdges.Load(SIn); Graph->NodeH.Load(SIn); return Graph;
+  }
+
+  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TUndirNet& operator = (const TUndirNet& Graph) {
+    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; } return *this; }
+  
+  /// Returns the number of nodes in the network.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the network. ##TUndirNet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the network.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
+  /// Adds a node of ID NId to the network and create edges to all nodes in vector NbrNIdV. ##TUndirNet::AddNode-1
+  int AddNode(const int& NId, const TIntV& NbrNIdV);
+  /// Adds a node of ID NId to the network and create edges to all nodes in vector NIdVId in the vector pool Pool. ##TUndirNet::AddNode-2
+  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NIdVId);
+  /// Deletes node of ID NId from the network. ##TUndirNet::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the network.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the network.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
+  /// Returns an iterator referring to the past-the-end node in the network.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
+  /// Returns an iterator referring to the node of ID NId in the network.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+
+  /// Returns the number of edges in the network.
+  int GetEdges() const;
+  /// Adds an edge between node IDs SrcNId and DstNId to the network. ##TUndirNet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the network.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge between node IDs SrcNId and DstNId from the network. ##TUndirNet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId);
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId) const;
+  /// Returns an iterator referring to the first edge in the network.
+  TEdgeI BegEI() const { TNodeI NI = BegNI(); TEdgeI EI(NI, EndNI(), 0); if (GetNodes() != 0 && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { EI++; } return EI; }
+  /// Returns an iterator referring to the past-the-end edge in the network.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const;
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network. ##TUndirNet::GetEI
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+
+  /// Returns an ID of a random node in the network.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the network.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the network.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the network is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the network.
+  void Clr() { MxNId=0; NEdges=0; NodeH.Clr(); SAttrN.Clr(); SAttrE.Clr(); }
+  /// Reserves memory for a network of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) NodeH.Gen(Nodes/2); }
+  /// Reserves memory for node ID NId having Deg edges.
+  void ReserveNIdDeg(const int& NId, const int& Deg) { GetNode(NId).NIdV.Reserve(Deg); }
+  /// Defragments the network. ##TUndirNet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the network data structure for internal consistency. ##TUndirNet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the network in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small network on 5 nodes and 5 edges. ##TUndirNet::GetSmallGraph
+  static PUndirNet GetSmallGraph();
+
+  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
+  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  } 
+  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
+    return DelSAttrDatN(NodeI.GetId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
+    return DelSAttrDatN(NodeI.GetId(), AttrId);
+  }
+
+  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
+  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
+  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
+  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  /// Adds Int sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  } 
+
+  /// Gets Flt sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TFlt& ValX) const; 
+  /// Gets Flt sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  } 
+
+  /// Gets Str sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
+    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
+    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId);
+  } 
+  /// Gets a list of all sparse attributes of type \c AttrType for edge with ids \c SrcId and \c DstId.
+  int GetSAttrVE(const int& SrcNId, const int& DstNId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
+  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrE(const TStr& AttrName, TIntPrV& IdV) const;
+  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrE(const TInt& AttrId, TIntPrV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  friend class TUndirNetMtx;
+  friend class TPt<TUndirNet>;
+};
+
+//#//////////////////////////////////////////////
+/// Directed network. ##TDirNet::Class
+class TDirNet {
+public:
+  typedef TDirNet TNet;
+  typedef TPt<TDirNet> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV InNIdV, OutNIdV;
+  public:
+    TNode() : Id(-1), InNIdV(), OutNIdV() { }
+    TNode(const int& NId) : Id(NId), InNIdV(), OutNIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), InNIdV(SIn), OutNIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); InNIdV.Save(SOut); OutNIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InNIdV.Len(); }
+    int GetOutDeg() const { return OutNIdV.Len(); }
+    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
+    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
+    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg()?GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
+    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
+    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    void PackOutNIdV() { OutNIdV.Pack(); }
+    void PackNIdV() { InNIdV.Pack(); }
+    friend class TDirNet;
+    friend class TDirNetMtx;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+  public:
+    TNodeI() : NodeHI() { }
+    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    /// Decrement iterator.
+    TNodeI& operator-- (int) { NodeHI--; return *this; }
+
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node, the sum of in-degree and out-degree.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TDirNet::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TDirNet::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TDirNet::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    friend class TDirNet;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
+      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Returns the source node of the edge.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Returns the destination node of the edge.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    friend class TDirNet;
+  };
+private:
+  TCRef CRef;
+  TInt MxNId;
+  THash<TInt, TNode> NodeH;
+  TAttr SAttrN;
+  TAttrPair SAttrE;
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+public:
+  TDirNet() : CRef(), MxNId(0), NodeH(), SAttrN(), SAttrE() { }
+  /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
+  explicit TDirNet(const int& Nodes, const int& Edges) : MxNId(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
+  TDirNet(const TDirNet& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH), SAttrN(), SAttrE() { }
+  /// Constructor that loads the network from a (binary) stream SIn.
+  TDirNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
+  /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); SAttrN.Save(SOut); SAttrE.Save(SOut); }
+  /// Saves the network to a (binary) stream SOut. Available for backwards compatibility.
+  void Save_V1(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the network. Call: PDirNet Graph = TDirNet::New().
+  static PDirNet New() { return new TDirNet(); }
+  /// Static constructor that returns a pointer to the network and reserves enough memory for Nodes nodes and Edges edges. ##TDirNet::New
+  static PDirNet New(const int& Nodes, const int& Edges) { return new TDirNet(Nodes, Edges); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it.
+  static PDirNet Load(TSIn& SIn) { return PDirNet(new TDirNet(SIn)); }
+  /// Static constructor that loads the network from a stream SIn and returns a pointer to it. Backwards compatible.
+  static PDirNet Load_V1(TSIn& SIn) { PDirNet Graph = PDirNet(new TDirNet());
+    Graph->MxNId.Load(SIn); Graph->NodeH.Load(SIn); return Graph;
+  }
+  /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TDirNet& operator = (const TDirNet& Graph) {
+    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; }  return *this; }
+  
+  /// Returns the number of nodes in the network.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the network. ##TDirNet::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the network.
+  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
+  /// Adds a node of ID NId to the network, creates edges to the node from all nodes in vector InNIdV, creates edges from the node to all nodes in vector OutNIdV. ##TDirNet::AddNode-1
+  int AddNode(const int& NId, const TIntV& InNIdV, const TIntV& OutNIdV);
+  /// Adds a node of ID NId to the network, creates edges to the node from all nodes in vector InNIdV in the vector pool Pool, creates edges from the node to all nodes in vector OutNIdVin the vector pool Pool . ##TDirNet::AddNode-2
+  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& SrcVId, const int& DstVId);
+  /// Deletes node of ID NId from the network. ##TDirNet::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the network.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the network.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
+  /// Returns an iterator referring to the past-the-end node in the network.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
+  /// Returns an iterator referring to the node of ID NId in the network.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
+  // GetNodeC() has been commented out. It was a quick shortcut, do not use.
+  //const TNode& GetNodeC(const int& NId) const { return NodeH.GetDat(NId); }
+  /// Returns an ID that is larger than any node ID in the network.
+  int GetMxNId() const { return MxNId; }
+
+  /// Returns the number of edges in the network.
+  int GetEdges() const;
+  /// Adds an edge from node IDs SrcNId to node DstNId to the network. ##TDirNet::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the network.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge from node IDs SrcNId to DstNId from the network. ##TDirNet::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the network.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
+  /// Returns an iterator referring to the first edge in the network.
+  TEdgeI BegEI() const { TNodeI NI=BegNI(); while(NI<EndNI() && NI.GetOutDeg()==0){NI++;} return TEdgeI(NI, EndNI()); }
+  /// Returns an iterator referring to the past-the-end edge in the network.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const; // not supported
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the network.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+
+  /// Returns an ID of a random node in the network.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the network.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the network.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the network is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the network.
+  void Clr() { MxNId=0; NodeH.Clr(); SAttrN.Clr(); SAttrE.Clr(); }
+  /// Reserves memory for a network of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
+  /// Reserves memory for node ID NId having InDeg in-edges.
+  void ReserveNIdInDeg(const int& NId, const int& InDeg) { GetNode(NId).InNIdV.Reserve(InDeg); }
+  /// Reserves memory for node ID NId having OutDeg out-edges.
+  void ReserveNIdOutDeg(const int& NId, const int& OutDeg) { GetNode(NId).OutNIdV.Reserve(OutDeg); }
+  /// Defragments the network. ##TDirNet::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the network data structure for internal consistency. ##TDirNet::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the network in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small network on 5 nodes and 6 edges. ##TDirNet::GetSmallGraph
+  static PDirNet GetSmallGraph();
+
+  /// Adds Int sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TFlt& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given node with id \c NId.
+  int AddSAttrDatN(const TInt& NId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given node with id \c NId. 
+  int AddSAttrDatN(const TInt& NId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c NodeI.
+  int AddSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatN(NodeI.GetId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from node with id \c NId. 
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Flt sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TFlt& ValX) const;
+  /// Gets Flt sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  } 
+  /// Gets Flt sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Gets Str sparse attribute with name \c AttrName from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from node with id \c NId.
+  int GetSAttrDatN(const TInt& NId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c NodeI.
+  int GetSAttrDatN(const TNodeI& NodeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatN(NodeI.GetId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from node with id \c NId.
+  int DelSAttrDatN(const TInt& NId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TStr& AttrName) {
+    return DelSAttrDatN(NodeI.GetId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c NodeI.
+  int DelSAttrDatN(const TNodeI& NodeI, const TInt& AttrId) {
+    return DelSAttrDatN(NodeI.GetId(), AttrId);
+  }
+
+  /// Gets a list of all sparse attributes of type \c AttrType for node with id \c NId.
+  int GetSAttrVN(const TInt& NId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c NodeI.
+  int GetSAttrVN(const TNodeI& NodeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVN(NodeI.GetId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all nodes that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrN(const TStr& AttrName, TIntV& IdV) const;
+  /// Gets a list of all nodes that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrN(const TInt& AttrId, TIntV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrN(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdN(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameN(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  /// Adds Int sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TInt& Val);
+  /// Adds Int sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TInt& Val);
+
+  /// Adds Int sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Int sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TInt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Adds Flt sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TFlt& Val);
+  /// Adds Flt sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TFlt& Val);
+
+  /// Adds Flt sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TFlt& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Flt sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TFlt& Val){
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Adds Str sparse attribute with name \c AttrName to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, const TStr& Val);
+  /// Adds Str sparse attribute with id \c AttrId to the given edge with ids \c SrcId and \c DstId.
+  int AddSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, const TStr& Val);
+
+  /// Adds Str sparse attribute with name \c AttrName to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, Val);
+  }
+  /// Adds Str sparse attribute with id \c AttrId to \c EdgeI.
+  int AddSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, const TStr& Val) {
+    return AddSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, Val);
+  }
+
+  /// Gets Int sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TInt& ValX) const;
+  /// Gets Int sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TInt& ValX) const;
+
+  /// Gets Int sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Int sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TInt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  } 
+
+  /// Gets Flt sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TFlt& ValX) const; 
+  /// Gets Flt sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TFlt& ValX) const;
+
+  /// Gets Flt sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Flt sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TFlt& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  } 
+
+  /// Gets Str sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName, TStr& ValX) const;
+  /// Gets Str sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int GetSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId, TStr& ValX) const;
+
+  /// Gets Str sparse attribute with name \c AttrName from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName, ValX);
+  }
+  /// Gets Str sparse attribute with id \c AttrId from \c EdgeI.
+  int GetSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId, TStr& ValX) const {
+    return GetSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId, ValX);
+  }
+
+  /// Deletes sparse attribute with name \c AttrName from edge with ids \c SrcId and \c DstId.
+  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TStr& AttrName);
+  /// Deletes sparse attribute with id \c AttrId from edge with ids \c SrcId and \c DstId.
+  int DelSAttrDatE(const int& SrcNId, const int& DstNId, const TInt& AttrId);
+
+  /// Deletes sparse attribute with name \c AttrName from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TStr& AttrName) {
+    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrName);
+  }
+  /// Deletes sparse attribute with id \c AttrId from \c EdgeI.
+  int DelSAttrDatE(const TEdgeI& EdgeI, const TInt& AttrId) {
+    return DelSAttrDatE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrId);
+  } 
+  /// Gets a list of all sparse attributes of type \c AttrType for edge with ids \c SrcId and \c DstId.
+  int GetSAttrVE(const int& SrcNId, const int& DstNId, const TAttrType AttrType, TAttrPrV& AttrV) const;
+  /// Gets a list of all sparse attributes of type \c AttrType for \c EdgeI.
+  int GetSAttrVE(const TEdgeI& EdgeI, const TAttrType AttrType, TAttrPrV& AttrV) const {
+    return GetSAttrVE(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), AttrType, AttrV);
+  }
+
+  /// Gets a list of all edges that have a sparse attribute with name \c AttrName.
+  int GetIdVSAttrE(const TStr& AttrName, TIntPrV& IdV) const;
+  /// Gets a list of all edges that have a sparse attribute with id \c AttrId.
+  int GetIdVSAttrE(const TInt& AttrId, TIntPrV& IdV) const;
+
+  /// Adds mapping for sparse attribute with name \c Name and type \c AttrType.
+  int AddSAttrE(const TStr& Name, const TAttrType& AttrType, TInt& AttrId);
+
+  /// Gets id and type for attribute with name \c Name.
+  int GetSAttrIdE(const TStr& Name, TInt& AttrIdX, TAttrType& AttrTypeX) const;
+  /// Gets name and type for attribute with id \c AttrId.
+  int GetSAttrNameE(const TInt& AttrId, TStr& NameX, TAttrType& AttrTypeX) const;
+
+  friend class TPt<TDirNet>;
+  friend class TDirNetMtx;
+};
+
+// set flags
+namespace TSnap {
+template <> struct IsDirected<TDirNet> { enum { Val = 1 }; };
+}
+#endif // NETWORK_H
-- 
2.43.0


From f4abaf3140a93b7969ab8c6ad0651e374dff58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 049/147] fix: TBPGraph::IsOk reports every bipartite graph as
 broken

---
 snap/snap-core/graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index ddf2641..040d5e0 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -799,7 +799,7 @@ void TBPGraph::Defrag(const bool& OnlyNodeLinks) {
 }
 
 bool TBPGraph::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = false;
+  bool RetVal = true;
   // edge lists are sorted
   for (int n = LeftH.FFirstKeyId(); LeftH.FNextKeyId(n); ) {
     if (! LeftH[n].NIdV.IsSorted()) {
-- 
2.43.0


From 122081ec59172fa9380349862f750b99ad26a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 050/147] fix: TBPGraph::BegEI skips the edges of left nodes
 whose id is above that of their first neighbour

---
 snap/snap-core/graph.h | 1810 ++++++++++++++++++++--------------------
 1 file changed, 905 insertions(+), 905 deletions(-)

diff --git a/snap/snap-core/graph.h b/snap/snap-core/graph.h
index b63506f..33c222d 100644
--- a/snap/snap-core/graph.h
+++ b/snap/snap-core/graph.h
@@ -1,905 +1,905 @@
-//#//////////////////////////////////////////////
-/// Undirected graphs
-
-class TUNGraph;
-class TBPGraph;
-//TODO:class TUNEGraph; -- undirected multigraph
-
-/// Pointer to an undirected graph (TUNGraph)
-typedef TPt<TUNGraph> PUNGraph;
-/// Pointer to a bipartitegraph graph (TBPGraph)
-typedef TPt<TBPGraph> PBPGraph;
-
-//#//////////////////////////////////////////////
-/// Directed graphs
-class TNGraph;
-class TNEGraph;
-
-/// Pointer to a directed graph (TNGraph)
-typedef TPt<TNGraph> PNGraph;
-/// Pointer to a directed multigraph (TNEGraph)
-typedef TPt<TNEGraph> PNEGraph;
-
-//#//////////////////////////////////////////////
-/// Undirected graph. ##TUNGraph::Class
-class TUNGraph {
-public:
-  typedef TUNGraph TNet;
-  typedef TPt<TUNGraph> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV NIdV;
-  public:
-    TNode() : Id(-1), NIdV() { }
-    TNode(const int& NId) : Id(NId), NIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return NIdV.Len(); }
-    int GetInDeg() const { return GetDeg(); }
-    int GetOutDeg() const { return GetDeg(); }
-    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
-    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
-    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
-    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
-    void PackOutNIdV() { NIdV.Pack(); }
-    void PackNIdV() { NIdV.Pack(); }
-    void SortNIdV() { NIdV.Sort();}
-    friend class TUNGraph;
-    friend class TUNGraphMtx;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-  public:
-    TNodeI() : NodeHI() { }
-    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
-
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    /// Decrement iterator.
-    TNodeI& operator-- (int) { NodeHI--; return *this; }
-
-
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node (returns same as value GetDeg() since the graph is undirected).
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node (returns same as value GetDeg() since the graph is undirected).
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Sorts the adjacency lists of the current node.
-    void SortNIdV() { NodeHI.GetDat().SortNIdV(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TUNGraph::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TUNGraph::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TUNGraph::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return NodeHI.GetDat().IsNbrNId(NId); }
-    friend class TUNGraph;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; } return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { do { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++; while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } } } while (CurNode < EndNode && GetSrcNId()>GetDstNId()); return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Returns the source of the edge. Since the graph is undirected, this is the node with a smaller ID of the edge endpoints.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Returns the destination of the edge. Since the graph is undirected, this is the node with a greater ID of the edge endpoints.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    friend class TUNGraph;
-  };
-private:
-  TCRef CRef;
-  TInt MxNId, NEdges;
-  THash<TInt, TNode> NodeH;
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-public:
-  TUNGraph() : CRef(), MxNId(0), NEdges(0), NodeH() { }
-  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
-  explicit TUNGraph(const int& Nodes, const int& Edges) : MxNId(0), NEdges(0) { Reserve(Nodes, Edges); }
-  TUNGraph(const TUNGraph& Graph) : MxNId(Graph.MxNId), NEdges(Graph.NEdges), NodeH(Graph.NodeH) { }
-  /// Constructor that loads the graph from a (binary) stream SIn.
-  TUNGraph(TSIn& SIn) : MxNId(SIn), NEdges(SIn), NodeH(SIn) { }
-  /// Saves the graph to a (binary) stream SOut.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the graph. Call: PUNGraph Graph = TUNGraph::New().
-  static PUNGraph New() { return new TUNGraph(); }
-  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TUNGraph::New
-  static PUNGraph New(const int& Nodes, const int& Edges) { return new TUNGraph(Nodes, Edges); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
-  static PUNGraph Load(TSIn& SIn) { return PUNGraph(new TUNGraph(SIn)); }
-  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TUNGraph& operator = (const TUNGraph& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; } return *this; }
-  
-  /// Returns the number of nodes in the graph.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the graph. ##TUNGraph::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NId to the graph without performing checks.
-  int AddNodeUnchecked(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the graph.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
-  /// Adds a node of ID NId to the graph and create edges to all nodes in vector NbrNIdV. ##TUNGraph::AddNode-1
-  int AddNode(const int& NId, const TIntV& NbrNIdV);
-  /// Adds a node of ID NId to the graph and create edges to all nodes in vector NIdVId in the vector pool Pool. ##TUNGraph::AddNode-2
-  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NIdVId);
-  /// Deletes node of ID NId from the graph. ##TUNGraph::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the graph.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the graph.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
-  /// Returns an iterator referring to the past-the-end node in the graph.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
-  /// Returns an ID that is larger than any node ID in the graph.
-  int GetMxNId() const { return MxNId; }
-
-  /// Returns the number of edges in the graph.
-  int GetEdges() const;
-  /// Adds an edge between node IDs SrcNId and DstNId to the graph. ##TUNGraph::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from node IDs SrcNId to node DstNId to the graph without performing checks.
-  int AddEdgeUnchecked(const int& SrcNId, const int& DstNId);
-  /// Adds an edge between node IDs SrcNId and DstNId to the graph. If nodes do not exists, create them.
-  int AddEdge2(const int& SrcNId, const int& DstNId);
-  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge between node IDs SrcNId and DstNId from the graph. ##TUNGraph::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId);
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
-  bool IsEdge(const int& SrcNId, const int& DstNId) const;
-  /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { TNodeI NI = BegNI(); TEdgeI EI(NI, EndNI(), 0); if (GetNodes() != 0 && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { EI++; } return EI; }
-  /// Returns an iterator referring to the past-the-end edge in the graph.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const;
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph. ##TUNGraph::GetEI
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-
-  /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the graph.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the graph.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the graph is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the graph.
-  void Clr() { MxNId=0; NEdges=0; NodeH.Clr(); }
-  /// Sorts the adjacency lists of each node
-  void SortNodeAdjV() { for (TNodeI NI = BegNI(); NI < EndNI(); NI++) { NI.SortNIdV();} }
-  /// Reserves memory for a graph of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) NodeH.Gen(Nodes/2); }
-  /// Reserves memory for node ID NId having Deg edges.
-  void ReserveNIdDeg(const int& NId, const int& Deg) { GetNode(NId).NIdV.Reserve(Deg); }
-  /// Defragments the graph. ##TUNGraph::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the graph data structure for internal consistency. ##TUNGraph::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the graph in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small graph on 5 nodes and 5 edges. ##TUNGraph::GetSmallGraph
-  static PUNGraph GetSmallGraph();
-
-  friend class TUNGraphMtx;
-  friend class TPt<TUNGraph>;
-};
-
-//#//////////////////////////////////////////////
-/// Directed graph. ##TNGraph::Class
-class TNGraph {
-public:
-  typedef TNGraph TNet;
-  typedef TPt<TNGraph> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV InNIdV, OutNIdV;
-  public:
-    TNode() : Id(-1), InNIdV(), OutNIdV() { }
-    TNode(const int& NId) : Id(NId), InNIdV(), OutNIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), InNIdV(SIn), OutNIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); InNIdV.Save(SOut); OutNIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InNIdV.Len(); }
-    int GetOutDeg() const { return OutNIdV.Len(); }
-    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
-    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
-    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg()?GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
-    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
-    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    void PackOutNIdV() { OutNIdV.Pack(); }
-    void PackNIdV() { InNIdV.Pack(); }
-    void SortNIdV() { InNIdV.Sort(); OutNIdV.Sort();}
-    friend class TNGraph;
-    friend class TNGraphMtx;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-  public:
-    TNodeI() : NodeHI() { }
-    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    /// Decrement iterator.
-    TNodeI& operator-- (int) { NodeHI--; return *this; }
-
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node, the sum of in-degree and out-degree.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Sorts the adjacency lists of the current node.
-    void SortNIdV() { NodeHI.GetDat().SortNIdV(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNGraph::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNGraph::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TNGraph::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    friend class TNGraph;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode;
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
-      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Returns the source node of the edge.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Returns the destination node of the edge.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    friend class TNGraph;
-  };
-private:
-  TCRef CRef;
-  TInt MxNId;
-  THash<TInt, TNode> NodeH;
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-public:
-  TNGraph() : CRef(), MxNId(0), NodeH() { }
-  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
-  explicit TNGraph(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
-  TNGraph(const TNGraph& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH) { }
-  /// Constructor that loads the graph from a (binary) stream SIn.
-  TNGraph(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
-  /// Saves the graph to a (binary) stream SOut.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the graph. Call: PNGraph Graph = TNGraph::New().
-  static PNGraph New() { return new TNGraph(); }
-  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNGraph::New
-  static PNGraph New(const int& Nodes, const int& Edges) { return new TNGraph(Nodes, Edges); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
-  static PNGraph Load(TSIn& SIn) { return PNGraph(new TNGraph(SIn)); }
-  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TNGraph& operator = (const TNGraph& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; }  return *this; }
-  
-  /// Returns the number of nodes in the graph.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the graph. ##TNGraph::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NId to the graph without performing checks.
-  int AddNodeUnchecked(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the graph.
-  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
-  /// Adds a node of ID NId to the graph, creates edges to the node from all nodes in vector InNIdV, creates edges from the node to all nodes in vector OutNIdV. ##TNGraph::AddNode-1
-  int AddNode(const int& NId, const TIntV& InNIdV, const TIntV& OutNIdV);
-  /// Adds a node of ID NId to the graph, creates edges to the node from all nodes in vector InNIdV in the vector pool Pool, creates edges from the node to all nodes in vector OutNIdVin the vector pool Pool . ##TNGraph::AddNode-2
-  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& SrcVId, const int& DstVId);
-  /// Deletes node of ID NId from the graph. ##TNGraph::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the graph.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the graph.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
-  /// Returns an iterator referring to the past-the-end node in the graph.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
-  // GetNodeC() has been commented out. It was a quick shortcut, do not use.
-  //const TNode& GetNodeC(const int& NId) const { return NodeH.GetDat(NId); }
-  /// Returns an ID that is larger than any node ID in the graph.
-  int GetMxNId() const { return MxNId; }
-
-  /// Returns the number of edges in the graph.
-  int GetEdges() const;
-  /// Adds an edge from node IDs SrcNId to node DstNId to the graph. ##TNGraph::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from node IDs SrcNId to node DstNId to the graph without performing checks.
-  int AddEdgeUnchecked(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from node IDs SrcNId to node DstNId to the graph. If nodes do not exist, create them.
-  int AddEdge2(const int& SrcNId, const int& DstNId);
-  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the graph.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge from node IDs SrcNId to DstNId from the graph. ##TNGraph::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the graph.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
-  /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { TNodeI NI=BegNI(); while(NI<EndNI() && NI.GetOutDeg()==0){NI++;} return TEdgeI(NI, EndNI()); }
-  /// Returns an iterator referring to the past-the-end edge in the graph.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const; // not supported
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
-
-  /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the graph.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the graph.
-  void GetNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the graph is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the graph.
-  void Clr() { MxNId=0; NodeH.Clr(); }
-  /// Reserves memory for a graph of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
-  /// Reserves memory for node ID NId having InDeg in-edges.
-  void ReserveNIdInDeg(const int& NId, const int& InDeg) { GetNode(NId).InNIdV.Reserve(InDeg); }
-  /// Reserves memory for node ID NId having OutDeg out-edges.
-  void ReserveNIdOutDeg(const int& NId, const int& OutDeg) { GetNode(NId).OutNIdV.Reserve(OutDeg); }
-  /// Sorts the adjacency lists of each node
-  void SortNodeAdjV() { for (TNodeI NI = BegNI(); NI < EndNI(); NI++) { NI.SortNIdV();} }
-  /// Defragments the graph. ##TNGraph::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the graph data structure for internal consistency. ##TNGraph::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the graph in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small graph on 5 nodes and 6 edges. ##TNGraph::GetSmallGraph
-  static PNGraph GetSmallGraph();
-  friend class TPt<TNGraph>;
-  friend class TNGraphMtx;
-};
-
-// set flags
-namespace TSnap {
-template <> struct IsDirected<TNGraph> { enum { Val = 1 }; };
-}
-
-//#//////////////////////////////////////////////
-/// Directed multigraph. ##TNEGraph::Class
-class TNEGraph {
-public:
-  typedef TNEGraph TNet;
-  typedef TPt<TNEGraph> PNet;
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV InEIdV, OutEIdV;
-  public:
-    TNode() : Id(-1), InEIdV(), OutEIdV() { }
-    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV() { }
-    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV) { }
-    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); InEIdV.Save(SOut); OutEIdV.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
-    int GetInDeg() const { return InEIdV.Len(); }
-    int GetOutDeg() const { return OutEIdV.Len(); }
-    int GetInEId(const int& EdgeN) const { return InEIdV[EdgeN]; }
-    int GetOutEId(const int& EdgeN) const { return OutEIdV[EdgeN]; }
-    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
-    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
-    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
-    friend class TNEGraph;
-  };
-  class TEdge {
-  private:
-    TInt Id, SrcNId, DstNId;
-  public:
-    TEdge() : Id(-1), SrcNId(-1), DstNId(-1) { }
-    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId) { }
-    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId) { }
-    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn) { }
-    void Save(TSOut& SOut) const { Id.Save(SOut); SrcNId.Save(SOut); DstNId.Save(SOut); }
-    int GetId() const { return Id; }
-    int GetSrcNId() const { return SrcNId; }
-    int GetDstNId() const { return DstNId; }
-    friend class TNEGraph;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter NodeHI;
-    const TNEGraph *Graph;
-  public:
-    TNodeI() : NodeHI(), Graph(NULL) { }
-    TNodeI(const THashIter& NodeHIter, const TNEGraph* GraphPt) : NodeHI(NodeHIter), Graph(GraphPt) { }
-    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Graph(NodeI.Graph) { }
-    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; Graph=NodeI.Graph; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { NodeHI++; return *this; }
-    /// Decrement iterator.
-    TNodeI& operator-- (int) { NodeHI--; return *this; }
-
-    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
-    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return NodeHI.GetDat().GetId(); }
-    /// Returns degree of the current node, the sum of in-degree and out-degree.
-    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
-    /// Returns in-degree of the current node.
-    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node.
-    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
-    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNEGraph::TNodeI::GetInNId
-    int GetInNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
-    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNEGraph::TNodeI::GetOutNId
-    int GetOutNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
-    /// Returns ID of EdgeN-th neighboring node. ##TNEGraph::TNodeI::GetNbrNId
-    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Graph->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN));
-      return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const;
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const;
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
-    // edges
-    /// Returns ID of EdgeN-th in-edge.
-    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
-    /// Returns ID of EdgeN-th out-edge.
-    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
-    /// Returns ID of EdgeN-th in or out-edge.
-    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
-    /// Tests whether the edge with ID EId is an in-edge of current node.
-    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
-    /// Tests whether the edge with ID EId is an out-edge of current node.
-    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
-    /// Tests whether the edge with ID EId is an in or out-edge of current node.
-    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
-    friend class TNEGraph;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    typedef THash<TInt, TEdge>::TIter THashIter;
-    THashIter EdgeHI;
-    const TNEGraph *Graph;
-  public:
-    TEdgeI() : EdgeHI(), Graph(NULL) { }
-    TEdgeI(const THashIter& EdgeHIter, const TNEGraph *GraphPt) : EdgeHI(EdgeHIter), Graph(GraphPt) { }
-    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Graph(EdgeI.Graph) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI; Graph=EdgeI.Graph; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { EdgeHI++; return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
-    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
-    /// Gets edge ID.
-    int GetId() const { return EdgeHI.GetDat().GetId(); }
-    /// Gets the source of an edge.
-    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
-    /// Gets destination of an edge.
-    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
-    friend class TNEGraph;
-  };
-
-private:
-  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
-  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
-private:
-  TCRef CRef;
-  TInt MxNId, MxEId;
-  THash<TInt, TNode> NodeH;
-  THash<TInt, TEdge> EdgeH;
-public:
-  TNEGraph() : CRef(), MxNId(0), MxEId(0) { }
-  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
-  explicit TNEGraph(const int& Nodes, const int& Edges) : CRef(), MxNId(0), MxEId(0) { Reserve(Nodes, Edges); }
-  TNEGraph(const TNEGraph& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId), NodeH(Graph.NodeH), EdgeH(Graph.EdgeH) { }
-  /// Constructor for loading the graph from a (binary) stream SIn.
-  TNEGraph(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn) { }
-  /// Saves the graph to a (binary) stream SOut.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut); }
-  /// Static constructor that returns a pointer to the graph. Call: PNEGraph Graph = TNEGraph::New().
-  static PNEGraph New() { return PNEGraph(new TNEGraph()); }
-  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNEGraph::New
-  static PNEGraph New(const int& Nodes, const int& Edges) { return PNEGraph(new TNEGraph(Nodes, Edges)); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
-  static PNEGraph Load(TSIn& SIn) { return PNEGraph(new TNEGraph(SIn)); }
-  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TNEGraph& operator = (const TNEGraph& Graph) { if (this!=&Graph) {
-    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH; }  return *this; }
-
-  /// Returns the number of nodes in the graph.
-  int GetNodes() const { return NodeH.Len(); }
-  /// Adds a node of ID NId to the graph. ##TNEGraph::AddNode
-  int AddNode(int NId = -1);
-  /// Adds a node of ID NodeI.GetId() to the graph.
-  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
-  /// Deletes node of ID NId from the graph. ##TNEGraph::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the graph.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
-  /// Returns an iterator referring to the first node in the graph.
-  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end node in the graph.
-  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
-  /// Returns an ID that is larger than any node ID in the graph.
-  int GetMxNId() const { return MxNId; }
-
-  /// Returns the number of edges in the graph.
-  int GetEdges() const { return EdgeH.Len(); }
-  /// Adds an edge with ID EId between node IDs SrcNId and DstNId to the graph. ##TNEGraph::AddEdge
-  int AddEdge(const int& SrcNId, const int& DstNId, int EId  = -1);
-  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId()); }
-  /// Deletes an edge with edge ID EId from the graph.
-  void DelEdge(const int& EId);
-  /// Deletes all edges between node IDs SrcNId and DstNId from the graph. ##TNEGraph::DelEdge
-  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
-  /// Tests whether an edge with edge ID EId exists in the graph.
-  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
-  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId; return IsEdge(SrcNId, DstNId, EId, IsDir); }
-  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph. if an edge exists, return its edge ID in EId
-  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
-  /// Returns an edge ID between node IDs SrcNId and DstNId, if such an edge exists. Otherwise, return -1.
-  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
-  /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
-  /// Returns an iterator referring to the past-the-end edge in the graph.
-  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
-  /// Returns an iterator referring to edge with edge ID EId. 
-  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
-  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph. 
-  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
-
-  /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random node in the graph.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Returns an ID of a random edge in the graph.
-  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
-  /// Returns an interator referring to a random edge in the graph.
-  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the graph.
-  void GetNIdV(TIntV& NIdV) const;
-  /// Gets a vector IDs of all edges in the graph.
-  void GetEIdV(TIntV& EIdV) const;
-
-  /// Tests whether the graph is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the graph.
-  void Clr() { MxNId=0; MxEId=0; NodeH.Clr(); EdgeH.Clr(); }
-  /// Reserves memory for a graph of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges) {
-    if (Nodes>0) { NodeH.Gen(Nodes/2); } if (Edges>0) { EdgeH.Gen(Edges/2); } }
-  /// Defragments the graph. ##TNEGraph::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the graph data structure for internal consistency. ##TNEGraph::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the graph in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small multigraph on 5 nodes and 6 edges. ##TNEGraph::GetSmallGraph
-  static PNEGraph GetSmallGraph();
-  friend class TPt<TNEGraph>;
-};
-
-// set flags
-namespace TSnap {
-template <> struct IsMultiGraph<TNEGraph> { enum { Val = 1 }; };
-template <> struct IsDirected<TNEGraph> { enum { Val = 1 }; };
-}
-
-//#//////////////////////////////////////////////
-/// Bipartite graph. ##Bipartite_graph
-class TBPGraph {
-public:
-  typedef TBPGraph TNet;
-  typedef TPt<TBPGraph> PNet;
-  typedef enum { bgsUndef, bgsLeft, bgsRight, bgsBoth } TNodeTy; // left or right hand side node
-public:
-  class TNode {
-  private:
-    TInt Id;
-    TIntV NIdV;
-    TNodeTy NodeTy; // remove
-  public:
-    TNode() : Id(-1), NIdV(), NodeTy(bgsUndef) { }
-    TNode(const int& NId) : Id(NId), NIdV(), NodeTy(true?bgsLeft:bgsRight) { }
-    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV), NodeTy(Node.NodeTy) { }
-    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn), NodeTy(bgsUndef) { TInt Ty(SIn); NodeTy=(TNodeTy)Ty.Val; }
-    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); TInt(NodeTy).Save(SOut); }
-    int GetId() const { return Id; }
-    int GetDeg() const { return NIdV.Len(); }
-    int GetInDeg() const { return GetDeg(); }
-    int GetOutDeg() const { return GetDeg(); }
-    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
-    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
-    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
-    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
-    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
-    void PackOutNIdV() { NIdV.Pack(); }
-    void PackNIdV() { NIdV.Pack(); }
-    friend class TBPGraph;
-  };
-  /// Node iterator. Only forward iteration (operator++) is supported.
-  class TNodeI {
-  private:
-    typedef THash<TInt, TNode>::TIter THashIter;
-    THashIter LeftHI, RightHI; // iterator over left and right hand-side nodes
-  private:
-    inline THashIter HI() const { return ! LeftHI.IsEnd()?LeftHI:RightHI; }
-  public:
-    TNodeI() : LeftHI(), RightHI() { }
-    TNodeI(const THashIter& LeftHIter, const THashIter& RightHIter) : LeftHI(LeftHIter), RightHI(RightHIter) { }
-    TNodeI(const TNodeI& NodeI) : LeftHI(NodeI.LeftHI), RightHI(NodeI.RightHI) { }
-    TNodeI& operator = (const TNodeI& NodeI) { LeftHI = NodeI.LeftHI; RightHI=NodeI.RightHI; return *this; }
-    /// Increment iterator.
-    TNodeI& operator++ (int) { 
-      if (! LeftHI.IsEnd()) { 
-        LeftHI++; } 
-      else if (! RightHI.IsEnd()) { 
-        RightHI++; } 
-      return *this; }
-    bool operator < (const TNodeI& NodeI) const { return LeftHI < NodeI.LeftHI || (LeftHI==NodeI.LeftHI && RightHI < NodeI.RightHI); }
-    bool operator == (const TNodeI& NodeI) const { return LeftHI==NodeI.LeftHI && RightHI==NodeI.RightHI; }
-    /// Returns ID of the current node.
-    int GetId() const { return HI().GetDat().GetId(); }
-    /// Tests whether the node is left hand side node.
-    bool IsLeft() const { return ! LeftHI.IsEnd(); }
-    /// Tests whether the node is right hand side node.
-    bool IsRight() const { return ! IsLeft(); }
-    /// Returns degree of the current node.
-    int GetDeg() const { return HI().GetDat().GetDeg(); }
-    /// Returns in-degree of the current node (returns same as value GetDeg() since the graph is undirected).
-    int GetInDeg() const { return HI().GetDat().GetInDeg(); }
-    /// Returns out-degree of the current node (returns same as value GetDeg() since the graph is undirected).
-    int GetOutDeg() const { return HI().GetDat().GetOutDeg(); }
-    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TBPGraph::TNodeI::GetInNId
-    int GetInNId(const int& NodeN) const { return HI().GetDat().GetInNId(NodeN); }
-    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TBPGraph::TNodeI::GetOutNId
-    int GetOutNId(const int& NodeN) const { return HI().GetDat().GetOutNId(NodeN); }
-    /// Returns ID of NodeN-th neighboring node. ##TBPGraph::TNodeI::GetNbrNId
-    int GetNbrNId(const int& NodeN) const { return HI().GetDat().GetNbrNId(NodeN); }
-    /// Tests whether node with ID NId points to the current node.
-    bool IsInNId(const int& NId) const { return HI().GetDat().IsInNId(NId); }
-    /// Tests whether the current node points to node with ID NId.
-    bool IsOutNId(const int& NId) const { return HI().GetDat().IsOutNId(NId); }
-    /// Tests whether node with ID NId is a neighbor of the current node.
-    bool IsNbrNId(const int& NId) const { return HI().GetDat().IsNbrNId(NId); }
-    friend class TBPGraph;
-  };
-  /// Edge iterator. Only forward iteration (operator++) is supported.
-  class TEdgeI {
-  private:
-    TNodeI CurNode, EndNode; // end node on the 'left'
-    int CurEdge;
-  public:
-    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
-    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
-    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
-    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
-    /// Increment iterator.
-    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
-      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
-    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
-    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
-    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
-    int GetId() const { return -1; }
-    /// Gets the source ('left' side) of an edge. Since the graph is undirected this is the node with smaller ID of the edge endpoints.
-    int GetSrcNId() const { return CurNode.GetId(); }
-    /// Gets destination ('right' side) of an edge. Since the graph is undirected this is the node with greater ID of the edge endpoints.
-    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
-    /// Gets the ID of the node on the 'left' side of the edge.
-    int GetLNId() const { return GetSrcNId(); }
-    /// Gets the ID of the node on the 'right' side of the edge.
-    int GetRNId() const { return GetDstNId(); }
-    friend class TBPGraph;
-  };
-private:
-  TCRef CRef;
-  TInt MxNId;                 // maximum node ID in the graph
-  THash<TInt, TNode> LeftH;   // 'left' nodes
-  THash<TInt, TNode> RightH;  // 'right' nodes
-private:
-  //TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
-  //const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
-public:
-  TBPGraph() : CRef(), MxNId(0), LeftH(), RightH() { }
-  /// Constructor that reserves enough memory for a graph of Nodes (LeftNodes+RightNodes) nodes and Edges edges.
-  explicit TBPGraph(const int& Nodes, const int& Edges) : MxNId(0) { } //!!! Reserve(Nodes, Edges); }
-  TBPGraph(const TBPGraph& BPGraph) : MxNId(BPGraph.MxNId), LeftH(BPGraph.LeftH), RightH(BPGraph.RightH) { }
-  /// Constructor for loading the graph from a (binary) stream SIn.
-  TBPGraph(TSIn& SIn) : MxNId(SIn), LeftH(SIn), RightH(SIn) { }
-  /// Saves the graph to a (binary) stream SOut.
-  void Save(TSOut& SOut) const { MxNId.Save(SOut); LeftH.Save(SOut); RightH.Save(SOut); }
-  /// Static constructor that returns a pointer to the graph. Call: PBPGraph BPGraph = TBPGraph::New();
-  static PBPGraph New() { return new TBPGraph(); }
-  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TBPGraph::New
-  static PBPGraph New(const int& Nodes, const int& Edges) { return new TBPGraph(Nodes, Edges); }
-  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
-  static PBPGraph Load(TSIn& SIn) { return PBPGraph(new TBPGraph(SIn)); }
-  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
-  bool HasFlag(const TGraphFlag& Flag) const;
-  TBPGraph& operator = (const TBPGraph& BPGraph) {
-    if (this!=&BPGraph) { MxNId=BPGraph.MxNId; LeftH=BPGraph.LeftH; RightH=BPGraph.RightH; }  return *this; }
-  
-  /// Returns the total number of nodes in the graph.
-  int GetNodes() const { return GetLNodes() + GetRNodes(); }
-  /// Returns the number of nodes on the 'left' side of the biparite graph.
-  int GetLNodes() const { return LeftH.Len(); }
-  /// Returns the number of nodes on the 'right' side of the biparite graph.
-  int GetRNodes() const { return RightH.Len(); }
-  /// Adds a node of ID NId to the graph. ##TBPGraph::AddNode
-  int AddNode(int NId = -1, const bool& LeftNode=true);
-  /// Adds a node of ID NodeI.GetId() to the graph.
-  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.IsLeft()); }
-  /// Deletes node of ID NId from the graph. ##TBPGraph::DelNode
-  void DelNode(const int& NId);
-  /// Deletes node of ID NodeI.GetId() from the graph.
-  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
-  /// Tests whether ID NId is a node.
-  bool IsNode(const int& NId) const { return IsLNode(NId) || IsRNode(NId); }
-  /// Tests whether ID NId is a 'left' side node.
-  bool IsLNode(const int& NId) const { return LeftH.IsKey(NId); }
-  /// Tests whether ID NId is a 'right' side node.
-  bool IsRNode(const int& NId) const { return RightH.IsKey(NId); }
-  /// Returns an ID that is larger than any node ID in the graph.
-  int GetMxNId() const { return MxNId; }
-    
-  /// Returns an iterator referring to the first node in the graph.
-  TNodeI BegNI() const { return TNodeI(LeftH.BegI(), RightH.BegI()); }
-  /// Returns an iterator referring to the past-the-end node in the graph.
-  TNodeI EndNI() const { return TNodeI(LeftH.EndI(), RightH.EndI()); }
-  /// Returns an iterator referring to the node of ID NId in the graph.
-  TNodeI GetNI(const int& NId) const { return IsLNode(NId) ? TNodeI(LeftH.GetI(NId), RightH.EndI()) : TNodeI(LeftH.EndI(), RightH.GetI(NId)); }
-  /// Returns an iterator referring to the first 'left' node in the graph.
-  TNodeI BegLNI() const { return TNodeI(LeftH.BegI(), RightH.EndI()); }
-  /// Returns an iterator referring to the past-the-end 'left' node in the graph.
-  TNodeI EndLNI() const { return EndNI(); }
-  /// Returns an iterator referring to the first 'right' node in the graph.
-  TNodeI BegRNI() const { return TNodeI(LeftH.EndI(), RightH.BegI()); }
-  /// Returns an iterator referring to the past-the-end 'right' node in the graph.
-  TNodeI EndRNI() const { return EndNI(); }
-
-  /// Returns the number of edges in the graph.
-  int GetEdges() const;
-  /// Adds an edge between a node LeftNId on the left and a node RightNId on the right side of the bipartite graph. ##TBPGraph::AddEdge
-  int AddEdge(const int& LeftNId, const int& RightNId);
-  /// Adds an edge between EdgeI.GetLNId() and EdgeI.GetRNId() to the graph.
-  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
-  /// Deletes an edge between a node LeftNId on the left and a node RightNId on the right side of the bipartite graph. ##TBPGraph::DelEdge
-  void DelEdge(const int& LeftNId, const int& RightNId);
-  /// Tests whether an edge between node IDs LeftNId and RightNId exists in the graph.
-  bool IsEdge(const int& LeftNId, const int& RightNId) const;
-  /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { NI++; } return TEdgeI(NI, EndLNI()); }
-  /// Returns an iterator referring to the past-the-end edge in the graph.
-  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
-  /// Not supported/implemented!
-  TEdgeI GetEI(const int& EId) const;
-  /// Returns an iterator referring to edge (LeftNId, RightNId) in the graph. ##TBPGraph::GetEI
-  TEdgeI GetEI(const int& LeftNId, const int& RightNId) const;
-    
-  /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd);
-  /// Returns an ID of a random 'left' node in the graph.
-  int GetRndLNId(TRnd& Rnd=TInt::Rnd);
-  /// Returns an ID of a random 'right' node in the graph.
-  int GetRndRNId(TRnd& Rnd=TInt::Rnd);
-  /// Returns an interator referring to a random node in the graph.
-  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
-  /// Gets a vector IDs of all nodes in the bipartite graph.
-  void GetNIdV(TIntV& NIdV) const;
-  /// Gets a vector IDs of all 'left' nodes in the bipartite graph.
-  void GetLNIdV(TIntV& NIdV) const;
-  /// Gets a vector IDs of all 'right' nodes in the bipartite graph.
-  void GetRNIdV(TIntV& NIdV) const;
-
-  /// Tests whether the bipartite graph is empty (has zero nodes).
-  bool Empty() const { return GetNodes()==0; }
-  /// Deletes all nodes and edges from the bipartite graph.
-  void Clr() { MxNId=0; LeftH.Clr(); RightH.Clr(); }
-  /// Reserves memory for a biparite graph of Nodes nodes and Edges edges.
-  void Reserve(const int& Nodes, const int& Edges);
-  /// Defragments the biparite graph. ##TBPGraph::Defrag
-  void Defrag(const bool& OnlyNodeLinks=false);
-  /// Checks the bipartite graph data structure for internal consistency. ##TBPGraph::IsOk
-  bool IsOk(const bool& ThrowExcept=true) const;
-  /// Print the biparite graph in a human readable form to an output stream OutF.
-  void Dump(FILE *OutF=stdout) const;
-  /// Returns a small graph on 2 'left', 3 'right' nodes and 4 edges. ##TBPGraph::GetSmallGraph
-  static PBPGraph GetSmallGraph();
-
-  friend class TPt<TBPGraph>;
-};
-
-// set flags
-namespace TSnap {
-template <> struct IsBipart<TBPGraph> { enum { Val = 1 }; };
-}
-
+//#//////////////////////////////////////////////
+/// Undirected graphs
+
+class TUNGraph;
+class TBPGraph;
+//TODO:class TUNEGraph; -- undirected multigraph
+
+/// Pointer to an undirected graph (TUNGraph)
+typedef TPt<TUNGraph> PUNGraph;
+/// Pointer to a bipartitegraph graph (TBPGraph)
+typedef TPt<TBPGraph> PBPGraph;
+
+//#//////////////////////////////////////////////
+/// Directed graphs
+class TNGraph;
+class TNEGraph;
+
+/// Pointer to a directed graph (TNGraph)
+typedef TPt<TNGraph> PNGraph;
+/// Pointer to a directed multigraph (TNEGraph)
+typedef TPt<TNEGraph> PNEGraph;
+
+//#//////////////////////////////////////////////
+/// Undirected graph. ##TUNGraph::Class
+class TUNGraph {
+public:
+  typedef TUNGraph TNet;
+  typedef TPt<TUNGraph> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV NIdV;
+  public:
+    TNode() : Id(-1), NIdV() { }
+    TNode(const int& NId) : Id(NId), NIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return NIdV.Len(); }
+    int GetInDeg() const { return GetDeg(); }
+    int GetOutDeg() const { return GetDeg(); }
+    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
+    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
+    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
+    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
+    void PackOutNIdV() { NIdV.Pack(); }
+    void PackNIdV() { NIdV.Pack(); }
+    void SortNIdV() { NIdV.Sort();}
+    friend class TUNGraph;
+    friend class TUNGraphMtx;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+  public:
+    TNodeI() : NodeHI() { }
+    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
+
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    /// Decrement iterator.
+    TNodeI& operator-- (int) { NodeHI--; return *this; }
+
+
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node (returns same as value GetDeg() since the graph is undirected).
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node (returns same as value GetDeg() since the graph is undirected).
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Sorts the adjacency lists of the current node.
+    void SortNIdV() { NodeHI.GetDat().SortNIdV(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TUNGraph::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TUNGraph::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TUNGraph::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return NodeHI.GetDat().IsNbrNId(NId); }
+    friend class TUNGraph;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; } return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { do { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++; while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } } } while (CurNode < EndNode && GetSrcNId()>GetDstNId()); return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Returns the source of the edge. Since the graph is undirected, this is the node with a smaller ID of the edge endpoints.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Returns the destination of the edge. Since the graph is undirected, this is the node with a greater ID of the edge endpoints.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    friend class TUNGraph;
+  };
+private:
+  TCRef CRef;
+  TInt MxNId, NEdges;
+  THash<TInt, TNode> NodeH;
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+public:
+  TUNGraph() : CRef(), MxNId(0), NEdges(0), NodeH() { }
+  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
+  explicit TUNGraph(const int& Nodes, const int& Edges) : MxNId(0), NEdges(0) { Reserve(Nodes, Edges); }
+  TUNGraph(const TUNGraph& Graph) : MxNId(Graph.MxNId), NEdges(Graph.NEdges), NodeH(Graph.NodeH) { }
+  /// Constructor that loads the graph from a (binary) stream SIn.
+  TUNGraph(TSIn& SIn) : MxNId(SIn), NEdges(SIn), NodeH(SIn) { }
+  /// Saves the graph to a (binary) stream SOut.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); NEdges.Save(SOut); NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the graph. Call: PUNGraph Graph = TUNGraph::New().
+  static PUNGraph New() { return new TUNGraph(); }
+  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TUNGraph::New
+  static PUNGraph New(const int& Nodes, const int& Edges) { return new TUNGraph(Nodes, Edges); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
+  static PUNGraph Load(TSIn& SIn) { return PUNGraph(new TUNGraph(SIn)); }
+  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TUNGraph& operator = (const TUNGraph& Graph) {
+    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; } return *this; }
+  
+  /// Returns the number of nodes in the graph.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the graph. ##TUNGraph::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NId to the graph without performing checks.
+  int AddNodeUnchecked(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the graph.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId()); }
+  /// Adds a node of ID NId to the graph and create edges to all nodes in vector NbrNIdV. ##TUNGraph::AddNode-1
+  int AddNode(const int& NId, const TIntV& NbrNIdV);
+  /// Adds a node of ID NId to the graph and create edges to all nodes in vector NIdVId in the vector pool Pool. ##TUNGraph::AddNode-2
+  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NIdVId);
+  /// Deletes node of ID NId from the graph. ##TUNGraph::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the graph.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the graph.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
+  /// Returns an iterator referring to the past-the-end node in the graph.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
+  /// Returns an ID that is larger than any node ID in the graph.
+  int GetMxNId() const { return MxNId; }
+
+  /// Returns the number of edges in the graph.
+  int GetEdges() const;
+  /// Adds an edge between node IDs SrcNId and DstNId to the graph. ##TUNGraph::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from node IDs SrcNId to node DstNId to the graph without performing checks.
+  int AddEdgeUnchecked(const int& SrcNId, const int& DstNId);
+  /// Adds an edge between node IDs SrcNId and DstNId to the graph. If nodes do not exists, create them.
+  int AddEdge2(const int& SrcNId, const int& DstNId);
+  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge between node IDs SrcNId and DstNId from the graph. ##TUNGraph::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId);
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
+  bool IsEdge(const int& SrcNId, const int& DstNId) const;
+  /// Returns an iterator referring to the first edge in the graph.
+  TEdgeI BegEI() const { TNodeI NI = BegNI(); TEdgeI EI(NI, EndNI(), 0); if (GetNodes() != 0 && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { EI++; } return EI; }
+  /// Returns an iterator referring to the past-the-end edge in the graph.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const;
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph. ##TUNGraph::GetEI
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+
+  /// Returns an ID of a random node in the graph.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the graph.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the graph.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the graph is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the graph.
+  void Clr() { MxNId=0; NEdges=0; NodeH.Clr(); }
+  /// Sorts the adjacency lists of each node
+  void SortNodeAdjV() { for (TNodeI NI = BegNI(); NI < EndNI(); NI++) { NI.SortNIdV();} }
+  /// Reserves memory for a graph of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) NodeH.Gen(Nodes/2); }
+  /// Reserves memory for node ID NId having Deg edges.
+  void ReserveNIdDeg(const int& NId, const int& Deg) { GetNode(NId).NIdV.Reserve(Deg); }
+  /// Defragments the graph. ##TUNGraph::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the graph data structure for internal consistency. ##TUNGraph::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the graph in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small graph on 5 nodes and 5 edges. ##TUNGraph::GetSmallGraph
+  static PUNGraph GetSmallGraph();
+
+  friend class TUNGraphMtx;
+  friend class TPt<TUNGraph>;
+};
+
+//#//////////////////////////////////////////////
+/// Directed graph. ##TNGraph::Class
+class TNGraph {
+public:
+  typedef TNGraph TNet;
+  typedef TPt<TNGraph> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV InNIdV, OutNIdV;
+  public:
+    TNode() : Id(-1), InNIdV(), OutNIdV() { }
+    TNode(const int& NId) : Id(NId), InNIdV(), OutNIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), InNIdV(Node.InNIdV), OutNIdV(Node.OutNIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), InNIdV(SIn), OutNIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); InNIdV.Save(SOut); OutNIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InNIdV.Len(); }
+    int GetOutDeg() const { return OutNIdV.Len(); }
+    int GetInNId(const int& NodeN) const { return InNIdV[NodeN]; }
+    int GetOutNId(const int& NodeN) const { return OutNIdV[NodeN]; }
+    int GetNbrNId(const int& NodeN) const { return NodeN<GetOutDeg()?GetOutNId(NodeN):GetInNId(NodeN-GetOutDeg()); }
+    bool IsInNId(const int& NId) const { return InNIdV.SearchBin(NId) != -1; }
+    bool IsOutNId(const int& NId) const { return OutNIdV.SearchBin(NId) != -1; }
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    void PackOutNIdV() { OutNIdV.Pack(); }
+    void PackNIdV() { InNIdV.Pack(); }
+    void SortNIdV() { InNIdV.Sort(); OutNIdV.Sort();}
+    friend class TNGraph;
+    friend class TNGraphMtx;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+  public:
+    TNodeI() : NodeHI() { }
+    TNodeI(const THashIter& NodeHIter) : NodeHI(NodeHIter) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    /// Decrement iterator.
+    TNodeI& operator-- (int) { NodeHI--; return *this; }
+
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node, the sum of in-degree and out-degree.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Sorts the adjacency lists of the current node.
+    void SortNIdV() { NodeHI.GetDat().SortNIdV(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TNGraph::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return NodeHI.GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TNGraph::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return NodeHI.GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TNGraph::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return NodeHI.GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return NodeHI.GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return NodeHI.GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    friend class TNGraph;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode;
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
+      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Returns edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Returns the source node of the edge.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Returns the destination node of the edge.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    friend class TNGraph;
+  };
+private:
+  TCRef CRef;
+  TInt MxNId;
+  THash<TInt, TNode> NodeH;
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+public:
+  TNGraph() : CRef(), MxNId(0), NodeH() { }
+  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
+  explicit TNGraph(const int& Nodes, const int& Edges) : MxNId(0) { Reserve(Nodes, Edges); }
+  TNGraph(const TNGraph& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH) { }
+  /// Constructor that loads the graph from a (binary) stream SIn.
+  TNGraph(TSIn& SIn) : MxNId(SIn), NodeH(SIn) { }
+  /// Saves the graph to a (binary) stream SOut.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); NodeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the graph. Call: PNGraph Graph = TNGraph::New().
+  static PNGraph New() { return new TNGraph(); }
+  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNGraph::New
+  static PNGraph New(const int& Nodes, const int& Edges) { return new TNGraph(Nodes, Edges); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
+  static PNGraph Load(TSIn& SIn) { return PNGraph(new TNGraph(SIn)); }
+  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TNGraph& operator = (const TNGraph& Graph) {
+    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; }  return *this; }
+  
+  /// Returns the number of nodes in the graph.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the graph. ##TNGraph::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NId to the graph without performing checks.
+  int AddNodeUnchecked(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the graph.
+  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
+  /// Adds a node of ID NId to the graph, creates edges to the node from all nodes in vector InNIdV, creates edges from the node to all nodes in vector OutNIdV. ##TNGraph::AddNode-1
+  int AddNode(const int& NId, const TIntV& InNIdV, const TIntV& OutNIdV);
+  /// Adds a node of ID NId to the graph, creates edges to the node from all nodes in vector InNIdV in the vector pool Pool, creates edges from the node to all nodes in vector OutNIdVin the vector pool Pool . ##TNGraph::AddNode-2
+  int AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& SrcVId, const int& DstVId);
+  /// Deletes node of ID NId from the graph. ##TNGraph::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the graph.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the graph.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI()); }
+  /// Returns an iterator referring to the past-the-end node in the graph.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI()); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId)); }
+  // GetNodeC() has been commented out. It was a quick shortcut, do not use.
+  //const TNode& GetNodeC(const int& NId) const { return NodeH.GetDat(NId); }
+  /// Returns an ID that is larger than any node ID in the graph.
+  int GetMxNId() const { return MxNId; }
+
+  /// Returns the number of edges in the graph.
+  int GetEdges() const;
+  /// Adds an edge from node IDs SrcNId to node DstNId to the graph. ##TNGraph::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from node IDs SrcNId to node DstNId to the graph without performing checks.
+  int AddEdgeUnchecked(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from node IDs SrcNId to node DstNId to the graph. If nodes do not exist, create them.
+  int AddEdge2(const int& SrcNId, const int& DstNId);
+  /// Adds an edge from EdgeI.GetSrcNId() to EdgeI.GetDstNId() to the graph.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge from node IDs SrcNId to DstNId from the graph. ##TNGraph::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge from node IDs SrcNId to DstNId exists in the graph.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const;
+  /// Returns an iterator referring to the first edge in the graph.
+  TEdgeI BegEI() const { TNodeI NI=BegNI(); while(NI<EndNI() && NI.GetOutDeg()==0){NI++;} return TEdgeI(NI, EndNI()); }
+  /// Returns an iterator referring to the past-the-end edge in the graph.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const; // not supported
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph.
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const;
+
+  /// Returns an ID of a random node in the graph.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the graph.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the graph.
+  void GetNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the graph is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the graph.
+  void Clr() { MxNId=0; NodeH.Clr(); }
+  /// Reserves memory for a graph of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) { if (Nodes>0) { NodeH.Gen(Nodes/2); } }
+  /// Reserves memory for node ID NId having InDeg in-edges.
+  void ReserveNIdInDeg(const int& NId, const int& InDeg) { GetNode(NId).InNIdV.Reserve(InDeg); }
+  /// Reserves memory for node ID NId having OutDeg out-edges.
+  void ReserveNIdOutDeg(const int& NId, const int& OutDeg) { GetNode(NId).OutNIdV.Reserve(OutDeg); }
+  /// Sorts the adjacency lists of each node
+  void SortNodeAdjV() { for (TNodeI NI = BegNI(); NI < EndNI(); NI++) { NI.SortNIdV();} }
+  /// Defragments the graph. ##TNGraph::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the graph data structure for internal consistency. ##TNGraph::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the graph in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small graph on 5 nodes and 6 edges. ##TNGraph::GetSmallGraph
+  static PNGraph GetSmallGraph();
+  friend class TPt<TNGraph>;
+  friend class TNGraphMtx;
+};
+
+// set flags
+namespace TSnap {
+template <> struct IsDirected<TNGraph> { enum { Val = 1 }; };
+}
+
+//#//////////////////////////////////////////////
+/// Directed multigraph. ##TNEGraph::Class
+class TNEGraph {
+public:
+  typedef TNEGraph TNet;
+  typedef TPt<TNEGraph> PNet;
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV InEIdV, OutEIdV;
+  public:
+    TNode() : Id(-1), InEIdV(), OutEIdV() { }
+    TNode(const int& NId) : Id(NId), InEIdV(), OutEIdV() { }
+    TNode(const TNode& Node) : Id(Node.Id), InEIdV(Node.InEIdV), OutEIdV(Node.OutEIdV) { }
+    TNode(TSIn& SIn) : Id(SIn), InEIdV(SIn), OutEIdV(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); InEIdV.Save(SOut); OutEIdV.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return GetInDeg() + GetOutDeg(); }
+    int GetInDeg() const { return InEIdV.Len(); }
+    int GetOutDeg() const { return OutEIdV.Len(); }
+    int GetInEId(const int& EdgeN) const { return InEIdV[EdgeN]; }
+    int GetOutEId(const int& EdgeN) const { return OutEIdV[EdgeN]; }
+    int GetNbrEId(const int& EdgeN) const { return EdgeN<GetOutDeg()?GetOutEId(EdgeN):GetInEId(EdgeN-GetOutDeg()); }
+    bool IsInEId(const int& EId) const { return InEIdV.SearchBin(EId) != -1; }
+    bool IsOutEId(const int& EId) const { return OutEIdV.SearchBin(EId) != -1; }
+    friend class TNEGraph;
+  };
+  class TEdge {
+  private:
+    TInt Id, SrcNId, DstNId;
+  public:
+    TEdge() : Id(-1), SrcNId(-1), DstNId(-1) { }
+    TEdge(const int& EId, const int& SourceNId, const int& DestNId) : Id(EId), SrcNId(SourceNId), DstNId(DestNId) { }
+    TEdge(const TEdge& Edge) : Id(Edge.Id), SrcNId(Edge.SrcNId), DstNId(Edge.DstNId) { }
+    TEdge(TSIn& SIn) : Id(SIn), SrcNId(SIn), DstNId(SIn) { }
+    void Save(TSOut& SOut) const { Id.Save(SOut); SrcNId.Save(SOut); DstNId.Save(SOut); }
+    int GetId() const { return Id; }
+    int GetSrcNId() const { return SrcNId; }
+    int GetDstNId() const { return DstNId; }
+    friend class TNEGraph;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter NodeHI;
+    const TNEGraph *Graph;
+  public:
+    TNodeI() : NodeHI(), Graph(NULL) { }
+    TNodeI(const THashIter& NodeHIter, const TNEGraph* GraphPt) : NodeHI(NodeHIter), Graph(GraphPt) { }
+    TNodeI(const TNodeI& NodeI) : NodeHI(NodeI.NodeHI), Graph(NodeI.Graph) { }
+    TNodeI& operator = (const TNodeI& NodeI) { NodeHI = NodeI.NodeHI; Graph=NodeI.Graph; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { NodeHI++; return *this; }
+    /// Decrement iterator.
+    TNodeI& operator-- (int) { NodeHI--; return *this; }
+
+    bool operator < (const TNodeI& NodeI) const { return NodeHI < NodeI.NodeHI; }
+    bool operator == (const TNodeI& NodeI) const { return NodeHI == NodeI.NodeHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return NodeHI.GetDat().GetId(); }
+    /// Returns degree of the current node, the sum of in-degree and out-degree.
+    int GetDeg() const { return NodeHI.GetDat().GetDeg(); }
+    /// Returns in-degree of the current node.
+    int GetInDeg() const { return NodeHI.GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node.
+    int GetOutDeg() const { return NodeHI.GetDat().GetOutDeg(); }
+    /// Returns ID of EdgeN-th in-node (the node pointing to the current node). ##TNEGraph::TNodeI::GetInNId
+    int GetInNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetInEId(EdgeN)).GetSrcNId(); }
+    /// Returns ID of EdgeN-th out-node (the node the current node points to). ##TNEGraph::TNodeI::GetOutNId
+    int GetOutNId(const int& EdgeN) const { return Graph->GetEdge(NodeHI.GetDat().GetOutEId(EdgeN)).GetDstNId(); }
+    /// Returns ID of EdgeN-th neighboring node. ##TNEGraph::TNodeI::GetNbrNId
+    int GetNbrNId(const int& EdgeN) const { const TEdge& E = Graph->GetEdge(NodeHI.GetDat().GetNbrEId(EdgeN));
+      return GetId()==E.GetSrcNId() ? E.GetDstNId():E.GetSrcNId(); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const;
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const;
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return IsOutNId(NId) || IsInNId(NId); }
+    // edges
+    /// Returns ID of EdgeN-th in-edge.
+    int GetInEId(const int& EdgeN) const { return NodeHI.GetDat().GetInEId(EdgeN); }
+    /// Returns ID of EdgeN-th out-edge.
+    int GetOutEId(const int& EdgeN) const { return NodeHI.GetDat().GetOutEId(EdgeN); }
+    /// Returns ID of EdgeN-th in or out-edge.
+    int GetNbrEId(const int& EdgeN) const { return NodeHI.GetDat().GetNbrEId(EdgeN); }
+    /// Tests whether the edge with ID EId is an in-edge of current node.
+    bool IsInEId(const int& EId) const { return NodeHI.GetDat().IsInEId(EId); }
+    /// Tests whether the edge with ID EId is an out-edge of current node.
+    bool IsOutEId(const int& EId) const { return NodeHI.GetDat().IsOutEId(EId); }
+    /// Tests whether the edge with ID EId is an in or out-edge of current node.
+    bool IsNbrEId(const int& EId) const { return IsInEId(EId) || IsOutEId(EId); }
+    friend class TNEGraph;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    typedef THash<TInt, TEdge>::TIter THashIter;
+    THashIter EdgeHI;
+    const TNEGraph *Graph;
+  public:
+    TEdgeI() : EdgeHI(), Graph(NULL) { }
+    TEdgeI(const THashIter& EdgeHIter, const TNEGraph *GraphPt) : EdgeHI(EdgeHIter), Graph(GraphPt) { }
+    TEdgeI(const TEdgeI& EdgeI) : EdgeHI(EdgeI.EdgeHI), Graph(EdgeI.Graph) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { EdgeHI=EdgeI.EdgeHI; Graph=EdgeI.Graph; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { EdgeHI++; return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return EdgeHI < EdgeI.EdgeHI; }
+    bool operator == (const TEdgeI& EdgeI) const { return EdgeHI == EdgeI.EdgeHI; }
+    /// Gets edge ID.
+    int GetId() const { return EdgeHI.GetDat().GetId(); }
+    /// Gets the source of an edge.
+    int GetSrcNId() const { return EdgeHI.GetDat().GetSrcNId(); }
+    /// Gets destination of an edge.
+    int GetDstNId() const { return EdgeHI.GetDat().GetDstNId(); }
+    friend class TNEGraph;
+  };
+
+private:
+  TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+  TEdge& GetEdge(const int& EId) { return EdgeH.GetDat(EId); }
+  const TEdge& GetEdge(const int& EId) const { return EdgeH.GetDat(EId); }
+private:
+  TCRef CRef;
+  TInt MxNId, MxEId;
+  THash<TInt, TNode> NodeH;
+  THash<TInt, TEdge> EdgeH;
+public:
+  TNEGraph() : CRef(), MxNId(0), MxEId(0) { }
+  /// Constructor that reserves enough memory for a graph of Nodes nodes and Edges edges.
+  explicit TNEGraph(const int& Nodes, const int& Edges) : CRef(), MxNId(0), MxEId(0) { Reserve(Nodes, Edges); }
+  TNEGraph(const TNEGraph& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId), NodeH(Graph.NodeH), EdgeH(Graph.EdgeH) { }
+  /// Constructor for loading the graph from a (binary) stream SIn.
+  TNEGraph(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn) { }
+  /// Saves the graph to a (binary) stream SOut.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); MxEId.Save(SOut); NodeH.Save(SOut); EdgeH.Save(SOut); }
+  /// Static constructor that returns a pointer to the graph. Call: PNEGraph Graph = TNEGraph::New().
+  static PNEGraph New() { return PNEGraph(new TNEGraph()); }
+  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TNEGraph::New
+  static PNEGraph New(const int& Nodes, const int& Edges) { return PNEGraph(new TNEGraph(Nodes, Edges)); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
+  static PNEGraph Load(TSIn& SIn) { return PNEGraph(new TNEGraph(SIn)); }
+  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TNEGraph& operator = (const TNEGraph& Graph) { if (this!=&Graph) {
+    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH; }  return *this; }
+
+  /// Returns the number of nodes in the graph.
+  int GetNodes() const { return NodeH.Len(); }
+  /// Adds a node of ID NId to the graph. ##TNEGraph::AddNode
+  int AddNode(int NId = -1);
+  /// Adds a node of ID NodeI.GetId() to the graph.
+  int AddNode(const TNodeI& NodeId) { return AddNode(NodeId.GetId()); }
+  /// Deletes node of ID NId from the graph. ##TNEGraph::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the graph.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return NodeH.IsKey(NId); }
+  /// Returns an iterator referring to the first node in the graph.
+  TNodeI BegNI() const { return TNodeI(NodeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end node in the graph.
+  TNodeI EndNI() const { return TNodeI(NodeH.EndI(), this); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TNodeI GetNI(const int& NId) const { return TNodeI(NodeH.GetI(NId), this); }
+  /// Returns an ID that is larger than any node ID in the graph.
+  int GetMxNId() const { return MxNId; }
+
+  /// Returns the number of edges in the graph.
+  int GetEdges() const { return EdgeH.Len(); }
+  /// Adds an edge with ID EId between node IDs SrcNId and DstNId to the graph. ##TNEGraph::AddEdge
+  int AddEdge(const int& SrcNId, const int& DstNId, int EId  = -1);
+  /// Adds an edge between EdgeI.GetSrcNId() and EdgeI.GetDstNId() to the graph.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId(), EdgeI.GetId()); }
+  /// Deletes an edge with edge ID EId from the graph.
+  void DelEdge(const int& EId);
+  /// Deletes all edges between node IDs SrcNId and DstNId from the graph. ##TNEGraph::DelEdge
+  void DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true);
+  /// Tests whether an edge with edge ID EId exists in the graph.
+  bool IsEdge(const int& EId) const { return EdgeH.IsKey(EId); }
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph.
+  bool IsEdge(const int& SrcNId, const int& DstNId, const bool& IsDir = true) const { int EId; return IsEdge(SrcNId, DstNId, EId, IsDir); }
+  /// Tests whether an edge between node IDs SrcNId and DstNId exists in the graph. if an edge exists, return its edge ID in EId
+  bool IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir = true) const;
+  /// Returns an edge ID between node IDs SrcNId and DstNId, if such an edge exists. Otherwise, return -1.
+  int GetEId(const int& SrcNId, const int& DstNId) const { int EId; return IsEdge(SrcNId, DstNId, EId)?EId:-1; }
+  /// Returns an iterator referring to the first edge in the graph.
+  TEdgeI BegEI() const { return TEdgeI(EdgeH.BegI(), this); }
+  /// Returns an iterator referring to the past-the-end edge in the graph.
+  TEdgeI EndEI() const { return TEdgeI(EdgeH.EndI(), this); }
+  /// Returns an iterator referring to edge with edge ID EId. 
+  TEdgeI GetEI(const int& EId) const { return TEdgeI(EdgeH.GetI(EId), this); }
+  /// Returns an iterator referring to edge (SrcNId, DstNId) in the graph. 
+  TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
+
+  /// Returns an ID of a random node in the graph.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random node in the graph.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Returns an ID of a random edge in the graph.
+  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
+  /// Returns an interator referring to a random edge in the graph.
+  TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the graph.
+  void GetNIdV(TIntV& NIdV) const;
+  /// Gets a vector IDs of all edges in the graph.
+  void GetEIdV(TIntV& EIdV) const;
+
+  /// Tests whether the graph is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the graph.
+  void Clr() { MxNId=0; MxEId=0; NodeH.Clr(); EdgeH.Clr(); }
+  /// Reserves memory for a graph of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges) {
+    if (Nodes>0) { NodeH.Gen(Nodes/2); } if (Edges>0) { EdgeH.Gen(Edges/2); } }
+  /// Defragments the graph. ##TNEGraph::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the graph data structure for internal consistency. ##TNEGraph::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the graph in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small multigraph on 5 nodes and 6 edges. ##TNEGraph::GetSmallGraph
+  static PNEGraph GetSmallGraph();
+  friend class TPt<TNEGraph>;
+};
+
+// set flags
+namespace TSnap {
+template <> struct IsMultiGraph<TNEGraph> { enum { Val = 1 }; };
+template <> struct IsDirected<TNEGraph> { enum { Val = 1 }; };
+}
+
+//#//////////////////////////////////////////////
+/// Bipartite graph. ##Bipartite_graph
+class TBPGraph {
+public:
+  typedef TBPGraph TNet;
+  typedef TPt<TBPGraph> PNet;
+  typedef enum { bgsUndef, bgsLeft, bgsRight, bgsBoth } TNodeTy; // left or right hand side node
+public:
+  class TNode {
+  private:
+    TInt Id;
+    TIntV NIdV;
+    TNodeTy NodeTy; // remove
+  public:
+    TNode() : Id(-1), NIdV(), NodeTy(bgsUndef) { }
+    TNode(const int& NId) : Id(NId), NIdV(), NodeTy(true?bgsLeft:bgsRight) { }
+    TNode(const TNode& Node) : Id(Node.Id), NIdV(Node.NIdV), NodeTy(Node.NodeTy) { }
+    TNode(TSIn& SIn) : Id(SIn), NIdV(SIn), NodeTy(bgsUndef) { TInt Ty(SIn); NodeTy=(TNodeTy)Ty.Val; }
+    void Save(TSOut& SOut) const { Id.Save(SOut); NIdV.Save(SOut); TInt(NodeTy).Save(SOut); }
+    int GetId() const { return Id; }
+    int GetDeg() const { return NIdV.Len(); }
+    int GetInDeg() const { return GetDeg(); }
+    int GetOutDeg() const { return GetDeg(); }
+    int GetInNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetOutNId(const int& NodeN) const { return GetNbrNId(NodeN); }
+    int GetNbrNId(const int& NodeN) const { return NIdV[NodeN]; }
+    bool IsNbrNId(const int& NId) const { return NIdV.SearchBin(NId)!=-1; }
+    bool IsInNId(const int& NId) const { return IsNbrNId(NId); }
+    bool IsOutNId(const int& NId) const { return IsNbrNId(NId); }
+    void PackOutNIdV() { NIdV.Pack(); }
+    void PackNIdV() { NIdV.Pack(); }
+    friend class TBPGraph;
+  };
+  /// Node iterator. Only forward iteration (operator++) is supported.
+  class TNodeI {
+  private:
+    typedef THash<TInt, TNode>::TIter THashIter;
+    THashIter LeftHI, RightHI; // iterator over left and right hand-side nodes
+  private:
+    inline THashIter HI() const { return ! LeftHI.IsEnd()?LeftHI:RightHI; }
+  public:
+    TNodeI() : LeftHI(), RightHI() { }
+    TNodeI(const THashIter& LeftHIter, const THashIter& RightHIter) : LeftHI(LeftHIter), RightHI(RightHIter) { }
+    TNodeI(const TNodeI& NodeI) : LeftHI(NodeI.LeftHI), RightHI(NodeI.RightHI) { }
+    TNodeI& operator = (const TNodeI& NodeI) { LeftHI = NodeI.LeftHI; RightHI=NodeI.RightHI; return *this; }
+    /// Increment iterator.
+    TNodeI& operator++ (int) { 
+      if (! LeftHI.IsEnd()) { 
+        LeftHI++; } 
+      else if (! RightHI.IsEnd()) { 
+        RightHI++; } 
+      return *this; }
+    bool operator < (const TNodeI& NodeI) const { return LeftHI < NodeI.LeftHI || (LeftHI==NodeI.LeftHI && RightHI < NodeI.RightHI); }
+    bool operator == (const TNodeI& NodeI) const { return LeftHI==NodeI.LeftHI && RightHI==NodeI.RightHI; }
+    /// Returns ID of the current node.
+    int GetId() const { return HI().GetDat().GetId(); }
+    /// Tests whether the node is left hand side node.
+    bool IsLeft() const { return ! LeftHI.IsEnd(); }
+    /// Tests whether the node is right hand side node.
+    bool IsRight() const { return ! IsLeft(); }
+    /// Returns degree of the current node.
+    int GetDeg() const { return HI().GetDat().GetDeg(); }
+    /// Returns in-degree of the current node (returns same as value GetDeg() since the graph is undirected).
+    int GetInDeg() const { return HI().GetDat().GetInDeg(); }
+    /// Returns out-degree of the current node (returns same as value GetDeg() since the graph is undirected).
+    int GetOutDeg() const { return HI().GetDat().GetOutDeg(); }
+    /// Returns ID of NodeN-th in-node (the node pointing to the current node). ##TBPGraph::TNodeI::GetInNId
+    int GetInNId(const int& NodeN) const { return HI().GetDat().GetInNId(NodeN); }
+    /// Returns ID of NodeN-th out-node (the node the current node points to). ##TBPGraph::TNodeI::GetOutNId
+    int GetOutNId(const int& NodeN) const { return HI().GetDat().GetOutNId(NodeN); }
+    /// Returns ID of NodeN-th neighboring node. ##TBPGraph::TNodeI::GetNbrNId
+    int GetNbrNId(const int& NodeN) const { return HI().GetDat().GetNbrNId(NodeN); }
+    /// Tests whether node with ID NId points to the current node.
+    bool IsInNId(const int& NId) const { return HI().GetDat().IsInNId(NId); }
+    /// Tests whether the current node points to node with ID NId.
+    bool IsOutNId(const int& NId) const { return HI().GetDat().IsOutNId(NId); }
+    /// Tests whether node with ID NId is a neighbor of the current node.
+    bool IsNbrNId(const int& NId) const { return HI().GetDat().IsNbrNId(NId); }
+    friend class TBPGraph;
+  };
+  /// Edge iterator. Only forward iteration (operator++) is supported.
+  class TEdgeI {
+  private:
+    TNodeI CurNode, EndNode; // end node on the 'left'
+    int CurEdge;
+  public:
+    TEdgeI() : CurNode(), EndNode(), CurEdge(0) { }
+    TEdgeI(const TNodeI& NodeI, const TNodeI& EndNodeI, const int& EdgeN=0) : CurNode(NodeI), EndNode(EndNodeI), CurEdge(EdgeN) { }
+    TEdgeI(const TEdgeI& EdgeI) : CurNode(EdgeI.CurNode), EndNode(EdgeI.EndNode), CurEdge(EdgeI.CurEdge) { }
+    TEdgeI& operator = (const TEdgeI& EdgeI) { if (this!=&EdgeI) { CurNode=EdgeI.CurNode; EndNode=EdgeI.EndNode; CurEdge=EdgeI.CurEdge; }  return *this; }
+    /// Increment iterator.
+    TEdgeI& operator++ (int) { CurEdge++; if (CurEdge >= CurNode.GetOutDeg()) { CurEdge=0; CurNode++;
+      while (CurNode < EndNode && CurNode.GetOutDeg()==0) { CurNode++; } }  return *this; }
+    bool operator < (const TEdgeI& EdgeI) const { return CurNode<EdgeI.CurNode || (CurNode==EdgeI.CurNode && CurEdge<EdgeI.CurEdge); }
+    bool operator == (const TEdgeI& EdgeI) const { return CurNode == EdgeI.CurNode && CurEdge == EdgeI.CurEdge; }
+    /// Gets edge ID. Always returns -1 since only edges in multigraphs have explicit IDs.
+    int GetId() const { return -1; }
+    /// Gets the source ('left' side) of an edge. Since the graph is undirected this is the node with smaller ID of the edge endpoints.
+    int GetSrcNId() const { return CurNode.GetId(); }
+    /// Gets destination ('right' side) of an edge. Since the graph is undirected this is the node with greater ID of the edge endpoints.
+    int GetDstNId() const { return CurNode.GetOutNId(CurEdge); }
+    /// Gets the ID of the node on the 'left' side of the edge.
+    int GetLNId() const { return GetSrcNId(); }
+    /// Gets the ID of the node on the 'right' side of the edge.
+    int GetRNId() const { return GetDstNId(); }
+    friend class TBPGraph;
+  };
+private:
+  TCRef CRef;
+  TInt MxNId;                 // maximum node ID in the graph
+  THash<TInt, TNode> LeftH;   // 'left' nodes
+  THash<TInt, TNode> RightH;  // 'right' nodes
+private:
+  //TNode& GetNode(const int& NId) { return NodeH.GetDat(NId); }
+  //const TNode& GetNode(const int& NId) const { return NodeH.GetDat(NId); }
+public:
+  TBPGraph() : CRef(), MxNId(0), LeftH(), RightH() { }
+  /// Constructor that reserves enough memory for a graph of Nodes (LeftNodes+RightNodes) nodes and Edges edges.
+  explicit TBPGraph(const int& Nodes, const int& Edges) : MxNId(0) { } //!!! Reserve(Nodes, Edges); }
+  TBPGraph(const TBPGraph& BPGraph) : MxNId(BPGraph.MxNId), LeftH(BPGraph.LeftH), RightH(BPGraph.RightH) { }
+  /// Constructor for loading the graph from a (binary) stream SIn.
+  TBPGraph(TSIn& SIn) : MxNId(SIn), LeftH(SIn), RightH(SIn) { }
+  /// Saves the graph to a (binary) stream SOut.
+  void Save(TSOut& SOut) const { MxNId.Save(SOut); LeftH.Save(SOut); RightH.Save(SOut); }
+  /// Static constructor that returns a pointer to the graph. Call: PBPGraph BPGraph = TBPGraph::New();
+  static PBPGraph New() { return new TBPGraph(); }
+  /// Static constructor that returns a pointer to the graph and reserves enough memory for Nodes nodes and Edges edges. ##TBPGraph::New
+  static PBPGraph New(const int& Nodes, const int& Edges) { return new TBPGraph(Nodes, Edges); }
+  /// Static constructor that loads the graph from a stream SIn and returns a pointer to it.
+  static PBPGraph Load(TSIn& SIn) { return PBPGraph(new TBPGraph(SIn)); }
+  /// Allows for run-time checking the type of the graph (see the TGraphFlag for flags).
+  bool HasFlag(const TGraphFlag& Flag) const;
+  TBPGraph& operator = (const TBPGraph& BPGraph) {
+    if (this!=&BPGraph) { MxNId=BPGraph.MxNId; LeftH=BPGraph.LeftH; RightH=BPGraph.RightH; }  return *this; }
+  
+  /// Returns the total number of nodes in the graph.
+  int GetNodes() const { return GetLNodes() + GetRNodes(); }
+  /// Returns the number of nodes on the 'left' side of the biparite graph.
+  int GetLNodes() const { return LeftH.Len(); }
+  /// Returns the number of nodes on the 'right' side of the biparite graph.
+  int GetRNodes() const { return RightH.Len(); }
+  /// Adds a node of ID NId to the graph. ##TBPGraph::AddNode
+  int AddNode(int NId = -1, const bool& LeftNode=true);
+  /// Adds a node of ID NodeI.GetId() to the graph.
+  int AddNode(const TNodeI& NodeI) { return AddNode(NodeI.GetId(), NodeI.IsLeft()); }
+  /// Deletes node of ID NId from the graph. ##TBPGraph::DelNode
+  void DelNode(const int& NId);
+  /// Deletes node of ID NodeI.GetId() from the graph.
+  void DelNode(const TNode& NodeI) { DelNode(NodeI.GetId()); }
+  /// Tests whether ID NId is a node.
+  bool IsNode(const int& NId) const { return IsLNode(NId) || IsRNode(NId); }
+  /// Tests whether ID NId is a 'left' side node.
+  bool IsLNode(const int& NId) const { return LeftH.IsKey(NId); }
+  /// Tests whether ID NId is a 'right' side node.
+  bool IsRNode(const int& NId) const { return RightH.IsKey(NId); }
+  /// Returns an ID that is larger than any node ID in the graph.
+  int GetMxNId() const { return MxNId; }
+    
+  /// Returns an iterator referring to the first node in the graph.
+  TNodeI BegNI() const { return TNodeI(LeftH.BegI(), RightH.BegI()); }
+  /// Returns an iterator referring to the past-the-end node in the graph.
+  TNodeI EndNI() const { return TNodeI(LeftH.EndI(), RightH.EndI()); }
+  /// Returns an iterator referring to the node of ID NId in the graph.
+  TNodeI GetNI(const int& NId) const { return IsLNode(NId) ? TNodeI(LeftH.GetI(NId), RightH.EndI()) : TNodeI(LeftH.EndI(), RightH.GetI(NId)); }
+  /// Returns an iterator referring to the first 'left' node in the graph.
+  TNodeI BegLNI() const { return TNodeI(LeftH.BegI(), RightH.EndI()); }
+  /// Returns an iterator referring to the past-the-end 'left' node in the graph.
+  TNodeI EndLNI() const { return EndNI(); }
+  /// Returns an iterator referring to the first 'right' node in the graph.
+  TNodeI BegRNI() const { return TNodeI(LeftH.EndI(), RightH.BegI()); }
+  /// Returns an iterator referring to the past-the-end 'right' node in the graph.
+  TNodeI EndRNI() const { return EndNI(); }
+
+  /// Returns the number of edges in the graph.
+  int GetEdges() const;
+  /// Adds an edge between a node LeftNId on the left and a node RightNId on the right side of the bipartite graph. ##TBPGraph::AddEdge
+  int AddEdge(const int& LeftNId, const int& RightNId);
+  /// Adds an edge between EdgeI.GetLNId() and EdgeI.GetRNId() to the graph.
+  int AddEdge(const TEdgeI& EdgeI) { return AddEdge(EdgeI.GetSrcNId(), EdgeI.GetDstNId()); }
+  /// Deletes an edge between a node LeftNId on the left and a node RightNId on the right side of the bipartite graph. ##TBPGraph::DelEdge
+  void DelEdge(const int& LeftNId, const int& RightNId);
+  /// Tests whether an edge between node IDs LeftNId and RightNId exists in the graph.
+  bool IsEdge(const int& LeftNId, const int& RightNId) const;
+  /// Returns an iterator referring to the first edge in the graph.
+  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && NI.GetOutDeg()==0) { NI++; } return TEdgeI(NI, EndLNI()); }
+  /// Returns an iterator referring to the past-the-end edge in the graph.
+  TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
+  /// Not supported/implemented!
+  TEdgeI GetEI(const int& EId) const;
+  /// Returns an iterator referring to edge (LeftNId, RightNId) in the graph. ##TBPGraph::GetEI
+  TEdgeI GetEI(const int& LeftNId, const int& RightNId) const;
+    
+  /// Returns an ID of a random node in the graph.
+  int GetRndNId(TRnd& Rnd=TInt::Rnd);
+  /// Returns an ID of a random 'left' node in the graph.
+  int GetRndLNId(TRnd& Rnd=TInt::Rnd);
+  /// Returns an ID of a random 'right' node in the graph.
+  int GetRndRNId(TRnd& Rnd=TInt::Rnd);
+  /// Returns an interator referring to a random node in the graph.
+  TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
+  /// Gets a vector IDs of all nodes in the bipartite graph.
+  void GetNIdV(TIntV& NIdV) const;
+  /// Gets a vector IDs of all 'left' nodes in the bipartite graph.
+  void GetLNIdV(TIntV& NIdV) const;
+  /// Gets a vector IDs of all 'right' nodes in the bipartite graph.
+  void GetRNIdV(TIntV& NIdV) const;
+
+  /// Tests whether the bipartite graph is empty (has zero nodes).
+  bool Empty() const { return GetNodes()==0; }
+  /// Deletes all nodes and edges from the bipartite graph.
+  void Clr() { MxNId=0; LeftH.Clr(); RightH.Clr(); }
+  /// Reserves memory for a biparite graph of Nodes nodes and Edges edges.
+  void Reserve(const int& Nodes, const int& Edges);
+  /// Defragments the biparite graph. ##TBPGraph::Defrag
+  void Defrag(const bool& OnlyNodeLinks=false);
+  /// Checks the bipartite graph data structure for internal consistency. ##TBPGraph::IsOk
+  bool IsOk(const bool& ThrowExcept=true) const;
+  /// Print the biparite graph in a human readable form to an output stream OutF.
+  void Dump(FILE *OutF=stdout) const;
+  /// Returns a small graph on 2 'left', 3 'right' nodes and 4 edges. ##TBPGraph::GetSmallGraph
+  static PBPGraph GetSmallGraph();
+
+  friend class TPt<TBPGraph>;
+};
+
+// set flags
+namespace TSnap {
+template <> struct IsBipart<TBPGraph> { enum { Val = 1 }; };
+}
+
-- 
2.43.0


From a35c995659cc02c78ee3d61fc4946d52a0936d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 051/147] fix: ConvertSubGraph renumbers by position instead of
 by node

---
 snap/snap-core/subgraph.h | 752 +++++++++++++++++++-------------------
 1 file changed, 376 insertions(+), 376 deletions(-)

diff --git a/snap/snap-core/subgraph.h b/snap/snap-core/subgraph.h
index eecc035..a08cc18 100644
--- a/snap/snap-core/subgraph.h
+++ b/snap/snap-core/subgraph.h
@@ -1,376 +1,376 @@
-/*! \file subgraph.h
-    \brief Functions and templates to generate subgraphs.
-*/
-
-/// Main namespace for all the Snap global entities.
-namespace TSnap {
-
-/////////////////////////////////////////////////
-// Convert between graph types and get subgraphs
-
-// node subgraphs
-/// Returns an induced subgraph of graph Graph with NIdV nodes. ##TSnap::GetSubGraph
-template<class PGraph> PGraph GetSubGraph(const PGraph& Graph, const TIntV& NIdV);
-/// Returns an induced subgraph of an undirected graph Graph with NIdV nodes with an optional node renumbering. ##TSnap::GetSubGraph-1
-PUNGraph GetSubGraph(const PUNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes=false);
-// Returns an induced subgraph of a directed graph Graph with NIdV nodes with an optional node renumbering. ##TSnap::GetSubGraph-2
-PNGraph GetSubGraph(const PNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes=false);
-// TODO ROK 2012/08/15 PNGraph GetSubGraph is not documented by doxygen.
-//  It is combined with PUNGraph GetSubGraph.
-
-// edge subgraphs
-/// Returns a subgraph of graph Graph with EIdV edges. ##TSnap::GetESubGraph
-template<class PGraph> PGraph GetESubGraph(const PGraph& Graph, const TIntV& EIdV);
-// Returns a subgraph of graph Graph with EdgeV edges. ##TSnap::GetESubGraph-1
-template<class PGraph> PGraph GetESubGraph(const PGraph& Graph, const TIntPrV& EdgeV);
-// TODO ROK 2012/08/15 PGraph GetESubGraph TIntPrV is not documented by doxygen.
-//  It is combined with PGraph GetESubGraph TIntV.
-/// Returns a subgraph of graph Graph with edges where edge data matches the parameters. ##TSnap::GetEDatSubGraph
-template<class PGraph, class TEdgeDat> PGraph GetEDatSubGraph(const PGraph& Graph, const TEdgeDat& EDat, const int& Cmp);
-/// Returns a subgraph of graph Graph with NIdV nodes and edges where edge data matches the parameters. ##TSnap::GetEDatSubGraph-1
-template<class PGraph, class TEdgeDat> PGraph GetEDatSubGraph(const PGraph& Graph, const TIntV& NIdV, const TEdgeDat& EDat, const int& Cmp);
-
-// convert between the graphs. Does NOT copy the data
-/// Performs conversion of graph InGraph with an optional node renumbering. ##TSnap::ConvertGraph
-template<class POutGraph, class PInGraph> POutGraph ConvertGraph(const PInGraph& InGraph, const bool& RenumberNodes=false);
-/// Returns an induced subgraph of graph InGraph with NIdV nodes with an optional node renumbering. ##TSnap::ConvertSubGraph
-template<class POutGraph, class PInGraph> POutGraph ConvertSubGraph(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes=false);
-// TODO RS 2012/08/14 find out why TSnap::ConvertSubGraph<PUNGraph>(NGraph, NIdV, true) aborts
-/// Returns a subgraph of graph InGraph with EIdV edges with an optional node renumbering. ##TSnap::ConvertESubGraph
-template<class POutGraph, class PInGraph> POutGraph ConvertESubGraph(const PInGraph& InGraph, const TIntV& EIdV, const bool& RenumberNodes=false);
-// does not work on multigraphs
-
-// get random (induced) subgraphs 
-/// Returns an induced random subgraph of graph Graph with NNodes nodes. ##TSnap::GetRndSubGraph
-template<class PGraph> PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes);
-/// Returns a random subgraph of graph Graph with NEdges edges. ##TSnap::GetRndESubGraph
-template<class PGraph> PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges);
-
-// get egonet of a center node
-/// Returns the egonet of node CtrNId as center in undirected graph Graph. And returns number of edges around the egonet.
-PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges);
-/// Returns the egonet of node CtrNId as center in directed graph Graph. And returns number of edges go in and out the egonet.
-PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& OutEdges);
-
-/////////////////////////////////////////////////
-// Implementation
-namespace TSnapDetail {
-// Slow for small sub-graphs as it traverses all the edges of Graph
-template <class PGraph, bool IsMultiGraph>
-struct TGetSubGraph {
-  static PGraph Do(const PGraph& Graph, const TIntV& NIdV) {
-    PGraph NewGraphPt = PGraph::TObj::New();
-    typename PGraph::TObj& NewGraph = *NewGraphPt;
-    NewGraph.Reserve(NIdV.Len(), -1);
-    for (int n = 0; n < NIdV.Len(); n++) {
-      if (Graph->IsNode(NIdV[n])) {
-        NewGraph.AddNode(Graph->GetNI(NIdV[n])); }
-    }
-    for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
-      if (NewGraph.IsNode(EI.GetSrcNId()) && NewGraph.IsNode(EI.GetDstNId())) {
-        NewGraph.AddEdge(EI); }
-    }
-    NewGraph.Defrag();
-    return NewGraphPt;
-  }
-};
-
-template <class PGraph> 
-struct TGetSubGraph<PGraph, false> { // not multigraph
-  static PGraph Do(const PGraph& Graph, const TIntV& NIdV) {
-    CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
-    PGraph NewGraphPt = PGraph::TObj::New();
-    typename PGraph::TObj& NewGraph = *NewGraphPt;
-    NewGraph.Reserve(NIdV.Len(), -1);
-    TIntSet NodeSet;
-    for (int n = 0; n < NIdV.Len(); n++) {
-      if (! HasGraphFlag(typename PGraph::TObj, gfNodeDat)) {
-        if (Graph->IsNode(NIdV[n])) { NewGraph.AddNode(NIdV[n]); NodeSet.AddKey(NIdV[n]); } }
-      else {
-        if (Graph->IsNode(NIdV[n])) { NewGraph.AddNode(Graph->GetNI(NIdV[n])); NodeSet.AddKey(NIdV[n]); } }
-    }
-    for (int n = 0; n < NodeSet.Len(); n++) {
-      const int SrcNId = NodeSet[n];
-      const typename PGraph::TObj::TNodeI NI = Graph->GetNI(SrcNId);
-      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
-        const int OutNId = NI.GetOutNId(edge);
-        if (NewGraph.IsNode(OutNId)) {
-          if (! HasGraphFlag(typename PGraph::TObj, gfEdgeDat)) { 
-            NewGraph.AddEdge(SrcNId, OutNId); }
-          else { 
-            NewGraph.AddEdge(Graph->GetEI(SrcNId, OutNId)); } // also copy data
-        }
-      }
-    }
-    NewGraph.Defrag();
-    return NewGraphPt;
-  }
-};
-}; // TSnapDetail
-
-template<class PGraph> 
-PGraph GetSubGraph(const PGraph& Graph, const TIntV& NIdV) {
-  return TSnapDetail::TGetSubGraph<PGraph, HasGraphFlag(typename PGraph::TObj, gfMultiGraph)>
-    ::Do(Graph, NIdV);
-}
-
-template<class PGraph> 
-PGraph GetESubGraph(const PGraph& Graph, const TIntV& EIdV) {
-  CAssert(HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
-  PGraph NewGraphPt = PGraph::TObj::New();
-  typename PGraph::TObj& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(-1, EIdV.Len());
-  for (int edge = 0; edge < EIdV.Len(); edge++) {
-    const int EId = EIdV[edge];
-    IAssert(Graph->IsEdge(EId));
-    const typename PGraph::TObj::TEdgeI EI = Graph->GetEI(EId);
-    if (! NewGraph.IsNode(EI.GetSrcNId())) {
-      NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId())); 
-    }
-    if (! NewGraph.IsNode(EI.GetDstNId())) {
-      NewGraph.AddNode(Graph->GetNI(EI.GetDstNId())); 
-    }
-    NewGraph.AddEdge(EI);
-  }
-  return NewGraphPt;
-}
-
-template<class PGraph> 
-PGraph GetESubGraph(const PGraph& Graph, const TIntPrV& EdgeV) {
-  PGraph NewGraphPt = PGraph::TObj::New();
-  typename PGraph::TObj& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(-1, EdgeV.Len());
-  for (int edge = 0; edge < EdgeV.Len(); edge++) {
-    const int SrcNId = EdgeV[edge].Val1;
-    const int DstNId = EdgeV[edge].Val2;
-    const typename PGraph::TObj::TEdgeI EI = Graph->GetEI(SrcNId, DstNId);
-    if (! NewGraph.IsNode(EI.GetSrcNId())) {
-      NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId())); 
-    }
-    if (! NewGraph.IsNode(EI.GetDstNId())) {
-      NewGraph.AddNode(Graph->GetNI(EI.GetDstNId())); 
-    }
-    NewGraph.AddEdge(EI);
-  }
-  return NewGraphPt;
-}
-
-// Get a subgraph on NIdV nodes, where edge data is Cmp (-1:less, 0:equal, 1:greater) than EDat
-template<class PGraph, class TEdgeDat> 
-PGraph GetEDatSubGraph(const PGraph& Graph, const TEdgeDat& EDat, const int& Cmp) {
-  CAssert(HasGraphFlag(typename PGraph::TObj, gfEdgeDat));
-  PGraph NewGraphPt = PGraph::TObj::New();
-  typename PGraph::TObj& NewGraph = *NewGraphPt;
-  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
-    if ((Cmp==1 && EI()>EDat) || (Cmp==-1 && EI()<EDat) || (Cmp==0 && EI()==EDat)) {
-      if (! NewGraph.IsNode(EI.GetSrcNId())) {
-        NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId()));
-      }
-      if (! NewGraph.IsNode(EI.GetDstNId())) {
-        NewGraph.AddNode(Graph->GetNI(EI.GetDstNId()));
-      }
-      NewGraph.AddEdge(EI); 
-    }
-  }
-  return NewGraphPt;
-}
-
-// Get a subgraph on NIdV nodes, where edge data is Cmp (-1:less, 0:equal, 1:greater) than EDat
-template<class PGraph, class TEdgeDat> 
-PGraph GetEDatSubGraph(const PGraph& Graph, const TIntV& NIdV, const TEdgeDat& EDat, const int& Cmp) {
-  CAssert(HasGraphFlag(typename PGraph::TObj, gfEdgeDat));
-  PGraph NewGraphPt = PGraph::TObj::New();
-  typename PGraph::TObj& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(NIdV.Len(), -1);
-  for (int n = 0; n < NIdV.Len(); n++) {
-    NewGraph.AddNode(Graph->GetNI(NIdV[n])); 
-  }
-  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
-    if (NewGraph.IsNode(EI.GetSrcNId()) && NewGraph.IsNode(EI.GetDstNId()) &&
-     ((Cmp==1 && EI()>EDat)|| (Cmp==-1 && EI()<EDat) || (Cmp==0 && EI()==EDat))) {
-      NewGraph.AddEdge(EI); }
-  }
-  NewGraph.Defrag();
-  return NewGraphPt;
-}
-
-// Converts between different types of graphs/networks
-// Node/edge data is not copied between the graphs.
-template<class POutGraph, class PInGraph> 
-POutGraph ConvertGraph(const PInGraph& InGraph, const bool& RenumberNodes) {
-  POutGraph OutGraphPt = POutGraph::TObj::New();
-  typename POutGraph::TObj& OutGraph = *OutGraphPt;
-  OutGraph.Reserve(InGraph->GetNodes(), InGraph->GetEdges());
-  if (! RenumberNodes) {
-    for (typename PInGraph::TObj::TNodeI NI = InGraph->BegNI(); NI < InGraph->EndNI(); NI++) {
-      OutGraph.AddNode(NI.GetId());
-    }
-    for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
-      OutGraph.AddEdge(EI.GetSrcNId(), EI.GetDstNId());
-      if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) { // add edge in the other direction
-        OutGraph.AddEdge(EI.GetDstNId(), EI.GetSrcNId()); }
-    }
-  } else { // renumber nodes so that node ids are 0...N-1
-    TIntSet NIdSet(InGraph->GetNodes());
-    for (typename PInGraph::TObj::TNodeI NI = InGraph->BegNI(); NI < InGraph->EndNI(); NI++) {
-      const int nid = NIdSet.AddKey(NI.GetId());
-      OutGraph.AddNode(nid);
-    }
-    for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
-      const int SrcNId = NIdSet.GetKeyId(EI.GetSrcNId());
-      const int DstNId = NIdSet.GetKeyId(EI.GetDstNId());
-      OutGraph.AddEdge(SrcNId, DstNId);
-      if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
-        OutGraph.AddEdge(DstNId, SrcNId); }
-    }
-  }
-  //OutGraph.Defrag();
-  return OutGraphPt;
-}
-
-namespace TSnapDetail {
-// Slow for small sub-graphs as it traverses all the edges of Graph
-template <class POutGraph, class PInGraph, bool IsMultiGraph>
-struct TConvertSubGraph {
-  static POutGraph Do(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
-    POutGraph OutGraphPt = POutGraph::TObj::New();
-    typename POutGraph::TObj& OutGraph = *OutGraphPt;
-    if (! RenumberNodes) {
-      for (int n = 0; n < NIdV.Len(); n++) {
-        OutGraph.AddNode(NIdV[n]);
-      }
-      for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
-        if (! OutGraph.IsNode(EI.GetSrcNId()) || ! OutGraph.IsNode(EI.GetDstNId())) { continue; }
-        OutGraph.AddEdge(EI.GetSrcNId(), EI.GetDstNId());
-        if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
-          OutGraph.AddEdge(EI.GetDstNId(), EI.GetSrcNId());
-        }
-      }
-    } else { // renumber nodes so that node ids are 0...N-1
-      TIntSet NIdSet(InGraph->GetNodes());
-      for (int n = 0; n < NIdV.Len(); n++) {
-        const int NId = NIdSet.AddKey(NIdV[n]);
-        OutGraph.AddNode(NId);
-      }
-      for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
-        const int SrcNId = NIdSet.GetKeyId(EI.GetSrcNId());
-        const int DstNId = NIdSet.GetKeyId(EI.GetDstNId());
-        if (! OutGraph.IsNode(SrcNId) || ! OutGraph.IsNode(DstNId)) { continue; }
-        OutGraph.AddEdge(SrcNId, DstNId);
-        if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
-          OutGraph.AddEdge(DstNId, SrcNId);
-        }
-      }
-    }
-    OutGraph.Defrag();
-    return OutGraphPt;
-  }
-};
-
-template <class POutGraph, class PInGraph>
-struct TConvertSubGraph<POutGraph, PInGraph, false> { // InGraph is not multigraph
-  static POutGraph Do(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
-    POutGraph OutGraphPt = POutGraph::TObj::New();
-    typename POutGraph::TObj& OutGraph = *OutGraphPt;
-    if (! RenumberNodes) {
-      for (int n = 0; n < NIdV.Len(); n++) {
-        OutGraph.AddNode(NIdV[n]); }
-      for (int n = 0; n < NIdV.Len(); n++) {
-        typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
-        for (int e = 0; e < NI.GetOutDeg(); e++) {
-          const int dst = NI.GetOutNId(e);
-          if (! OutGraph.IsNode(dst)) { continue; }
-          OutGraph.AddEdge(NIdV[n], dst);
-        }
-      }
-    } else { // renumber nodes so that node ids are 0...N-1
-      TIntSet NIdSet(InGraph->GetNodes());
-      for (int n = 0; n < NIdV.Len(); n++) {
-        const int NId = NIdSet.AddKey(NIdV[n]);
-        OutGraph.AddNode(NId);
-      }
-      for (int n = 0; n < NIdV.Len(); n++) {
-        typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
-        const int src = NIdSet.GetKey(NIdV[n]);
-        for (int e = 0; e < NI.GetOutDeg(); e++) {
-          const int dst = NIdSet.GetKey(NI.GetOutNId(e));
-          if (! OutGraph.IsNode(dst)) { continue; }
-          OutGraph.AddEdge(src, dst);
-        }
-      }
-    }
-    OutGraph.Defrag();
-    return OutGraphPt;
-  }
-};
-} // TSnapDetail
-
-// May be slow as it traverses all the edges of the in-graph to create the sub-graph
-template<class POutGraph, class PInGraph> 
-POutGraph ConvertSubGraph(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
-  return TSnapDetail::TConvertSubGraph<POutGraph, PInGraph, HasGraphFlag(typename PInGraph::TObj, gfMultiGraph)>::Do(InGraph, NIdV, RenumberNodes);
-}
-
-template<class POutGraph, class PInGraph> 
-POutGraph ConvertESubGraph(const PInGraph& InGraph, const TIntV& EIdV, const bool& RenumberNodes) {
-  CAssert(HasGraphFlag(typename PInGraph::TObj, gfMultiGraph)); // needs to have explicit edges
-  POutGraph NewGraphPt = POutGraph::TObj::New();
-  typename POutGraph::TObj& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(-1, EIdV.Len());
-  if (! RenumberNodes) {
-    for (int edge = 0; edge < EIdV.Len(); edge++) {
-      const int EId = EIdV[edge];
-      IAssert(InGraph->IsEdge(EId));
-      const typename PInGraph::TObj::TEdgeI EI = InGraph->GetEI(EId);
-      const int SrcNId = EI.GetSrcNId();
-      const int DstNId = EI.GetDstNId();
-      if (! NewGraph.IsNode(SrcNId)) {
-        NewGraph.AddNode(SrcNId); }
-      if (! NewGraph.IsNode(DstNId)) {
-        NewGraph.AddNode(DstNId); }
-      NewGraph.AddEdge(SrcNId, DstNId);
-    }
-  } else {
-    // renumber nodes so that node ids are 0...N-1
-    TIntSet NIdSet(InGraph->GetNodes());
-    for (int edge = 0; edge < EIdV.Len(); edge++) {
-      const int EId = EIdV[edge];
-      IAssert(InGraph->IsEdge(EId));
-      const typename PInGraph::TObj::TEdgeI EI = InGraph->GetEI(EId);
-      const int SrcNId = NIdSet.AddKey(EI.GetSrcNId()); // map node ids
-      const int DstNId = NIdSet.AddKey(EI.GetDstNId());
-      if (! NewGraph.IsNode(SrcNId)) {
-        NewGraph.AddNode(SrcNId); }
-      if (! NewGraph.IsNode(DstNId)) {
-        NewGraph.AddNode(DstNId); }
-      NewGraph.AddEdge(SrcNId, DstNId);
-    }
-  }
-  return NewGraphPt;
-}
-
-template<class PGraph> 
-PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes) {
-  IAssert(NNodes <= Graph->GetNodes());
-  TIntV NIdV;
-  Graph->GetNIdV(NIdV);
-  NIdV.Shuffle(TInt::Rnd);
-  NIdV.Del(NNodes, NIdV.Len()-1);
-  IAssert(NIdV.Len() == NNodes);
-  return GetSubGraph(Graph, NIdV);
-}
-
-template<class PGraph> 
-PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges) {
-  CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
-  TIntPrV EdgeV(Graph->GetEdges(), 0);
-  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
-    EdgeV.Add(TIntPr(EI.GetSrcNId(), EI.GetDstNId()));
-  }
-  EdgeV.Shuffle(TInt::Rnd);
-  EdgeV.Del(NEdges, EdgeV.Len()-1);
-  IAssert(EdgeV.Len() == NEdges);
-  return GetESubGraph(Graph, EdgeV);
-}
-
-} // namespace TSnap
+/*! \file subgraph.h
+    \brief Functions and templates to generate subgraphs.
+*/
+
+/// Main namespace for all the Snap global entities.
+namespace TSnap {
+
+/////////////////////////////////////////////////
+// Convert between graph types and get subgraphs
+
+// node subgraphs
+/// Returns an induced subgraph of graph Graph with NIdV nodes. ##TSnap::GetSubGraph
+template<class PGraph> PGraph GetSubGraph(const PGraph& Graph, const TIntV& NIdV);
+/// Returns an induced subgraph of an undirected graph Graph with NIdV nodes with an optional node renumbering. ##TSnap::GetSubGraph-1
+PUNGraph GetSubGraph(const PUNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes=false);
+// Returns an induced subgraph of a directed graph Graph with NIdV nodes with an optional node renumbering. ##TSnap::GetSubGraph-2
+PNGraph GetSubGraph(const PNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes=false);
+// TODO ROK 2012/08/15 PNGraph GetSubGraph is not documented by doxygen.
+//  It is combined with PUNGraph GetSubGraph.
+
+// edge subgraphs
+/// Returns a subgraph of graph Graph with EIdV edges. ##TSnap::GetESubGraph
+template<class PGraph> PGraph GetESubGraph(const PGraph& Graph, const TIntV& EIdV);
+// Returns a subgraph of graph Graph with EdgeV edges. ##TSnap::GetESubGraph-1
+template<class PGraph> PGraph GetESubGraph(const PGraph& Graph, const TIntPrV& EdgeV);
+// TODO ROK 2012/08/15 PGraph GetESubGraph TIntPrV is not documented by doxygen.
+//  It is combined with PGraph GetESubGraph TIntV.
+/// Returns a subgraph of graph Graph with edges where edge data matches the parameters. ##TSnap::GetEDatSubGraph
+template<class PGraph, class TEdgeDat> PGraph GetEDatSubGraph(const PGraph& Graph, const TEdgeDat& EDat, const int& Cmp);
+/// Returns a subgraph of graph Graph with NIdV nodes and edges where edge data matches the parameters. ##TSnap::GetEDatSubGraph-1
+template<class PGraph, class TEdgeDat> PGraph GetEDatSubGraph(const PGraph& Graph, const TIntV& NIdV, const TEdgeDat& EDat, const int& Cmp);
+
+// convert between the graphs. Does NOT copy the data
+/// Performs conversion of graph InGraph with an optional node renumbering. ##TSnap::ConvertGraph
+template<class POutGraph, class PInGraph> POutGraph ConvertGraph(const PInGraph& InGraph, const bool& RenumberNodes=false);
+/// Returns an induced subgraph of graph InGraph with NIdV nodes with an optional node renumbering. ##TSnap::ConvertSubGraph
+template<class POutGraph, class PInGraph> POutGraph ConvertSubGraph(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes=false);
+// TODO RS 2012/08/14 find out why TSnap::ConvertSubGraph<PUNGraph>(NGraph, NIdV, true) aborts
+/// Returns a subgraph of graph InGraph with EIdV edges with an optional node renumbering. ##TSnap::ConvertESubGraph
+template<class POutGraph, class PInGraph> POutGraph ConvertESubGraph(const PInGraph& InGraph, const TIntV& EIdV, const bool& RenumberNodes=false);
+// does not work on multigraphs
+
+// get random (induced) subgraphs 
+/// Returns an induced random subgraph of graph Graph with NNodes nodes. ##TSnap::GetRndSubGraph
+template<class PGraph> PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes);
+/// Returns a random subgraph of graph Graph with NEdges edges. ##TSnap::GetRndESubGraph
+template<class PGraph> PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges);
+
+// get egonet of a center node
+/// Returns the egonet of node CtrNId as center in undirected graph Graph. And returns number of edges around the egonet.
+PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges);
+/// Returns the egonet of node CtrNId as center in directed graph Graph. And returns number of edges go in and out the egonet.
+PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& OutEdges);
+
+/////////////////////////////////////////////////
+// Implementation
+namespace TSnapDetail {
+// Slow for small sub-graphs as it traverses all the edges of Graph
+template <class PGraph, bool IsMultiGraph>
+struct TGetSubGraph {
+  static PGraph Do(const PGraph& Graph, const TIntV& NIdV) {
+    PGraph NewGraphPt = PGraph::TObj::New();
+    typename PGraph::TObj& NewGraph = *NewGraphPt;
+    NewGraph.Reserve(NIdV.Len(), -1);
+    for (int n = 0; n < NIdV.Len(); n++) {
+      if (Graph->IsNode(NIdV[n])) {
+        NewGraph.AddNode(Graph->GetNI(NIdV[n])); }
+    }
+    for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
+      if (NewGraph.IsNode(EI.GetSrcNId()) && NewGraph.IsNode(EI.GetDstNId())) {
+        NewGraph.AddEdge(EI); }
+    }
+    NewGraph.Defrag();
+    return NewGraphPt;
+  }
+};
+
+template <class PGraph> 
+struct TGetSubGraph<PGraph, false> { // not multigraph
+  static PGraph Do(const PGraph& Graph, const TIntV& NIdV) {
+    CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
+    PGraph NewGraphPt = PGraph::TObj::New();
+    typename PGraph::TObj& NewGraph = *NewGraphPt;
+    NewGraph.Reserve(NIdV.Len(), -1);
+    TIntSet NodeSet;
+    for (int n = 0; n < NIdV.Len(); n++) {
+      if (! HasGraphFlag(typename PGraph::TObj, gfNodeDat)) {
+        if (Graph->IsNode(NIdV[n])) { NewGraph.AddNode(NIdV[n]); NodeSet.AddKey(NIdV[n]); } }
+      else {
+        if (Graph->IsNode(NIdV[n])) { NewGraph.AddNode(Graph->GetNI(NIdV[n])); NodeSet.AddKey(NIdV[n]); } }
+    }
+    for (int n = 0; n < NodeSet.Len(); n++) {
+      const int SrcNId = NodeSet[n];
+      const typename PGraph::TObj::TNodeI NI = Graph->GetNI(SrcNId);
+      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
+        const int OutNId = NI.GetOutNId(edge);
+        if (NewGraph.IsNode(OutNId)) {
+          if (! HasGraphFlag(typename PGraph::TObj, gfEdgeDat)) { 
+            NewGraph.AddEdge(SrcNId, OutNId); }
+          else { 
+            NewGraph.AddEdge(Graph->GetEI(SrcNId, OutNId)); } // also copy data
+        }
+      }
+    }
+    NewGraph.Defrag();
+    return NewGraphPt;
+  }
+};
+}; // TSnapDetail
+
+template<class PGraph> 
+PGraph GetSubGraph(const PGraph& Graph, const TIntV& NIdV) {
+  return TSnapDetail::TGetSubGraph<PGraph, HasGraphFlag(typename PGraph::TObj, gfMultiGraph)>
+    ::Do(Graph, NIdV);
+}
+
+template<class PGraph> 
+PGraph GetESubGraph(const PGraph& Graph, const TIntV& EIdV) {
+  CAssert(HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
+  PGraph NewGraphPt = PGraph::TObj::New();
+  typename PGraph::TObj& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(-1, EIdV.Len());
+  for (int edge = 0; edge < EIdV.Len(); edge++) {
+    const int EId = EIdV[edge];
+    IAssert(Graph->IsEdge(EId));
+    const typename PGraph::TObj::TEdgeI EI = Graph->GetEI(EId);
+    if (! NewGraph.IsNode(EI.GetSrcNId())) {
+      NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId())); 
+    }
+    if (! NewGraph.IsNode(EI.GetDstNId())) {
+      NewGraph.AddNode(Graph->GetNI(EI.GetDstNId())); 
+    }
+    NewGraph.AddEdge(EI);
+  }
+  return NewGraphPt;
+}
+
+template<class PGraph> 
+PGraph GetESubGraph(const PGraph& Graph, const TIntPrV& EdgeV) {
+  PGraph NewGraphPt = PGraph::TObj::New();
+  typename PGraph::TObj& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(-1, EdgeV.Len());
+  for (int edge = 0; edge < EdgeV.Len(); edge++) {
+    const int SrcNId = EdgeV[edge].Val1;
+    const int DstNId = EdgeV[edge].Val2;
+    const typename PGraph::TObj::TEdgeI EI = Graph->GetEI(SrcNId, DstNId);
+    if (! NewGraph.IsNode(EI.GetSrcNId())) {
+      NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId())); 
+    }
+    if (! NewGraph.IsNode(EI.GetDstNId())) {
+      NewGraph.AddNode(Graph->GetNI(EI.GetDstNId())); 
+    }
+    NewGraph.AddEdge(EI);
+  }
+  return NewGraphPt;
+}
+
+// Get a subgraph on NIdV nodes, where edge data is Cmp (-1:less, 0:equal, 1:greater) than EDat
+template<class PGraph, class TEdgeDat> 
+PGraph GetEDatSubGraph(const PGraph& Graph, const TEdgeDat& EDat, const int& Cmp) {
+  CAssert(HasGraphFlag(typename PGraph::TObj, gfEdgeDat));
+  PGraph NewGraphPt = PGraph::TObj::New();
+  typename PGraph::TObj& NewGraph = *NewGraphPt;
+  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
+    if ((Cmp==1 && EI()>EDat) || (Cmp==-1 && EI()<EDat) || (Cmp==0 && EI()==EDat)) {
+      if (! NewGraph.IsNode(EI.GetSrcNId())) {
+        NewGraph.AddNode(Graph->GetNI(EI.GetSrcNId()));
+      }
+      if (! NewGraph.IsNode(EI.GetDstNId())) {
+        NewGraph.AddNode(Graph->GetNI(EI.GetDstNId()));
+      }
+      NewGraph.AddEdge(EI); 
+    }
+  }
+  return NewGraphPt;
+}
+
+// Get a subgraph on NIdV nodes, where edge data is Cmp (-1:less, 0:equal, 1:greater) than EDat
+template<class PGraph, class TEdgeDat> 
+PGraph GetEDatSubGraph(const PGraph& Graph, const TIntV& NIdV, const TEdgeDat& EDat, const int& Cmp) {
+  CAssert(HasGraphFlag(typename PGraph::TObj, gfEdgeDat));
+  PGraph NewGraphPt = PGraph::TObj::New();
+  typename PGraph::TObj& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(NIdV.Len(), -1);
+  for (int n = 0; n < NIdV.Len(); n++) {
+    NewGraph.AddNode(Graph->GetNI(NIdV[n])); 
+  }
+  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
+    if (NewGraph.IsNode(EI.GetSrcNId()) && NewGraph.IsNode(EI.GetDstNId()) &&
+     ((Cmp==1 && EI()>EDat)|| (Cmp==-1 && EI()<EDat) || (Cmp==0 && EI()==EDat))) {
+      NewGraph.AddEdge(EI); }
+  }
+  NewGraph.Defrag();
+  return NewGraphPt;
+}
+
+// Converts between different types of graphs/networks
+// Node/edge data is not copied between the graphs.
+template<class POutGraph, class PInGraph> 
+POutGraph ConvertGraph(const PInGraph& InGraph, const bool& RenumberNodes) {
+  POutGraph OutGraphPt = POutGraph::TObj::New();
+  typename POutGraph::TObj& OutGraph = *OutGraphPt;
+  OutGraph.Reserve(InGraph->GetNodes(), InGraph->GetEdges());
+  if (! RenumberNodes) {
+    for (typename PInGraph::TObj::TNodeI NI = InGraph->BegNI(); NI < InGraph->EndNI(); NI++) {
+      OutGraph.AddNode(NI.GetId());
+    }
+    for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
+      OutGraph.AddEdge(EI.GetSrcNId(), EI.GetDstNId());
+      if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) { // add edge in the other direction
+        OutGraph.AddEdge(EI.GetDstNId(), EI.GetSrcNId()); }
+    }
+  } else { // renumber nodes so that node ids are 0...N-1
+    TIntSet NIdSet(InGraph->GetNodes());
+    for (typename PInGraph::TObj::TNodeI NI = InGraph->BegNI(); NI < InGraph->EndNI(); NI++) {
+      const int nid = NIdSet.AddKey(NI.GetId());
+      OutGraph.AddNode(nid);
+    }
+    for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
+      const int SrcNId = NIdSet.GetKeyId(EI.GetSrcNId());
+      const int DstNId = NIdSet.GetKeyId(EI.GetDstNId());
+      OutGraph.AddEdge(SrcNId, DstNId);
+      if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
+        OutGraph.AddEdge(DstNId, SrcNId); }
+    }
+  }
+  //OutGraph.Defrag();
+  return OutGraphPt;
+}
+
+namespace TSnapDetail {
+// Slow for small sub-graphs as it traverses all the edges of Graph
+template <class POutGraph, class PInGraph, bool IsMultiGraph>
+struct TConvertSubGraph {
+  static POutGraph Do(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
+    POutGraph OutGraphPt = POutGraph::TObj::New();
+    typename POutGraph::TObj& OutGraph = *OutGraphPt;
+    if (! RenumberNodes) {
+      for (int n = 0; n < NIdV.Len(); n++) {
+        OutGraph.AddNode(NIdV[n]);
+      }
+      for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
+        if (! OutGraph.IsNode(EI.GetSrcNId()) || ! OutGraph.IsNode(EI.GetDstNId())) { continue; }
+        OutGraph.AddEdge(EI.GetSrcNId(), EI.GetDstNId());
+        if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
+          OutGraph.AddEdge(EI.GetDstNId(), EI.GetSrcNId());
+        }
+      }
+    } else { // renumber nodes so that node ids are 0...N-1
+      TIntSet NIdSet(InGraph->GetNodes());
+      for (int n = 0; n < NIdV.Len(); n++) {
+        const int NId = NIdSet.AddKey(NIdV[n]);
+        OutGraph.AddNode(NId);
+      }
+      for (typename PInGraph::TObj::TEdgeI EI = InGraph->BegEI(); EI < InGraph->EndEI(); EI++) {
+        const int SrcNId = NIdSet.GetKeyId(EI.GetSrcNId());
+        const int DstNId = NIdSet.GetKeyId(EI.GetDstNId());
+        if (! OutGraph.IsNode(SrcNId) || ! OutGraph.IsNode(DstNId)) { continue; }
+        OutGraph.AddEdge(SrcNId, DstNId);
+        if (! HasGraphFlag(typename PInGraph::TObj, gfDirected) && HasGraphFlag(typename POutGraph::TObj, gfDirected)) {
+          OutGraph.AddEdge(DstNId, SrcNId);
+        }
+      }
+    }
+    OutGraph.Defrag();
+    return OutGraphPt;
+  }
+};
+
+template <class POutGraph, class PInGraph>
+struct TConvertSubGraph<POutGraph, PInGraph, false> { // InGraph is not multigraph
+  static POutGraph Do(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
+    POutGraph OutGraphPt = POutGraph::TObj::New();
+    typename POutGraph::TObj& OutGraph = *OutGraphPt;
+    if (! RenumberNodes) {
+      for (int n = 0; n < NIdV.Len(); n++) {
+        OutGraph.AddNode(NIdV[n]); }
+      for (int n = 0; n < NIdV.Len(); n++) {
+        typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
+        for (int e = 0; e < NI.GetOutDeg(); e++) {
+          const int dst = NI.GetOutNId(e);
+          if (! OutGraph.IsNode(dst)) { continue; }
+          OutGraph.AddEdge(NIdV[n], dst);
+        }
+      }
+    } else { // renumber nodes so that node ids are 0...N-1
+      TIntSet NIdSet(InGraph->GetNodes());
+      for (int n = 0; n < NIdV.Len(); n++) {
+        const int NId = NIdSet.AddKey(NIdV[n]);
+        OutGraph.AddNode(NId);
+      }
+      for (int n = 0; n < NIdV.Len(); n++) {
+        typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
+        const int src = NIdSet.GetKeyId(NIdV[n]);
+        for (int e = 0; e < NI.GetOutDeg(); e++) {
+          const int dst = NIdSet.GetKeyId(NI.GetOutNId(e));
+          if (! OutGraph.IsNode(dst)) { continue; }
+          OutGraph.AddEdge(src, dst);
+        }
+      }
+    }
+    OutGraph.Defrag();
+    return OutGraphPt;
+  }
+};
+} // TSnapDetail
+
+// May be slow as it traverses all the edges of the in-graph to create the sub-graph
+template<class POutGraph, class PInGraph> 
+POutGraph ConvertSubGraph(const PInGraph& InGraph, const TIntV& NIdV, const bool& RenumberNodes) {
+  return TSnapDetail::TConvertSubGraph<POutGraph, PInGraph, HasGraphFlag(typename PInGraph::TObj, gfMultiGraph)>::Do(InGraph, NIdV, RenumberNodes);
+}
+
+template<class POutGraph, class PInGraph> 
+POutGraph ConvertESubGraph(const PInGraph& InGraph, const TIntV& EIdV, const bool& RenumberNodes) {
+  CAssert(HasGraphFlag(typename PInGraph::TObj, gfMultiGraph)); // needs to have explicit edges
+  POutGraph NewGraphPt = POutGraph::TObj::New();
+  typename POutGraph::TObj& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(-1, EIdV.Len());
+  if (! RenumberNodes) {
+    for (int edge = 0; edge < EIdV.Len(); edge++) {
+      const int EId = EIdV[edge];
+      IAssert(InGraph->IsEdge(EId));
+      const typename PInGraph::TObj::TEdgeI EI = InGraph->GetEI(EId);
+      const int SrcNId = EI.GetSrcNId();
+      const int DstNId = EI.GetDstNId();
+      if (! NewGraph.IsNode(SrcNId)) {
+        NewGraph.AddNode(SrcNId); }
+      if (! NewGraph.IsNode(DstNId)) {
+        NewGraph.AddNode(DstNId); }
+      NewGraph.AddEdge(SrcNId, DstNId);
+    }
+  } else {
+    // renumber nodes so that node ids are 0...N-1
+    TIntSet NIdSet(InGraph->GetNodes());
+    for (int edge = 0; edge < EIdV.Len(); edge++) {
+      const int EId = EIdV[edge];
+      IAssert(InGraph->IsEdge(EId));
+      const typename PInGraph::TObj::TEdgeI EI = InGraph->GetEI(EId);
+      const int SrcNId = NIdSet.AddKey(EI.GetSrcNId()); // map node ids
+      const int DstNId = NIdSet.AddKey(EI.GetDstNId());
+      if (! NewGraph.IsNode(SrcNId)) {
+        NewGraph.AddNode(SrcNId); }
+      if (! NewGraph.IsNode(DstNId)) {
+        NewGraph.AddNode(DstNId); }
+      NewGraph.AddEdge(SrcNId, DstNId);
+    }
+  }
+  return NewGraphPt;
+}
+
+template<class PGraph> 
+PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes) {
+  IAssert(NNodes <= Graph->GetNodes());
+  TIntV NIdV;
+  Graph->GetNIdV(NIdV);
+  NIdV.Shuffle(TInt::Rnd);
+  NIdV.Del(NNodes, NIdV.Len()-1);
+  IAssert(NIdV.Len() == NNodes);
+  return GetSubGraph(Graph, NIdV);
+}
+
+template<class PGraph> 
+PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges) {
+  CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph));
+  TIntPrV EdgeV(Graph->GetEdges(), 0);
+  for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
+    EdgeV.Add(TIntPr(EI.GetSrcNId(), EI.GetDstNId()));
+  }
+  EdgeV.Shuffle(TInt::Rnd);
+  EdgeV.Del(NEdges, EdgeV.Len()-1);
+  IAssert(EdgeV.Len() == NEdges);
+  return GetESubGraph(Graph, EdgeV);
+}
+
+} // namespace TSnap
-- 
2.43.0


From c66c85736b793ca609a25c05da5f2cc827a906e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 052/147] fix: GetEgonet of an undirected graph fails on a
 centre with a self-edge

---
 snap/snap-core/subgraph.cpp | 288 ++++++++++++++++++------------------
 1 file changed, 145 insertions(+), 143 deletions(-)

diff --git a/snap/snap-core/subgraph.cpp b/snap/snap-core/subgraph.cpp
index 7b2b2fa..5a16340 100644
--- a/snap/snap-core/subgraph.cpp
+++ b/snap/snap-core/subgraph.cpp
@@ -1,143 +1,145 @@
-namespace TSnap {
-
-/////////////////////////////////////////////////
-// Graph Algorithms
-
-// RenumberNodes ... Renumber node ids in the subgraph to 0...N-1
-PUNGraph GetSubGraph(const PUNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes) {
-  //if (! RenumberNodes) { return TSnap::GetSubGraph(Graph, NIdV); }
-  PUNGraph NewGraphPt = TUNGraph::New();
-  TUNGraph& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(NIdV.Len(), -1);
-  TIntSet NIdSet(NIdV.Len());
-  for (int n = 0; n < NIdV.Len(); n++) {
-    if (Graph->IsNode(NIdV[n])) {
-      NIdSet.AddKey(NIdV[n]);
-      if (! RenumberNodes) { NewGraph.AddNode(NIdV[n]); }
-      else { NewGraph.AddNode(NIdSet.GetKeyId(NIdV[n])); }
-    }
-  }
-  if (! RenumberNodes) {
-    for (int n = 0; n < NIdSet.Len(); n++) {
-      const int SrcNId = NIdSet[n];
-      const TUNGraph::TNodeI NI = Graph->GetNI(SrcNId);
-      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
-        const int OutNId = NI.GetOutNId(edge);
-        if (NIdSet.IsKey(OutNId)) {
-          NewGraph.AddEdge(SrcNId, OutNId); }
-      }
-    }
-  } else {
-    for (int n = 0; n < NIdSet.Len(); n++) {
-      const int SrcNId = NIdSet[n];
-      const TUNGraph::TNodeI NI = Graph->GetNI(SrcNId);
-      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
-        const int OutNId = NI.GetOutNId(edge);
-        if (NIdSet.IsKey(OutNId)) {
-          NewGraph.AddEdge(NIdSet.GetKeyId(SrcNId), NIdSet.GetKeyId(OutNId)); }
-      }
-    }
-  }
-  return NewGraphPt;
-}
-
-// RenumberNodes ... Renumber node ids in the subgraph to 0...N-1
-PNGraph GetSubGraph(const PNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes) {
-  //if (! RenumberNodes) { return TSnap::GetSubGraph(Graph, NIdV); }
-  PNGraph NewGraphPt = TNGraph::New();
-  TNGraph& NewGraph = *NewGraphPt;
-  NewGraph.Reserve(NIdV.Len(), -1);
-  TIntSet NIdSet(NIdV.Len());
-  for (int n = 0; n < NIdV.Len(); n++) {
-    if (Graph->IsNode(NIdV[n])) {
-      NIdSet.AddKey(NIdV[n]);
-      if (! RenumberNodes) { NewGraph.AddNode(NIdV[n]); }
-      else { NewGraph.AddNode(NIdSet.GetKeyId(NIdV[n])); }
-    }
-  }
-  if (! RenumberNodes) {
-    for (int n = 0; n < NIdSet.Len(); n++) {
-      const int SrcNId = NIdSet[n];
-      const TNGraph::TNodeI NI = Graph->GetNI(SrcNId);
-      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
-        const int OutNId = NI.GetOutNId(edge);
-        if (NIdSet.IsKey(OutNId)) {
-          NewGraph.AddEdge(SrcNId, OutNId); }
-      }
-    }
-  } else {
-    for (int n = 0; n < NIdSet.Len(); n++) {
-      const int SrcNId = NIdSet[n];
-      const TNGraph::TNodeI NI = Graph->GetNI(SrcNId);
-      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
-        const int OutNId = NI.GetOutNId(edge);
-        if (NIdSet.IsKey(OutNId)) {
-          NewGraph.AddEdge(NIdSet.GetKeyId(SrcNId), NIdSet.GetKeyId(OutNId)); }
-      }
-    }
-  }
-  return NewGraphPt;
-}
-
-PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges) {
-  PUNGraph NewGraphPt = TUNGraph::New();
-  TUNGraph& NewGraph = *NewGraphPt;
-  NewGraph.AddNode(CtrNId);
-  const TUNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
-  for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
-    NewGraph.AddNode(CtrNode.GetInNId(i));
-  }
-  ArndEdges = 0;
-  for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
-    int NbrNId = CtrNode.GetInNId(i);
-    const TUNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
-    for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
-      int NbrNbrNId = NbrNode.GetInNId(j);
-      if (NewGraph.IsNode(NbrNbrNId)) {
-        if (!NewGraph.IsEdge(NbrNId, NbrNbrNId)) {
-          NewGraph.AddEdge(NbrNId, NbrNbrNId);
-        }
-      } else {
-        ArndEdges++;
-      }
-    }
-  }
-  return NewGraphPt;
-}
-
-PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& OutEdges) {
-  PNGraph NewGraphPt = TNGraph::New();
-  TNGraph& NewGraph = *NewGraphPt;
-  NewGraph.AddNode(CtrNId);
-  const TNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
-  for (int i = 0; i < CtrNode.GetDeg(); ++i) {
-    if (!NewGraph.IsNode(CtrNode.GetNbrNId(i))) {
-      NewGraph.AddNode(CtrNode.GetNbrNId(i));
-    }
-  }
-  InEdges = 0;
-  OutEdges = 0;
-  for (int i = 0; i < CtrNode.GetDeg(); ++i) {
-    int NbrNId = CtrNode.GetNbrNId(i);
-    const TNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
-    for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
-      int NbrNbrNId = NbrNode.GetInNId(j);
-      if (NewGraph.IsNode(NbrNbrNId)) {
-        NewGraph.AddEdge(NbrNbrNId, NbrNId);
-      } else {
-        InEdges++;
-      }
-    }
-    for (int j = 0; j < NbrNode.GetOutDeg(); ++j) {
-      int NbrNbrNId = NbrNode.GetOutNId(j);
-      if (NewGraph.IsNode(NbrNbrNId)) {
-        NewGraph.AddEdge(NbrNId, NbrNbrNId);
-      } else {
-        OutEdges++;
-      }
-    }
-  }
-  return NewGraphPt;
-}
-
-} // namespace TSnap
+namespace TSnap {
+
+/////////////////////////////////////////////////
+// Graph Algorithms
+
+// RenumberNodes ... Renumber node ids in the subgraph to 0...N-1
+PUNGraph GetSubGraph(const PUNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes) {
+  //if (! RenumberNodes) { return TSnap::GetSubGraph(Graph, NIdV); }
+  PUNGraph NewGraphPt = TUNGraph::New();
+  TUNGraph& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(NIdV.Len(), -1);
+  TIntSet NIdSet(NIdV.Len());
+  for (int n = 0; n < NIdV.Len(); n++) {
+    if (Graph->IsNode(NIdV[n])) {
+      NIdSet.AddKey(NIdV[n]);
+      if (! RenumberNodes) { NewGraph.AddNode(NIdV[n]); }
+      else { NewGraph.AddNode(NIdSet.GetKeyId(NIdV[n])); }
+    }
+  }
+  if (! RenumberNodes) {
+    for (int n = 0; n < NIdSet.Len(); n++) {
+      const int SrcNId = NIdSet[n];
+      const TUNGraph::TNodeI NI = Graph->GetNI(SrcNId);
+      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
+        const int OutNId = NI.GetOutNId(edge);
+        if (NIdSet.IsKey(OutNId)) {
+          NewGraph.AddEdge(SrcNId, OutNId); }
+      }
+    }
+  } else {
+    for (int n = 0; n < NIdSet.Len(); n++) {
+      const int SrcNId = NIdSet[n];
+      const TUNGraph::TNodeI NI = Graph->GetNI(SrcNId);
+      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
+        const int OutNId = NI.GetOutNId(edge);
+        if (NIdSet.IsKey(OutNId)) {
+          NewGraph.AddEdge(NIdSet.GetKeyId(SrcNId), NIdSet.GetKeyId(OutNId)); }
+      }
+    }
+  }
+  return NewGraphPt;
+}
+
+// RenumberNodes ... Renumber node ids in the subgraph to 0...N-1
+PNGraph GetSubGraph(const PNGraph& Graph, const TIntV& NIdV, const bool& RenumberNodes) {
+  //if (! RenumberNodes) { return TSnap::GetSubGraph(Graph, NIdV); }
+  PNGraph NewGraphPt = TNGraph::New();
+  TNGraph& NewGraph = *NewGraphPt;
+  NewGraph.Reserve(NIdV.Len(), -1);
+  TIntSet NIdSet(NIdV.Len());
+  for (int n = 0; n < NIdV.Len(); n++) {
+    if (Graph->IsNode(NIdV[n])) {
+      NIdSet.AddKey(NIdV[n]);
+      if (! RenumberNodes) { NewGraph.AddNode(NIdV[n]); }
+      else { NewGraph.AddNode(NIdSet.GetKeyId(NIdV[n])); }
+    }
+  }
+  if (! RenumberNodes) {
+    for (int n = 0; n < NIdSet.Len(); n++) {
+      const int SrcNId = NIdSet[n];
+      const TNGraph::TNodeI NI = Graph->GetNI(SrcNId);
+      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
+        const int OutNId = NI.GetOutNId(edge);
+        if (NIdSet.IsKey(OutNId)) {
+          NewGraph.AddEdge(SrcNId, OutNId); }
+      }
+    }
+  } else {
+    for (int n = 0; n < NIdSet.Len(); n++) {
+      const int SrcNId = NIdSet[n];
+      const TNGraph::TNodeI NI = Graph->GetNI(SrcNId);
+      for (int edge = 0; edge < NI.GetOutDeg(); edge++) {
+        const int OutNId = NI.GetOutNId(edge);
+        if (NIdSet.IsKey(OutNId)) {
+          NewGraph.AddEdge(NIdSet.GetKeyId(SrcNId), NIdSet.GetKeyId(OutNId)); }
+      }
+    }
+  }
+  return NewGraphPt;
+}
+
+PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges) {
+  PUNGraph NewGraphPt = TUNGraph::New();
+  TUNGraph& NewGraph = *NewGraphPt;
+  NewGraph.AddNode(CtrNId);
+  const TUNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
+  for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
+    if (!NewGraph.IsNode(CtrNode.GetInNId(i))) {
+      NewGraph.AddNode(CtrNode.GetInNId(i));
+    }
+  }
+  ArndEdges = 0;
+  for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
+    int NbrNId = CtrNode.GetInNId(i);
+    const TUNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
+    for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
+      int NbrNbrNId = NbrNode.GetInNId(j);
+      if (NewGraph.IsNode(NbrNbrNId)) {
+        if (!NewGraph.IsEdge(NbrNId, NbrNbrNId)) {
+          NewGraph.AddEdge(NbrNId, NbrNbrNId);
+        }
+      } else {
+        ArndEdges++;
+      }
+    }
+  }
+  return NewGraphPt;
+}
+
+PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& OutEdges) {
+  PNGraph NewGraphPt = TNGraph::New();
+  TNGraph& NewGraph = *NewGraphPt;
+  NewGraph.AddNode(CtrNId);
+  const TNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
+  for (int i = 0; i < CtrNode.GetDeg(); ++i) {
+    if (!NewGraph.IsNode(CtrNode.GetNbrNId(i))) {
+      NewGraph.AddNode(CtrNode.GetNbrNId(i));
+    }
+  }
+  InEdges = 0;
+  OutEdges = 0;
+  for (int i = 0; i < CtrNode.GetDeg(); ++i) {
+    int NbrNId = CtrNode.GetNbrNId(i);
+    const TNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
+    for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
+      int NbrNbrNId = NbrNode.GetInNId(j);
+      if (NewGraph.IsNode(NbrNbrNId)) {
+        NewGraph.AddEdge(NbrNbrNId, NbrNId);
+      } else {
+        InEdges++;
+      }
+    }
+    for (int j = 0; j < NbrNode.GetOutDeg(); ++j) {
+      int NbrNbrNId = NbrNode.GetOutNId(j);
+      if (NewGraph.IsNode(NbrNbrNId)) {
+        NewGraph.AddEdge(NbrNId, NbrNbrNId);
+      } else {
+        OutEdges++;
+      }
+    }
+  }
+  return NewGraphPt;
+}
+
+} // namespace TSnap
-- 
2.43.0


From 77774aaad41098b5edf19ef8672b7ab5909fc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 053/147] fix: GetEgonet counts the edges around a neighbour
 twice when it is linked both ways

---
 snap/snap-core/subgraph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/subgraph.cpp b/snap/snap-core/subgraph.cpp
index 5a16340..141db83 100644
--- a/snap/snap-core/subgraph.cpp
+++ b/snap/snap-core/subgraph.cpp
@@ -119,8 +119,10 @@ PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& Out
   }
   InEdges = 0;
   OutEdges = 0;
-  for (int i = 0; i < CtrNode.GetDeg(); ++i) {
-    int NbrNId = CtrNode.GetNbrNId(i);
+  TIntV EgoNIdV;
+  NewGraph.GetNIdV(EgoNIdV); // a neighbor in both directions counts once
+  for (int i = 0; i < EgoNIdV.Len(); ++i) {
+    int NbrNId = EgoNIdV[i];
     const TNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
     for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
       int NbrNbrNId = NbrNode.GetInNId(j);
-- 
2.43.0


From 3ac1aebcf4a35eb775088e57f7d9351b980ac5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 054/147] fix: TNEANet::AddEdge shifts vector attributes of
 other edges when it reuses a slot

---
 snap/snap-core/network.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 3f61469..b47de71 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -552,7 +552,12 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
 
   for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
     TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
-    IntVecV.Ins(EdgeH.GetKeyId(EId), TIntV());
+    int KeyId = EdgeH.GetKeyId(EId);
+    if (IntVecV.Len() > KeyId) {
+      IntVecV[KeyId] = TIntV();
+    } else {
+      IntVecV.Ins(KeyId, TIntV());
+    }
   }
 
   for (i = 0; i < VecOfStrVecsE.Len(); i++) {
-- 
2.43.0


From e4aedfde8b0578765e734e1e1ed6099cb1a5b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 055/147] fix: TNEANet keeps writing to the columns of deleted
 attributes after emptying them, and cannot delete edge vector attributes

---
 snap/snap-core/network.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index b47de71..0052a1d 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -1286,25 +1286,21 @@ int TNEANet::AddFltAttrE(const TStr& attr, TFlt defaultValue) {
 }
 
 int TNEANet::DelAttrN(const TStr& attr) {
+  // the column itself stays, since its slots are still written when nodes come and go
   TInt vecType = KeyToIndexTypeN(attr).Val1;
   if (vecType == IntType) {
-    VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TInt>();
     if (IntDefaultsN.IsKey(attr)) {
       IntDefaultsN.DelKey(attr);
     }
   } else if (vecType == StrType) {
-    VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TStr>();  
     if (StrDefaultsN.IsKey(attr)) {
       StrDefaultsN.DelKey(attr);
     }
   } else if (vecType == FltType) {
-    VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TFlt>();
     if (FltDefaultsN.IsKey(attr)) {
       FltDefaultsN.DelKey(attr);
     }
-  } else if (vecType == IntVType) {
-    VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TIntV>();
-  } else {
+  } else if (vecType != IntVType) {
     return -1;
   }
   KeyToIndexTypeN.DelKey(attr);
@@ -1312,23 +1308,21 @@ int TNEANet::DelAttrN(const TStr& attr) {
 }
 
 int TNEANet::DelAttrE(const TStr& attr) {
+  // the column itself stays, since its slots are still written when edges come and go
   TInt vecType = KeyToIndexTypeE(attr).Val1;
   if (vecType == IntType) {
-    VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TInt>();
     if (IntDefaultsE.IsKey(attr)) {
       IntDefaultsE.DelKey(attr);
     }
   } else if (vecType == StrType) {
-    VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TStr>();
     if (StrDefaultsE.IsKey(attr)) {
       StrDefaultsE.DelKey(attr);
     }  
   } else if (vecType == FltType) {
-    VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TFlt>();
     if (FltDefaultsE.IsKey(attr)) {
       FltDefaultsE.DelKey(attr);
     }
-  } else {
+  } else if (vecType != IntVType) {
     return -1;
   }
   KeyToIndexTypeE.DelKey(attr);
-- 
2.43.0


From bae80d9df6e9f70e13235638e247152dc623838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 056/147] fix: TNEANet::Defrag leaves attribute values with the
 wrong nodes and edges

---
 snap/snap-core/network.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 0052a1d..01f44f7 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -669,13 +669,33 @@ void TNEANet::GetEIdV(TIntV& EIdV) const {
   }
 }
 
+// attribute values are stored by key id: move them to where Defrag moves the keys
+template <class THashTable, class TVal>
+static void DefragAttrs(const THashTable& Table, TVec<TVec<TVal> >& Cols) {
+  for (int i = 0; i < Cols.Len(); i++) {
+    TVec<TVal> Col;
+    for (int kid = Table.FFirstKeyId(); Table.FNextKeyId(kid); ) {
+      Col.Add(Cols[i][kid]);
+    }
+    Cols[i] = Col;
+  }
+}
+
 void TNEANet::Defrag(const bool& OnlyNodeLinks) {
   for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid); ) {
     TNode& Node = NodeH[kid];
     Node.InEIdV.Pack();  Node.OutEIdV.Pack();
   }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) { NodeH.Defrag(); }
-  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) { EdgeH.Defrag(); }
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
+    DefragAttrs(NodeH, VecOfIntVecsN);  DefragAttrs(NodeH, VecOfStrVecsN);
+    DefragAttrs(NodeH, VecOfFltVecsN);  DefragAttrs(NodeH, VecOfIntVecVecsN);
+    NodeH.Defrag();
+  }
+  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) {
+    DefragAttrs(EdgeH, VecOfIntVecsE);  DefragAttrs(EdgeH, VecOfStrVecsE);
+    DefragAttrs(EdgeH, VecOfFltVecsE);  DefragAttrs(EdgeH, VecOfIntVecVecsE);
+    EdgeH.Defrag();
+  }
 }
 
 bool TNEANet::IsOk(const bool& ThrowExcept) const {
-- 
2.43.0


From 883711d662be32dda1df91b896b5e6eec2a8f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 057/147] fix: TBreathFS::GetRndPath walks back over links that
 the search did not follow

---
 snap/snap-core/bfsdfs.h | 1000 ++++++++++++++++++++-------------------
 1 file changed, 507 insertions(+), 493 deletions(-)

diff --git a/snap/snap-core/bfsdfs.h b/snap/snap-core/bfsdfs.h
index 1f2de04..b5c8205 100644
--- a/snap/snap-core/bfsdfs.h
+++ b/snap/snap-core/bfsdfs.h
@@ -1,395 +1,409 @@
 #include <vector>
 
-namespace TSnap {
-
-/////////////////////////////////////////////////
-// BFS and DFS
-/// Returns a directed Breadth-First-Search tree rooted at StartNId. ##GetBfsTree1
-template <class PGraph> PNGraph GetBfsTree(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn);
-/// Returns the BFS tree size (number of nodes) and depth (number of levels) by following in-links (parameter FollowIn = true) and/or out-links (parameter FollowOut = true) of node StartNId.
-template <class PGraph> int GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, int& TreeSzX, int& TreeDepthX);
-/// Finds IDs of all nodes that are at distance Hop from node StartNId. ##GetSubTreeSz
-template <class PGraph> int GetNodesAtHop(const PGraph& Graph, const int& StartNId, const int& Hop, TIntV& NIdV, const bool& IsDir=false);
-/// Returns the number of nodes at each hop distance from the starting node StartNId. ##GetNodesAtHops
-template <class PGraph> int GetNodesAtHops(const PGraph& Graph, const int& StartNId, TIntPrV& HopCntV, const bool& IsDir=false);
-
-/////////////////////////////////////////////////
-// Shortest paths
-/// Returns the length of the shortest path from node SrcNId to node DstNId. ##GetShortPath1
-template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir=false);
+namespace TSnap {
+
+/////////////////////////////////////////////////
+// BFS and DFS
+/// Returns a directed Breadth-First-Search tree rooted at StartNId. ##GetBfsTree1
+template <class PGraph> PNGraph GetBfsTree(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn);
+/// Returns the BFS tree size (number of nodes) and depth (number of levels) by following in-links (parameter FollowIn = true) and/or out-links (parameter FollowOut = true) of node StartNId.
+template <class PGraph> int GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, int& TreeSzX, int& TreeDepthX);
+/// Finds IDs of all nodes that are at distance Hop from node StartNId. ##GetSubTreeSz
+template <class PGraph> int GetNodesAtHop(const PGraph& Graph, const int& StartNId, const int& Hop, TIntV& NIdV, const bool& IsDir=false);
+/// Returns the number of nodes at each hop distance from the starting node StartNId. ##GetNodesAtHops
+template <class PGraph> int GetNodesAtHops(const PGraph& Graph, const int& StartNId, TIntPrV& HopCntV, const bool& IsDir=false);
+
+/////////////////////////////////////////////////
+// Shortest paths
+/// Returns the length of the shortest path from node SrcNId to node DstNId. ##GetShortPath1
+template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir=false);
 template <class PGraph> std::vector< int64_t> GetShortPath(const PGraph& Graph, std::vector<std::pair< int64_t, int64_t>> &pairs);
-/// Returns the length of the shortest path from node SrcNId to all other nodes in the network. ##GetShortPath2
-template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir=false, const int& MaxDist=TInt::Mx);
-
-/////////////////////////////////////////////////
-// Diameter
-
-/// Returns the (approximation of the) Diameter (maximum shortest path length) of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsFullDiam
-template <class PGraph> int64 GetBfsFullDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
-template <class PGraph> int GetBfsFullDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
-/// Returns the (approximation of the) Effective Diameter (90-th percentile of the distribution of shortest path lengths) of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsEffDiam1
-template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
-/// Returns the (approximation of the) Effective Diameter and the Diameter of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsEffDiam2
-template <class PGraph> double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX);
-template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX);
-/// Returns the (approximation of the) Effective Diameter, the Diameter and the Average Shortest Path length in a graph (by performing BFS from NTestNodes random starting nodes). GetBfsEffDiam3
-template <class PGraph> double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX, double& AvgSPLX);
-template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX, double& AvgSPLX);
-/// Use the whole graph (all edges) to measure the shortest path lengths but only report the path lengths between nodes in the SubGraphNIdV. GetBfsEffDiam4
-template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const TIntV& SubGraphNIdV, const bool& IsDir, double& EffDiamX, int& FullDiamX);
-
-// TODO: Implement in the future
-//template <class PGraph> int GetRangeDist(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir=false);
-//template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir=false, const int& MaxDist=1000);
-//template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, const TIntSet& TargetSet, const bool& IsDir, TIntV& PathNIdV);
-//template <class PGraph> int GetShortPath(TIntH& NIdPrnH, TCcQueue<int>& NIdQ, const PGraph& Graph, const int& SrcNId, const TIntSet& TargetSet, const bool& IsDir, TIntV& PathNIdV);
-//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir=false);
-//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, int& MxDistNId);
-//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, int& MxDistNId, TCcQueue<int>& NIdQ, TCcQueue<int>& DistQ, TIntSet& VisitedH);
-//template <class PGraph> int GetMxGreedyDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir=false);
-//template <class PGraph> int GetMxGreedyDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, TCcQueue<int>& NIdQ, TCcQueue<int>& DistQ, TIntSet& VisitedH);
-//template <class PGraph> PNGraph GetShortPathsSubGraph(const PGraph& Graph, const TIntV& SubGraphNIdV);
-//template <class PGraph> PGraph GetWccPathsSubGraph(const PGraph& Graph, const TIntV& NIdV);
-//template <class PGraph> void GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOutEdges, int& TreeSz, int& TreeDepth);
-
-} // namespace TSnap
-
-//#//////////////////////////////////////////////
-/// Breath-First-Search class.
-/// The class is meant for executing many BFSs over a fixed graph. This means that the class can keep the hash tables and queues initialized between different calls of the DoBfs() function.
-template<class PGraph>
-class TBreathFS {
-public:
-  PGraph Graph;
-  TSnapQueue<int> Queue;
-  TInt StartNId;
-  TIntH NIdDistH;
-public:
-  TBreathFS(const PGraph& GraphPt, const bool& InitBigQ=true) :
-    Graph(GraphPt), Queue(InitBigQ?Graph->GetNodes():1024), NIdDistH(InitBigQ?Graph->GetNodes():1024) { }
-  /// Sets the graph to be used by the BFS to GraphPt and resets the data structures.
-  void SetGraph(const PGraph& GraphPt);
-  /// Performs BFS from node id StartNode for at maps MxDist steps by only following in-links (parameter FollowIn = true) and/or out-links (parameter FollowOut = true).
-  int DoBfs(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId=-1, const int& MxDist=TInt::Mx);
-  /// Same functionality as DoBfs with better performance.
-  int DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId=-1, const int& MxDist=TInt::Mx);
-  /// Returns the number of nodes visited/reached by the BFS.
-  int GetNVisited() const { return NIdDistH.Len(); }
-  /// Returns the IDs of the nodes visited/reached by the BFS.
-  void GetVisitedNIdV(TIntV& NIdV) const { NIdDistH.GetKeyV(NIdV); }
-  /// Returns the shortst path distance between SrcNId and DistNId.
-  /// Note you have to first call DoBFs(). SrcNId must be equal to StartNode, otherwise return value is -1.
-  int GetHops(const int& SrcNId, const int& DstNId) const;
-  /// Returns a random shortest path from SrcNId to DstNId.
-  /// Note you have to first call DoBFs(). SrcNId must be equal to StartNode, otherwise return value is -1.
-  int GetRndPath(const int& SrcNId, const int& DstNId, TIntV& PathNIdV) const;
-
-/* Private variables and functions for DoBfsHybrid */
-private:
-  int Stage; // 0, 2: top down, 1: bottom up
-  static const unsigned int alpha = 100;
-  static const unsigned int beta = 20;
-  /* Private functions */
-  bool TopDownStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn);
-  bool BottomUpStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn);
-};
-
-template<class PGraph>
-void TBreathFS<PGraph>::SetGraph(const PGraph& GraphPt) {
-  Graph=GraphPt;
-  const int N=GraphPt->GetNodes();
-  if (Queue.Reserved() < N) { Queue.Gen(N); }
-  if (NIdDistH.GetReservedKeyIds() < N) { NIdDistH.Gen(N); }
-}
-
-template<class PGraph>
-int TBreathFS<PGraph>::DoBfs(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
-  StartNId = StartNode;
-  IAssert(Graph->IsNode(StartNId));
-//  const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
-//  IAssertR(StartNodeI.GetOutDeg() > 0, TStr::Fmt("No neighbors from start node %d.", StartNode));
-  NIdDistH.Clr(false);  NIdDistH.AddDat(StartNId, 0);
-  Queue.Clr(false);  Queue.Push(StartNId);
-  int v, MaxDist = 0;
-  while (! Queue.Empty()) {
-    const int NId = Queue.Top();  Queue.Pop();
-    const int Dist = NIdDistH.GetDat(NId);
-    if (Dist == MxDist) { break; } // max distance limit reached
-    const typename PGraph::TObj::TNodeI NodeI = Graph->GetNI(NId);
-    if (FollowOut) { // out-links
-      for (v = 0; v < NodeI.GetOutDeg(); v++) {  // out-links
-        const int DstNId = NodeI.GetOutNId(v);
-        if (! NIdDistH.IsKey(DstNId)) {
-          NIdDistH.AddDat(DstNId, Dist+1);
-          MaxDist = TMath::Mx(MaxDist, Dist+1);
-          if (DstNId == TargetNId) { return MaxDist; }
-          Queue.Push(DstNId);
-        }
-      }
-    }
-    if (FollowIn) { // in-links
-      for (v = 0; v < NodeI.GetInDeg(); v++) {
-        const int DstNId = NodeI.GetInNId(v);
-        if (! NIdDistH.IsKey(DstNId)) {
-          NIdDistH.AddDat(DstNId, Dist+1);
-          MaxDist = TMath::Mx(MaxDist, Dist+1);
-          if (DstNId == TargetNId) { return MaxDist; }
-          Queue.Push(DstNId);
-        }
-      }
-    }
-  }
-  return MaxDist;
-}
-
-template<class PGraph>
-int TBreathFS<PGraph>::DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
-  StartNId = StartNode;
-  IAssert(Graph->IsNode(StartNId));
-  if (TargetNId == StartNode) return 0;
-  const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
-
-  // Initialize vector
-  TIntV NIdDistV(Graph->GetMxNId() + 1);
-  for (int i = 0; i < NIdDistV.Len(); i++) {
-    NIdDistV.SetVal(i, -1);
-  }
-  TIntV *Frontier = new TIntV(Graph->GetNodes(), 0);
-  TIntV *NextFrontier = new TIntV(Graph->GetNodes(), 0);
-
-  NIdDistV.SetVal(StartNId, 0);
-  Frontier->Add(StartNId);
-  Stage = 0;
-  int MaxDist = -1;
-  const unsigned int TotalNodes = Graph->GetNodes();
-  unsigned int UnvisitedNodes = Graph->GetNodes();
-  while (! Frontier->Empty()) {
-    MaxDist += 1;
-    NextFrontier->Clr(false);
-    if (MaxDist == MxDist) { break; } // max distance limit reached
-
-    UnvisitedNodes -= Frontier->Len();
-    if (Stage == 0 && UnvisitedNodes / Frontier->Len() < alpha) {
-      Stage = 1;
-    } else if (Stage == 1 && TotalNodes / Frontier->Len() > beta) {
-      Stage = 2;
-    }
-
-    // Top down or bottom up depending on stage
-    bool targetFound = false;
-    if (Stage == 0 || Stage == 2) {
-      targetFound = TopDownStep(NIdDistV, Frontier, NextFrontier, MaxDist, TargetNId, FollowOut, FollowIn);
-    } else {
-      targetFound = BottomUpStep(NIdDistV, Frontier, NextFrontier, MaxDist, TargetNId, FollowOut, FollowIn);
-    }
-    if (targetFound) {
-      MaxDist = NIdDistV[TargetNId];
-      break;
-    }
-
-    // swap Frontier and NextFrontier
-    TIntV *temp = Frontier;
-    Frontier = NextFrontier;
-    NextFrontier = temp;
-  }
-
-  delete Frontier;
-  delete NextFrontier;
-  // Transform vector to hash table
-  NIdDistH.Clr(false);
-  for (int NId = 0; NId < NIdDistV.Len(); NId++) {
-    if (NIdDistV[NId] != -1) {
-      NIdDistH.AddDat(NId, NIdDistV[NId]);
-    }
-  }
-  return MaxDist;
-}
-
-template<class PGraph>
-bool TBreathFS<PGraph>::TopDownStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn) {
-  for (TIntV::TIter it = Frontier->BegI(); it != Frontier->EndI(); ++it) { // loop over frontier
-    const int NId = *it;
-    const int Dist = NIdDistV[NId];
-    IAssert(Dist == MaxDist); // Must equal to MaxDist
-    const typename PGraph::TObj::TNodeI NodeI = Graph->GetNI(NId);
-    if (FollowOut) {
-      for (int v = 0; v < NodeI.GetOutDeg(); v++) {
-        const int NeighborNId = NodeI.GetOutNId(v);
-        if (NIdDistV[NeighborNId] == -1) {
-          NIdDistV.SetVal(NeighborNId, Dist+1);
-          if (NeighborNId == TargetNId) return true;
-          NextFrontier->Add(NeighborNId);
-        }
-      }
-    }
-    if (FollowIn) {
-      for (int v = 0; v < NodeI.GetInDeg(); v++) {
-        const int NeighborNId = NodeI.GetInNId(v);
-        if (NIdDistV[NeighborNId] == -1) {
-          NIdDistV.SetVal(NeighborNId, Dist+1);
-          if (NeighborNId == TargetNId) return true;
-          NextFrontier->Add(NeighborNId);
-        }
-      }
-    }
-  }
-  return false;
-}
-
-template<class PGraph>
-bool TBreathFS<PGraph>::BottomUpStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn) {
-  for (typename PGraph::TObj::TNodeI NodeI = Graph->BegNI(); NodeI < Graph->EndNI(); NodeI++) {
-    const int NId = NodeI.GetId();
-    if (NIdDistV[NId] == -1) {
-      if (FollowOut) {
-        for (int v = 0; v < NodeI.GetInDeg(); v++) {
-          const int ParentNId = NodeI.GetInNId(v);
-          if (NIdDistV[ParentNId] == MaxDist) {
-            NIdDistV[NId] = MaxDist + 1;
-            if (NId == TargetNId) return true;
-            NextFrontier->Add(NId);
-            break;
-          }
-        }
-      }
-      if (FollowIn && NIdDistV[NId] == -1) {
-        for (int v = 0; v < NodeI.GetOutDeg(); v++) {
-          const int ParentNId = NodeI.GetOutNId(v);
-          if (NIdDistV[ParentNId] == MaxDist) {
-            NIdDistV[NId] = MaxDist + 1;
-            if (NId == TargetNId) return true;
-            NextFrontier->Add(NId);
-            break;
-          }
-        }
-      }
-    }
-  }
-  return false;
-}
-
-template<class PGraph>
-int TBreathFS<PGraph>::GetHops(const int& SrcNId, const int& DstNId) const {
-  TInt Dist;
-  if (SrcNId!=StartNId) { return -1; }
-  if (! NIdDistH.IsKeyGetDat(DstNId, Dist)) { return -1; }
-  return Dist.Val;
-}
-
-template<class PGraph>
-int TBreathFS<PGraph>::GetRndPath(const int& SrcNId, const int& DstNId, TIntV& PathNIdV) const {
-  PathNIdV.Clr(false);
-  if (SrcNId!=StartNId || ! NIdDistH.IsKey(DstNId)) { return -1; }
-  PathNIdV.Add(DstNId);
-  TIntV CloserNIdV;
-  int CurNId = DstNId;
-  TInt CurDist, NextDist;
-  while (CurNId != SrcNId) {
-    typename PGraph::TObj::TNodeI NI = Graph->GetNI(CurNId);
-    IAssert(NIdDistH.IsKeyGetDat(CurNId, CurDist));
-    CloserNIdV.Clr(false);
-    for (int e = 0; e < NI.GetDeg(); e++) {
-      const int Next = NI.GetNbrNId(e);
-      if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
-        if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
-      }
-    }
-    IAssert(! CloserNIdV.Empty());
-    CurNId = CloserNIdV[TInt::Rnd.GetUniDevInt(CloserNIdV.Len())];
-    PathNIdV.Add(CurNId);
-  }
-  PathNIdV.Reverse();
-  return PathNIdV.Len()-1;
-}
-
-/////////////////////////////////////////////////
-// Implementation
-namespace TSnap {
-
-template <class PGraph>
-PNGraph GetBfsTree(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(StartNId, FollowOut, FollowIn, -1, TInt::Mx);
-  PNGraph Tree = TNGraph::New();
-  BFS.NIdDistH.SortByDat();
-  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-    const int NId = BFS.NIdDistH.GetKey(i);
-    const int Dist = BFS.NIdDistH[i];
-    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-    if (!Tree->IsNode(NId)) {
-      Tree->AddNode(NId);
-    }
-    if (FollowOut) {
-      for (int e = 0; e < NI.GetInDeg(); e++) {
-        const int Prev = NI.GetInNId(e);
-        if (Tree->IsNode(Prev) && BFS.NIdDistH.GetDat(Prev)==Dist-1) {
-          Tree->AddEdge(Prev, NId); }
-      }
-    }
-    if (FollowIn) {
-      for (int e = 0; e < NI.GetOutDeg(); e++) {
-        const int Prev = NI.GetOutNId(e);
-        if (Tree->IsNode(Prev) && BFS.NIdDistH.GetDat(Prev)==Dist-1) {
-          Tree->AddEdge(Prev, NId); }
-      }
-    }
-  }
-  return Tree;
-}
-
-template <class PGraph>
-int GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, int& TreeSz, int& TreeDepth) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(StartNId, FollowOut, FollowIn, -1, TInt::Mx);
-  TreeSz = BFS.NIdDistH.Len();
-  TreeDepth = 0;
-  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-    TreeDepth = TMath::Mx(TreeDepth, BFS.NIdDistH[i].Val);
-  }
-  return TreeSz;
-}
-
-template <class PGraph>
-int GetNodesAtHop(const PGraph& Graph, const int& StartNId, const int& Hop, TIntV& NIdV, const bool& IsDir) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(StartNId, true, !IsDir, -1, Hop);
-  NIdV.Clr(false);
-  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-    if (BFS.NIdDistH[i] == Hop) {
-      NIdV.Add(BFS.NIdDistH.GetKey(i)); }
-  }
-  return NIdV.Len();
-}
-
-template <class PGraph>
-int GetNodesAtHops(const PGraph& Graph, const int& StartNId, TIntPrV& HopCntV, const bool& IsDir) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(StartNId, true, !IsDir, -1, TInt::Mx);
-  TIntH HopCntH;
-  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-    HopCntH.AddDat(BFS.NIdDistH[i]) += 1;
-  }
-  HopCntH.GetKeyDatPrV(HopCntV);
-  HopCntV.Sort();
-  return HopCntV.Len();
-}
-
-template <class PGraph>
-int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir, const int& MaxDist) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(SrcNId, true, ! IsDir, -1, MaxDist);
-  NIdToDistH.Clr();
-  NIdToDistH.Swap(BFS.NIdDistH);
-  return NIdToDistH[NIdToDistH.Len()-1];
-}
-
-template <class PGraph>
-int GetShortPath(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir) {
-  TBreathFS<PGraph> BFS(Graph);
-  BFS.DoBfs(SrcNId, true, ! IsDir, DstNId, TInt::Mx);
-  return BFS.GetHops(SrcNId, DstNId);
-}
-template <class PGraph>
+/// Returns the length of the shortest path from node SrcNId to all other nodes in the network. ##GetShortPath2
+template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir=false, const int& MaxDist=TInt::Mx);
+
+/////////////////////////////////////////////////
+// Diameter
+
+/// Returns the (approximation of the) Diameter (maximum shortest path length) of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsFullDiam
+template <class PGraph> int64 GetBfsFullDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
+template <class PGraph> int GetBfsFullDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
+/// Returns the (approximation of the) Effective Diameter (90-th percentile of the distribution of shortest path lengths) of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsEffDiam1
+template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir=false);
+/// Returns the (approximation of the) Effective Diameter and the Diameter of a graph (by performing BFS from NTestNodes random starting nodes). ##GetBfsEffDiam2
+template <class PGraph> double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX);
+template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX);
+/// Returns the (approximation of the) Effective Diameter, the Diameter and the Average Shortest Path length in a graph (by performing BFS from NTestNodes random starting nodes). GetBfsEffDiam3
+template <class PGraph> double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX, double& AvgSPLX);
+template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiamX, int& FullDiamX, double& AvgSPLX);
+/// Use the whole graph (all edges) to measure the shortest path lengths but only report the path lengths between nodes in the SubGraphNIdV. GetBfsEffDiam4
+template <class PGraph> double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const TIntV& SubGraphNIdV, const bool& IsDir, double& EffDiamX, int& FullDiamX);
+
+// TODO: Implement in the future
+//template <class PGraph> int GetRangeDist(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir=false);
+//template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir=false, const int& MaxDist=1000);
+//template <class PGraph> int GetShortPath(const PGraph& Graph, const int& SrcNId, const TIntSet& TargetSet, const bool& IsDir, TIntV& PathNIdV);
+//template <class PGraph> int GetShortPath(TIntH& NIdPrnH, TCcQueue<int>& NIdQ, const PGraph& Graph, const int& SrcNId, const TIntSet& TargetSet, const bool& IsDir, TIntV& PathNIdV);
+//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir=false);
+//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, int& MxDistNId);
+//template <class PGraph> int GetMxShortDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, int& MxDistNId, TCcQueue<int>& NIdQ, TCcQueue<int>& DistQ, TIntSet& VisitedH);
+//template <class PGraph> int GetMxGreedyDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir=false);
+//template <class PGraph> int GetMxGreedyDist(const PGraph& Graph, const int& SrcNId, const bool& IsDir, TCcQueue<int>& NIdQ, TCcQueue<int>& DistQ, TIntSet& VisitedH);
+//template <class PGraph> PNGraph GetShortPathsSubGraph(const PGraph& Graph, const TIntV& SubGraphNIdV);
+//template <class PGraph> PGraph GetWccPathsSubGraph(const PGraph& Graph, const TIntV& NIdV);
+//template <class PGraph> void GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOutEdges, int& TreeSz, int& TreeDepth);
+
+} // namespace TSnap
+
+//#//////////////////////////////////////////////
+/// Breath-First-Search class.
+/// The class is meant for executing many BFSs over a fixed graph. This means that the class can keep the hash tables and queues initialized between different calls of the DoBfs() function.
+template<class PGraph>
+class TBreathFS {
+public:
+  PGraph Graph;
+  TSnapQueue<int> Queue;
+  TInt StartNId;
+  TIntH NIdDistH;
+public:
+  TBreathFS(const PGraph& GraphPt, const bool& InitBigQ=true) :
+    Graph(GraphPt), Queue(InitBigQ?Graph->GetNodes():1024), NIdDistH(InitBigQ?Graph->GetNodes():1024), PathOut(true), PathIn(true) { }
+  /// Sets the graph to be used by the BFS to GraphPt and resets the data structures.
+  void SetGraph(const PGraph& GraphPt);
+  /// Performs BFS from node id StartNode for at maps MxDist steps by only following in-links (parameter FollowIn = true) and/or out-links (parameter FollowOut = true).
+  int DoBfs(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId=-1, const int& MxDist=TInt::Mx);
+  /// Same functionality as DoBfs with better performance.
+  int DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId=-1, const int& MxDist=TInt::Mx);
+  /// Returns the number of nodes visited/reached by the BFS.
+  int GetNVisited() const { return NIdDistH.Len(); }
+  /// Returns the IDs of the nodes visited/reached by the BFS.
+  void GetVisitedNIdV(TIntV& NIdV) const { NIdDistH.GetKeyV(NIdV); }
+  /// Returns the shortst path distance between SrcNId and DistNId.
+  /// Note you have to first call DoBFs(). SrcNId must be equal to StartNode, otherwise return value is -1.
+  int GetHops(const int& SrcNId, const int& DstNId) const;
+  /// Returns a random shortest path from SrcNId to DstNId.
+  /// Note you have to first call DoBFs(). SrcNId must be equal to StartNode, otherwise return value is -1.
+  int GetRndPath(const int& SrcNId, const int& DstNId, TIntV& PathNIdV) const;
+
+private:
+  bool PathOut, PathIn; // which links the last search followed
+/* Private variables and functions for DoBfsHybrid */
+private:
+  int Stage; // 0, 2: top down, 1: bottom up
+  static const unsigned int alpha = 100;
+  static const unsigned int beta = 20;
+  /* Private functions */
+  bool TopDownStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn);
+  bool BottomUpStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn);
+};
+
+template<class PGraph>
+void TBreathFS<PGraph>::SetGraph(const PGraph& GraphPt) {
+  Graph=GraphPt;
+  const int N=GraphPt->GetNodes();
+  if (Queue.Reserved() < N) { Queue.Gen(N); }
+  if (NIdDistH.GetReservedKeyIds() < N) { NIdDistH.Gen(N); }
+}
+
+template<class PGraph>
+int TBreathFS<PGraph>::DoBfs(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
+  StartNId = StartNode;
+  PathOut = FollowOut;  PathIn = FollowIn;
+  IAssert(Graph->IsNode(StartNId));
+//  const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
+//  IAssertR(StartNodeI.GetOutDeg() > 0, TStr::Fmt("No neighbors from start node %d.", StartNode));
+  NIdDistH.Clr(false);  NIdDistH.AddDat(StartNId, 0);
+  Queue.Clr(false);  Queue.Push(StartNId);
+  int v, MaxDist = 0;
+  while (! Queue.Empty()) {
+    const int NId = Queue.Top();  Queue.Pop();
+    const int Dist = NIdDistH.GetDat(NId);
+    if (Dist == MxDist) { break; } // max distance limit reached
+    const typename PGraph::TObj::TNodeI NodeI = Graph->GetNI(NId);
+    if (FollowOut) { // out-links
+      for (v = 0; v < NodeI.GetOutDeg(); v++) {  // out-links
+        const int DstNId = NodeI.GetOutNId(v);
+        if (! NIdDistH.IsKey(DstNId)) {
+          NIdDistH.AddDat(DstNId, Dist+1);
+          MaxDist = TMath::Mx(MaxDist, Dist+1);
+          if (DstNId == TargetNId) { return MaxDist; }
+          Queue.Push(DstNId);
+        }
+      }
+    }
+    if (FollowIn) { // in-links
+      for (v = 0; v < NodeI.GetInDeg(); v++) {
+        const int DstNId = NodeI.GetInNId(v);
+        if (! NIdDistH.IsKey(DstNId)) {
+          NIdDistH.AddDat(DstNId, Dist+1);
+          MaxDist = TMath::Mx(MaxDist, Dist+1);
+          if (DstNId == TargetNId) { return MaxDist; }
+          Queue.Push(DstNId);
+        }
+      }
+    }
+  }
+  return MaxDist;
+}
+
+template<class PGraph>
+int TBreathFS<PGraph>::DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
+  StartNId = StartNode;
+  PathOut = FollowOut;  PathIn = FollowIn;
+  IAssert(Graph->IsNode(StartNId));
+  if (TargetNId == StartNode) return 0;
+  const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
+
+  // Initialize vector
+  TIntV NIdDistV(Graph->GetMxNId() + 1);
+  for (int i = 0; i < NIdDistV.Len(); i++) {
+    NIdDistV.SetVal(i, -1);
+  }
+  TIntV *Frontier = new TIntV(Graph->GetNodes(), 0);
+  TIntV *NextFrontier = new TIntV(Graph->GetNodes(), 0);
+
+  NIdDistV.SetVal(StartNId, 0);
+  Frontier->Add(StartNId);
+  Stage = 0;
+  int MaxDist = -1;
+  const unsigned int TotalNodes = Graph->GetNodes();
+  unsigned int UnvisitedNodes = Graph->GetNodes();
+  while (! Frontier->Empty()) {
+    MaxDist += 1;
+    NextFrontier->Clr(false);
+    if (MaxDist == MxDist) { break; } // max distance limit reached
+
+    UnvisitedNodes -= Frontier->Len();
+    if (Stage == 0 && UnvisitedNodes / Frontier->Len() < alpha) {
+      Stage = 1;
+    } else if (Stage == 1 && TotalNodes / Frontier->Len() > beta) {
+      Stage = 2;
+    }
+
+    // Top down or bottom up depending on stage
+    bool targetFound = false;
+    if (Stage == 0 || Stage == 2) {
+      targetFound = TopDownStep(NIdDistV, Frontier, NextFrontier, MaxDist, TargetNId, FollowOut, FollowIn);
+    } else {
+      targetFound = BottomUpStep(NIdDistV, Frontier, NextFrontier, MaxDist, TargetNId, FollowOut, FollowIn);
+    }
+    if (targetFound) {
+      MaxDist = NIdDistV[TargetNId];
+      break;
+    }
+
+    // swap Frontier and NextFrontier
+    TIntV *temp = Frontier;
+    Frontier = NextFrontier;
+    NextFrontier = temp;
+  }
+
+  delete Frontier;
+  delete NextFrontier;
+  // Transform vector to hash table
+  NIdDistH.Clr(false);
+  for (int NId = 0; NId < NIdDistV.Len(); NId++) {
+    if (NIdDistV[NId] != -1) {
+      NIdDistH.AddDat(NId, NIdDistV[NId]);
+    }
+  }
+  return MaxDist;
+}
+
+template<class PGraph>
+bool TBreathFS<PGraph>::TopDownStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn) {
+  for (TIntV::TIter it = Frontier->BegI(); it != Frontier->EndI(); ++it) { // loop over frontier
+    const int NId = *it;
+    const int Dist = NIdDistV[NId];
+    IAssert(Dist == MaxDist); // Must equal to MaxDist
+    const typename PGraph::TObj::TNodeI NodeI = Graph->GetNI(NId);
+    if (FollowOut) {
+      for (int v = 0; v < NodeI.GetOutDeg(); v++) {
+        const int NeighborNId = NodeI.GetOutNId(v);
+        if (NIdDistV[NeighborNId] == -1) {
+          NIdDistV.SetVal(NeighborNId, Dist+1);
+          if (NeighborNId == TargetNId) return true;
+          NextFrontier->Add(NeighborNId);
+        }
+      }
+    }
+    if (FollowIn) {
+      for (int v = 0; v < NodeI.GetInDeg(); v++) {
+        const int NeighborNId = NodeI.GetInNId(v);
+        if (NIdDistV[NeighborNId] == -1) {
+          NIdDistV.SetVal(NeighborNId, Dist+1);
+          if (NeighborNId == TargetNId) return true;
+          NextFrontier->Add(NeighborNId);
+        }
+      }
+    }
+  }
+  return false;
+}
+
+template<class PGraph>
+bool TBreathFS<PGraph>::BottomUpStep(TIntV &NIdDistV, TIntV *Frontier, TIntV *NextFrontier, int& MaxDist, const int& TargetNId, const bool& FollowOut, const bool& FollowIn) {
+  for (typename PGraph::TObj::TNodeI NodeI = Graph->BegNI(); NodeI < Graph->EndNI(); NodeI++) {
+    const int NId = NodeI.GetId();
+    if (NIdDistV[NId] == -1) {
+      if (FollowOut) {
+        for (int v = 0; v < NodeI.GetInDeg(); v++) {
+          const int ParentNId = NodeI.GetInNId(v);
+          if (NIdDistV[ParentNId] == MaxDist) {
+            NIdDistV[NId] = MaxDist + 1;
+            if (NId == TargetNId) return true;
+            NextFrontier->Add(NId);
+            break;
+          }
+        }
+      }
+      if (FollowIn && NIdDistV[NId] == -1) {
+        for (int v = 0; v < NodeI.GetOutDeg(); v++) {
+          const int ParentNId = NodeI.GetOutNId(v);
+          if (NIdDistV[ParentNId] == MaxDist) {
+            NIdDistV[NId] = MaxDist + 1;
+            if (NId == TargetNId) return true;
+            NextFrontier->Add(NId);
+            break;
+          }
+        }
+      }
+    }
+  }
+  return false;
+}
+
+template<class PGraph>
+int TBreathFS<PGraph>::GetHops(const int& SrcNId, const int& DstNId) const {
+  TInt Dist;
+  if (SrcNId!=StartNId) { return -1; }
+  if (! NIdDistH.IsKeyGetDat(DstNId, Dist)) { return -1; }
+  return Dist.Val;
+}
+
+template<class PGraph>
+int TBreathFS<PGraph>::GetRndPath(const int& SrcNId, const int& DstNId, TIntV& PathNIdV) const {
+  PathNIdV.Clr(false);
+  if (SrcNId!=StartNId || ! NIdDistH.IsKey(DstNId)) { return -1; }
+  PathNIdV.Add(DstNId);
+  TIntV CloserNIdV;
+  int CurNId = DstNId;
+  TInt CurDist, NextDist;
+  while (CurNId != SrcNId) {
+    typename PGraph::TObj::TNodeI NI = Graph->GetNI(CurNId);
+    IAssert(NIdDistH.IsKeyGetDat(CurNId, CurDist));
+    CloserNIdV.Clr(false);
+    if (PathOut) { // the search followed out-edges: the path came in over an in-edge
+      for (int e = 0; e < NI.GetInDeg(); e++) {
+        const int Next = NI.GetInNId(e);
+        if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
+          if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
+        }
+      }
+    }
+    if (PathIn) {
+      for (int e = 0; e < NI.GetOutDeg(); e++) {
+        const int Next = NI.GetOutNId(e);
+        if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
+          if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
+        }
+      }
+    }
+    IAssert(! CloserNIdV.Empty());
+    CurNId = CloserNIdV[TInt::Rnd.GetUniDevInt(CloserNIdV.Len())];
+    PathNIdV.Add(CurNId);
+  }
+  PathNIdV.Reverse();
+  return PathNIdV.Len()-1;
+}
+
+/////////////////////////////////////////////////
+// Implementation
+namespace TSnap {
+
+template <class PGraph>
+PNGraph GetBfsTree(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(StartNId, FollowOut, FollowIn, -1, TInt::Mx);
+  PNGraph Tree = TNGraph::New();
+  BFS.NIdDistH.SortByDat();
+  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+    const int NId = BFS.NIdDistH.GetKey(i);
+    const int Dist = BFS.NIdDistH[i];
+    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+    if (!Tree->IsNode(NId)) {
+      Tree->AddNode(NId);
+    }
+    if (FollowOut) {
+      for (int e = 0; e < NI.GetInDeg(); e++) {
+        const int Prev = NI.GetInNId(e);
+        if (Tree->IsNode(Prev) && BFS.NIdDistH.GetDat(Prev)==Dist-1) {
+          Tree->AddEdge(Prev, NId); }
+      }
+    }
+    if (FollowIn) {
+      for (int e = 0; e < NI.GetOutDeg(); e++) {
+        const int Prev = NI.GetOutNId(e);
+        if (Tree->IsNode(Prev) && BFS.NIdDistH.GetDat(Prev)==Dist-1) {
+          Tree->AddEdge(Prev, NId); }
+      }
+    }
+  }
+  return Tree;
+}
+
+template <class PGraph>
+int GetSubTreeSz(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, int& TreeSz, int& TreeDepth) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(StartNId, FollowOut, FollowIn, -1, TInt::Mx);
+  TreeSz = BFS.NIdDistH.Len();
+  TreeDepth = 0;
+  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+    TreeDepth = TMath::Mx(TreeDepth, BFS.NIdDistH[i].Val);
+  }
+  return TreeSz;
+}
+
+template <class PGraph>
+int GetNodesAtHop(const PGraph& Graph, const int& StartNId, const int& Hop, TIntV& NIdV, const bool& IsDir) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(StartNId, true, !IsDir, -1, Hop);
+  NIdV.Clr(false);
+  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+    if (BFS.NIdDistH[i] == Hop) {
+      NIdV.Add(BFS.NIdDistH.GetKey(i)); }
+  }
+  return NIdV.Len();
+}
+
+template <class PGraph>
+int GetNodesAtHops(const PGraph& Graph, const int& StartNId, TIntPrV& HopCntV, const bool& IsDir) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(StartNId, true, !IsDir, -1, TInt::Mx);
+  TIntH HopCntH;
+  for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+    HopCntH.AddDat(BFS.NIdDistH[i]) += 1;
+  }
+  HopCntH.GetKeyDatPrV(HopCntV);
+  HopCntV.Sort();
+  return HopCntV.Len();
+}
+
+template <class PGraph>
+int GetShortPath(const PGraph& Graph, const int& SrcNId, TIntH& NIdToDistH, const bool& IsDir, const int& MaxDist) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(SrcNId, true, ! IsDir, -1, MaxDist);
+  NIdToDistH.Clr();
+  NIdToDistH.Swap(BFS.NIdDistH);
+  return NIdToDistH[NIdToDistH.Len()-1];
+}
+
+template <class PGraph>
+int GetShortPath(const PGraph& Graph, const int& SrcNId, const int& DstNId, const bool& IsDir) {
+  TBreathFS<PGraph> BFS(Graph);
+  BFS.DoBfs(SrcNId, true, ! IsDir, DstNId, TInt::Mx);
+  return BFS.GetHops(SrcNId, DstNId);
+}
+template <class PGraph>
 std::vector< int64_t> GetShortPath(const PGraph& Graph, std::vector<std::pair< int64_t,  int64_t>> &pairs) {
     std::vector< int64_t> output;
     for(auto p : pairs) {
@@ -405,35 +419,35 @@ int64 GetBfsFullDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool&
   GetBfsEffDiam_stl(Graph, NTestNodes, IsDir, EffDiam, FullDiam);
   return FullDiam;
 }
-template <class PGraph>
-int GetBfsFullDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir) {
-  int FullDiam;
-  double EffDiam;
-  GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam);
-  return FullDiam;
-}
-
-template <class PGraph>
-double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir) {
-  int FullDiam;
-  double EffDiam;
-  GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam);
-  return EffDiam;
-}
-
-template <class PGraph>
-double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam) {
-  double AvgDiam;
-  EffDiam = -1;  FullDiam = -1;
-  return GetBfsEffDiam_stl(Graph, NTestNodes, IsDir, EffDiam, FullDiam, AvgDiam);
-}
-template <class PGraph>
-double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam) {
-  double AvgDiam;
-  EffDiam = -1;  FullDiam = -1;
-  return GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam, AvgDiam);
-}
-
+template <class PGraph>
+int GetBfsFullDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir) {
+  int FullDiam;
+  double EffDiam;
+  GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam);
+  return FullDiam;
+}
+
+template <class PGraph>
+double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir) {
+  int FullDiam;
+  double EffDiam;
+  GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam);
+  return EffDiam;
+}
+
+template <class PGraph>
+double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam) {
+  double AvgDiam;
+  EffDiam = -1;  FullDiam = -1;
+  return GetBfsEffDiam_stl(Graph, NTestNodes, IsDir, EffDiam, FullDiam, AvgDiam);
+}
+template <class PGraph>
+double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam) {
+  double AvgDiam;
+  EffDiam = -1;  FullDiam = -1;
+  return GetBfsEffDiam(Graph, NTestNodes, IsDir, EffDiam, FullDiam, AvgDiam);
+}
+
 template <class PGraph>
 double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam, double& AvgSPL) {
   EffDiam = -1;  FullDiam = -1;  AvgSPL = -1;
@@ -447,78 +461,78 @@ double GetBfsEffDiam_stl(const PGraph& Graph, const int& NTestNodes, const bool&
     for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
       DistToCntH.AddDat(BFS.NIdDistH[i]) += 1; }
   }
-  TIntFltKdV DistNbrsPdfV;
-  double SumPathL=0, PathCnt=0;
-  for (int i = 0; i < DistToCntH.Len(); i++) {
-    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
-    SumPathL += DistToCntH.GetKey(i) * DistToCntH[i];
-    PathCnt += DistToCntH[i];
-  }
-  DistNbrsPdfV.Sort();
-  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9); // effective diameter (90-th percentile)
-  FullDiam = DistNbrsPdfV.Last().Key;                // approximate full diameter (max shortest path length over the sampled nodes)
-  AvgSPL = SumPathL/PathCnt;                        // average shortest path length
-  return EffDiam;
+  TIntFltKdV DistNbrsPdfV;
+  double SumPathL=0, PathCnt=0;
+  for (int i = 0; i < DistToCntH.Len(); i++) {
+    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
+    SumPathL += DistToCntH.GetKey(i) * DistToCntH[i];
+    PathCnt += DistToCntH[i];
+  }
+  DistNbrsPdfV.Sort();
+  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9); // effective diameter (90-th percentile)
+  FullDiam = DistNbrsPdfV.Last().Key;                // approximate full diameter (max shortest path length over the sampled nodes)
+  AvgSPL = SumPathL/PathCnt;                        // average shortest path length
+  return EffDiam;
 }
 
-template <class PGraph>
-double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam, double& AvgSPL) {
-  EffDiam = -1;  FullDiam = -1;  AvgSPL = -1;
-  TIntFltH DistToCntH;
-  TBreathFS<PGraph> BFS(Graph);
-  // shotest paths
-  TIntV NodeIdV;
-  Graph->GetNIdV(NodeIdV);  NodeIdV.Shuffle(TInt::Rnd);
-  for (int tries = 0; tries < TMath::Mn(NTestNodes, Graph->GetNodes()); tries++) {
-    const int NId = NodeIdV[tries];
-    BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
-    for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-      DistToCntH.AddDat(BFS.NIdDistH[i]) += 1; }
-  }
-  TIntFltKdV DistNbrsPdfV;
-  double SumPathL=0, PathCnt=0;
-  for (int i = 0; i < DistToCntH.Len(); i++) {
-    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
-    SumPathL += DistToCntH.GetKey(i) * DistToCntH[i];
-    PathCnt += DistToCntH[i];
-  }
-  DistNbrsPdfV.Sort();
-  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9); // effective diameter (90-th percentile)
-  FullDiam = DistNbrsPdfV.Last().Key;                // approximate full diameter (max shortest path length over the sampled nodes)
-  AvgSPL = SumPathL/PathCnt;                        // average shortest path length
-  return EffDiam;
-}
-
-template <class PGraph>
-double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const TIntV& SubGraphNIdV, const bool& IsDir, double& EffDiam, int& FullDiam) {
-  EffDiam = -1;
-  FullDiam = -1;
-
-  TIntFltH DistToCntH;
-  TBreathFS<PGraph> BFS(Graph);
-  // shotest paths
-  TIntV NodeIdV(SubGraphNIdV);  NodeIdV.Shuffle(TInt::Rnd);
-  TInt Dist;
-  for (int tries = 0; tries < TMath::Mn(NTestNodes, SubGraphNIdV.Len()); tries++) {
-    const int NId = NodeIdV[tries];
-    BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
-    for (int i = 0; i < SubGraphNIdV.Len(); i++) {
-      if (BFS.NIdDistH.IsKeyGetDat(SubGraphNIdV[i], Dist)) {
-        DistToCntH.AddDat(Dist) += 1;
-      }
-    }
-  }
-  TIntFltKdV DistNbrsPdfV;
-  for (int i = 0; i < DistToCntH.Len(); i++) {
-    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
-  }
-  DistNbrsPdfV.Sort();
-  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9);  // effective diameter (90-th percentile)
-  FullDiam = DistNbrsPdfV.Last().Key;                 // approximate full diameter (max shortest path length over the sampled nodes)
-  return EffDiam;                                     // average shortest path length
+template <class PGraph>
+double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const bool& IsDir, double& EffDiam, int& FullDiam, double& AvgSPL) {
+  EffDiam = -1;  FullDiam = -1;  AvgSPL = -1;
+  TIntFltH DistToCntH;
+  TBreathFS<PGraph> BFS(Graph);
+  // shotest paths
+  TIntV NodeIdV;
+  Graph->GetNIdV(NodeIdV);  NodeIdV.Shuffle(TInt::Rnd);
+  for (int tries = 0; tries < TMath::Mn(NTestNodes, Graph->GetNodes()); tries++) {
+    const int NId = NodeIdV[tries];
+    BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
+    for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+      DistToCntH.AddDat(BFS.NIdDistH[i]) += 1; }
+  }
+  TIntFltKdV DistNbrsPdfV;
+  double SumPathL=0, PathCnt=0;
+  for (int i = 0; i < DistToCntH.Len(); i++) {
+    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
+    SumPathL += DistToCntH.GetKey(i) * DistToCntH[i];
+    PathCnt += DistToCntH[i];
+  }
+  DistNbrsPdfV.Sort();
+  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9); // effective diameter (90-th percentile)
+  FullDiam = DistNbrsPdfV.Last().Key;                // approximate full diameter (max shortest path length over the sampled nodes)
+  AvgSPL = SumPathL/PathCnt;                        // average shortest path length
+  return EffDiam;
 }
 
-template <class PGraph>
+template <class PGraph>
+double GetBfsEffDiam(const PGraph& Graph, const int& NTestNodes, const TIntV& SubGraphNIdV, const bool& IsDir, double& EffDiam, int& FullDiam) {
+  EffDiam = -1;
+  FullDiam = -1;
+
+  TIntFltH DistToCntH;
+  TBreathFS<PGraph> BFS(Graph);
+  // shotest paths
+  TIntV NodeIdV(SubGraphNIdV);  NodeIdV.Shuffle(TInt::Rnd);
+  TInt Dist;
+  for (int tries = 0; tries < TMath::Mn(NTestNodes, SubGraphNIdV.Len()); tries++) {
+    const int NId = NodeIdV[tries];
+    BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
+    for (int i = 0; i < SubGraphNIdV.Len(); i++) {
+      if (BFS.NIdDistH.IsKeyGetDat(SubGraphNIdV[i], Dist)) {
+        DistToCntH.AddDat(Dist) += 1;
+      }
+    }
+  }
+  TIntFltKdV DistNbrsPdfV;
+  for (int i = 0; i < DistToCntH.Len(); i++) {
+    DistNbrsPdfV.Add(TIntFltKd(DistToCntH.GetKey(i), DistToCntH[i]));
+  }
+  DistNbrsPdfV.Sort();
+  EffDiam = TSnap::TSnapDetail::CalcEffDiamPdf(DistNbrsPdfV, 0.9);  // effective diameter (90-th percentile)
+  FullDiam = DistNbrsPdfV.Last().Key;                 // approximate full diameter (max shortest path length over the sampled nodes)
+  return EffDiam;                                     // average shortest path length
+}
+
+template <class PGraph>
 int GetShortestDistances(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, TIntV& ShortestDists) {
   PSOut StdOut = TStdOut::New();
   int MxNId = Graph->GetMxNId();
@@ -558,11 +572,11 @@ int GetShortestDistances(const PGraph& Graph, const int& StartNId, const bool& F
     // clear next
     PNextV->Reduce(0); // reduce length, does not initialize new array
   }
-  return Depth-1;
+  return Depth-1;
 }
 
 #ifdef USE_OPENMP
-template <class PGraph>
+template <class PGraph>
 int GetShortestDistancesMP2(const PGraph& Graph, const int& StartNId, const bool& FollowOut, const bool& FollowIn, TIntV& ShortestDists) {
   int MxNId = Graph->GetMxNId();
   int NonNodeDepth = 2147483647; // INT_MAX
@@ -617,8 +631,8 @@ int GetShortestDistancesMP2(const PGraph& Graph, const int& StartNId, const bool
     // clear next
     PNextV->Reduce(0); // reduce length, does not initialize new array
   }
-  return Depth-1;
-}
-#endif // USE_OPENMP
-
-} // namespace TSnap
+  return Depth-1;
+}
+#endif // USE_OPENMP
+
+} // namespace TSnap
-- 
2.43.0


From 4c80d697a421a774a598659a984910ff08fc72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 058/147] fix: GetArtPoints treats the roots of all components
 but the first as inner nodes

---
 snap/snap-core/cncom.h | 937 +++++++++++++++++++++--------------------
 1 file changed, 469 insertions(+), 468 deletions(-)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index 5b10405..e0795fc 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -1,468 +1,469 @@
-/////////////////////////////////////////////////
-// Connected Components
-class TCnCom;
-typedef TVec<TCnCom> TCnComV;
-
-namespace TSnap {
-
-/// Returns (via output parameter CnCom) all nodes that are in the same connected component as node NId.
-template <class PGraph> void GetNodeWcc(const PGraph& Graph, const int& NId, TIntV& CnCom);
-/// Tests whether the Graph is (weakly) connected.
-template <class PGraph> bool IsConnected(const PGraph& Graph);
-/// Tests whether the Graph is weakly connected.
-template <class PGraph> bool IsWeaklyConn(const PGraph& Graph);
-/// Returns a distribution of weakly connected component sizes. ##GetWccSzCnt
-template <class PGraph> void GetWccSzCnt(const PGraph& Graph, TIntPrV& WccSzCnt);
-/// Returns all weakly connected components in a Graph. ##GetWccs
-template <class PGraph> void GetWccs(const PGraph& Graph, TCnComV& CnComV);
-/// Returns a distribution of strongly connected component sizes. ##GetSccSzCnt
-template <class PGraph> void GetSccSzCnt(const PGraph& Graph, TIntPrV& SccSzCnt);
-/// Returns all strongly connected components in a Graph. ##GetSccs
-template <class PGraph> void GetSccs(const PGraph& Graph, TCnComV& CnComV);
-/// Returns the fraction of nodes in the largest weakly connected component of a Graph.
-template <class PGraph> double GetMxWccSz(const PGraph& Graph);
-/// Returns the fraction of nodes in the largest strongly connected component of a Graph.
-template <class PGraph> double GetMxSccSz(const PGraph& Graph);
-
-/// Returns a graph representing the largest weakly connected component on an input Graph. ##GetMxWcc
-template <class PGraph> PGraph GetMxWcc(const PGraph& Graph);
-/// Returns a graph representing the largest strongly connected component on an input Graph.  ##GetMxScc
-template <class PGraph> PGraph GetMxScc(const PGraph& Graph);
-/// Returns a graph representing the largest bi-connected component on an input Graph. ##GetMxBiCon
-template <class PGraph> PGraph GetMxBiCon(const PGraph& Graph);
-
-/// Returns a distribution of bi-connected component sizes. ##GetBiConSzCnt
-void GetBiConSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV);
-/// Returns all bi-connected components of a Graph. ##GetBiCon
-void GetBiCon(const PUNGraph& Graph, TCnComV& BiCnComV);
-/// Returns articulation points of a Graph. ##GetArtPoints
-void GetArtPoints(const PUNGraph& Graph, TIntV& ArtNIdV);
-/// Returns bridge edges of a Graph. ##GetEdgeBridges
-void GetEdgeBridges(const PUNGraph& Graph, TIntPrV& EdgeV);
-/// Distribution of sizes of 1-components, maximal number of components that can be disconnected from the Graph by removing a single edge.  ##Get1CnComSzCnt
-void Get1CnComSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV);
-/// Returns 1-components: maximal connected components of that can be disconnected from the Graph by removing a single edge. ##Get1CnCom
-void Get1CnCom(const PUNGraph& Graph, TCnComV& Cn1ComV);
-/// Returns a graph representing the largest bi-connected component on an undirected Graph. ##GetMxBiCon
-PUNGraph GetMxBiCon(const PUNGraph& Graph, const bool& RenumberNodes=false);
-
-}; // namespace TSnap
-
-//#//////////////////////////////////////////////
-/// Connected Component.
-/// Connected component is defined by a vector of its node IDs.
-class TCnCom {
-public:
-  TIntV NIdV;
-public:
-  TCnCom() : NIdV() { }
-  TCnCom(const TIntV& NodeIdV) : NIdV(NodeIdV) { }
-  TCnCom(const TCnCom& CC) : NIdV(CC.NIdV) { }
-  TCnCom(TSIn& SIn) : NIdV(SIn) { }
-  void Save(TSOut& SOut) const { NIdV.Save(SOut); }
-  TCnCom& operator = (const TCnCom& CC) { if (this != &CC) NIdV = CC.NIdV;  return *this; }
-  bool operator == (const TCnCom& CC) const { return NIdV == CC.NIdV; }
-  bool operator < (const TCnCom& CC) const { return NIdV < CC.NIdV; }
-
-  int Len() const { return NIdV.Len(); }
-  bool Empty() const { return NIdV.Empty(); }
-  void Clr() { NIdV.Clr(); }
-  void Add(const int& NodeId) { NIdV.Add(NodeId); }
-  const TInt& operator [] (const int& NIdN) const { return NIdV[NIdN]; }
-  const TIntV& operator () () const { return NIdV; }
-  TIntV& operator () () { return NIdV; }
-  const TInt& GetVal(const int& NIdN) const { return operator[](NIdN); }
-  void Sort(const bool& Asc = true) { NIdV.Sort(Asc); }
-  bool IsNIdIn(const int& NId) const { return NIdV.SearchBin(NId) != -1; }
-  const TInt& GetRndNId() const { return NIdV[TInt::Rnd.GetUniDevInt(Len())]; }
-  static void Dump(const TCnComV& CnComV, const TStr& Desc=TStr());
-  static void SaveTxt(const TCnComV& CnComV, const TStr& FNm, const TStr& Desc=TStr());
-  /// Depth-First-Search.
-  /// Depending on the stage of DFS a different member function of Visitor class is called.
-  /// See source code for details.
-  template <class PGraph, class TVisitor>
-  static void GetDfsVisitor(const PGraph& Graph, TVisitor& Visitor);
-  int GetPrimHashCd() const { return NIdV.GetPrimHashCd(); }
-  int GetSecHashCd() const { return NIdV.GetSecHashCd(); }
-};
-
-template <class PGraph, class TVisitor>
-void TCnCom::GetDfsVisitor(const PGraph& Graph, TVisitor& Visitor) {
-  const int Nodes = Graph->GetNodes();
-  TSStack<TIntTr> Stack(Nodes);
-  int edge=0, Deg=0, U=0;
-  TIntH ColorH(Nodes);
-  typename PGraph::TObj::TNodeI NI, UI;
-  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    U = NI.GetId();
-    if (! ColorH.IsKey(U)) {         // is unvisited node
-      ColorH.AddDat(U, 1); 
-      Visitor.DiscoverNode(U);       // discover
-      Stack.Push(TIntTr(U, 0, Graph->GetNI(U).GetOutDeg()));
-      while (! Stack.Empty()) {
-        const TIntTr& Top = Stack.Top();
-        U=Top.Val1; edge=Top.Val2; Deg=Top.Val3;
-        typename PGraph::TObj::TNodeI UI = Graph->GetNI(U);
-        Stack.Pop();
-        while (edge != Deg) {
-          const int V = UI.GetOutNId(edge);
-          Visitor.ExamineEdge(U, V); // examine edge
-          if (! ColorH.IsKey(V)) {
-            Visitor.TreeEdge(U, V);  // tree edge
-            Stack.Push(TIntTr(U, ++edge, Deg));
-            U = V;
-            ColorH.AddDat(U, 1); 
-            Visitor.DiscoverNode(U); // discover
-            UI = Graph->GetNI(U);
-            edge = 0;  Deg = UI.GetOutDeg();
-          }
-          else if (ColorH.GetDat(V) == 1) {
-            Visitor.BackEdge(U, V);  // edge upward
-            ++edge; }
-          else {
-            Visitor.FwdEdge(U, V);   // edge downward
-            ++edge; }
-        }
-        ColorH.AddDat(U, 2); 
-        Visitor.FinishNode(U);       // finish
-      }
-    }
-  }
-}
-
-//#//////////////////////////////////////////////
-/// Articulation point Depth-First-Search visitor class.
-class TArtPointVisitor {
-public:
-  THash<TInt, TIntPr> VnLowH;
-  THash<TInt, TInt> ParentH;
-  TIntSet ArtSet;
-  TInt Time;
-public:
-  TArtPointVisitor() { }
-  TArtPointVisitor(const int& Nodes) : VnLowH(Nodes), ParentH(Nodes)  { }
-  void DiscoverNode(int NId) { Time++; VnLowH.AddDat(NId, TIntPr(Time, Time)); }
-  void FinishNode(const int& NId) {
-    if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
-    VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
-    if (VnLowH.GetDat(Prn).Val1==1 && VnLowH.GetDat(NId).Val1!=2) { ArtSet.AddKey(Prn); }
-    if (VnLowH.GetDat(Prn).Val1!=1 && VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
-  void ExamineEdge(const int& NId1, const int& NId2) { }
-  void TreeEdge(const int& NId1, const int& NId2) { ParentH.AddDat(NId2, NId1); }
-  void BackEdge(const int& NId1, const int& NId2) {
-    if (ParentH.IsKey(NId1) && ParentH.GetDat(NId1)!=NId2) {
-      VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); } }
-  void FwdEdge(const int& NId1, const int& NId2) {
-    VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); }
-};
-
-//#//////////////////////////////////////////////
-/// Biconnected componetns Depth-First-Search visitor class.
-class TBiConVisitor {
-public:
-  THash<TInt, TIntPr> VnLowH;
-  THash<TInt, TInt> ParentH;
-  TSStack<TIntPr> Stack;
-  TCnComV CnComV;
-  TIntSet NSet;
-  TInt Time;
-public:
-  TBiConVisitor() { }
-  TBiConVisitor(const int& Nodes) : VnLowH(Nodes), ParentH(Nodes), Stack(Nodes) { }
-  void DiscoverNode(int NId) { Time++; VnLowH.AddDat(NId, TIntPr(Time, Time)); }
-  void FinishNode(const int& NId) {
-    if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
-    VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
-    if (VnLowH.GetDat(NId).Val2 >= VnLowH.GetDat(Prn).Val1) {
-      NSet.Clr(false);
-      while (! Stack.Empty() && Stack.Top() != TIntPr(Prn, NId)) {
-        const TIntPr& Top = Stack.Top();
-        NSet.AddKey(Top.Val1);  NSet.AddKey(Top.Val2); Stack.Pop();  }
-      if (! Stack.Empty()) {
-        const TIntPr& Top = Stack.Top();
-        NSet.AddKey(Top.Val1);  NSet.AddKey(Top.Val2); Stack.Pop(); }
-      TIntV NIdV; NSet.GetKeyV(NIdV);  NIdV.Sort();
-      CnComV.Add(NIdV); } }
-  void ExamineEdge(const int& NId1, const int& NId2) { }
-  void TreeEdge(const int& NId1, const int& NId2) {
-    ParentH.AddDat(NId2, NId1);
-    Stack.Push(TIntPr(NId1, NId2)); }
-  void BackEdge(const int& NId1, const int& NId2) {
-    if (ParentH.IsKey(NId1) && ParentH.GetDat(NId1)!=NId2) {
-      Stack.Push(TIntPr(NId1, NId2));
-      VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); } }
-  void FwdEdge(const int& NId1, const int& NId2) { }
-};
-
-//#//////////////////////////////////////////////
-/// Strongly connected componetns Depht-First-Search visitor class.
-template <class PGraph, bool OnlyCount = false>
-class TSccVisitor {
-public:
-  PGraph Graph;
-  THash<TInt, TIntPr> TmRtH;
-  TSStack<TInt> Stack;
-  TInt Time;
-  TIntH SccCntH;
-  TCnComV CnComV;
-public:
-  TSccVisitor(const PGraph& _Graph) :
-      Graph(_Graph), TmRtH(Graph->GetNodes()), Stack(Graph->GetNodes()) { }
-  void DiscoverNode(int NId) {
-    Time++; TmRtH.AddDat(NId, TIntPr(-Time, NId)); // negative time -- node not yet in any SCC
-    Stack.Push(NId); }
-  void FinishNode(const int& NId) {
-    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-    TIntPr& TmRtN = TmRtH.GetDat(NId);
-    int W = -1, Cnt = 0;
-    for (int i = 0; i < NI.GetOutDeg(); i++) {
-      W = NI.GetOutNId(i);
-      const TIntPr& TmRtW = TmRtH.GetDat(W);
-      if (TmRtW.Val1 < 0) { // node not yet in any SCC
-        TmRtN.Val2 = GetMinDiscTm(TmRtN.Val2, TmRtW.Val2); } }
-    if (TmRtN.Val2 == NId) {
-      if (! OnlyCount) { CnComV.Add(); }
-      do { W = Stack.Top();  Stack.Pop();
-      if (OnlyCount) { Cnt++; } else { CnComV.Last().Add(W); }
-      TmRtH.GetDat(W).Val1 = abs(TmRtH.GetDat(W).Val1); // node is in SCC
-      } while (W != NId);
-      if (OnlyCount) { SccCntH.AddDat(Cnt) += 1; } } }
-  void ExamineEdge(const int& NId1, const int& NId2) { }
-  void TreeEdge(const int& NId1, const int& NId2) { }
-  void BackEdge(const int& NId1, const int& NId2) { }
-  void FwdEdge(const int& NId1, const int& NId2) { }
-  int GetMinDiscTm(const int& NId1, const int& NId2) const {
-    return abs(TmRtH.GetDat(NId1).Val1) < abs(TmRtH.GetDat(NId2).Val1) ? NId1 : NId2; }
-};
-
-//#//////////////////////////////////////////////
-// Implementation
-namespace TSnap {
-
-template <class PGraph> 
-void GetNodeWcc(const PGraph& Graph, const int& NId, TIntV& CnCom) {
-  typename PGraph::TObj::TNodeI NI;
-  THashSet<TInt> VisitedNId(Graph->GetNodes()+1);
-  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
-  VisitedNId.AddKey(NId);
-  NIdQ.Push(NId);
-  while (! NIdQ.Empty()) {
-    const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
-    if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-      for (int e = 0; e < Node.GetInDeg(); e++) {
-        const int InNId = Node.GetInNId(e);
-        if (! VisitedNId.IsKey(InNId)) {
-          NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
-      }
-    }
-    for (int e = 0; e < Node.GetOutDeg(); e++) {
-      const int OutNId = Node.GetOutNId(e);
-      if (! VisitedNId.IsKey(OutNId)) {
-        NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
-    }
-  }
-  CnCom.Gen(VisitedNId.Len(), 0);
-  for (int i = 0; i < VisitedNId.Len(); i++) {
-    CnCom.Add(VisitedNId.GetKey(i));
-  }
-}
-
-template <class PGraph> 
-bool IsConnected(const PGraph& Graph) {
-  return IsWeaklyConn(Graph);
-}
-
-template <class PGraph>
-bool IsWeaklyConn(const PGraph& Graph) {
-  if (Graph->Empty()) {
-    return true;
-  }
-  THashSet<TInt> VisitedNId(Graph->GetNodes());
-  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
-  typename PGraph::TObj::TNodeI NI;
-  // the rest of the nodes
-  NIdQ.Push(Graph->BegNI().GetId());
-  while (! NIdQ.Empty()) {
-    const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
-    if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-      for (int e = 0; e < Node.GetInDeg(); e++) {
-        const int InNId = Node.GetInNId(e);
-        if (! VisitedNId.IsKey(InNId)) { NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
-      }
-    }
-    for (int e = 0; e < Node.GetOutDeg(); e++) {
-      const int OutNId = Node.GetOutNId(e);
-      if (! VisitedNId.IsKey(OutNId)) { NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
-    }
-  }
-  if (VisitedNId.Len() < Graph->GetNodes()) { return false; }
-  return true;
-}
-
-template <class PGraph>
-void GetWccSzCnt(const PGraph& Graph, TIntPrV& WccSzCnt) {
-  THashSet<TInt> VisitedNId(Graph->GetNodes());
-  TIntH SzToCntH;
-  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
-  typename PGraph::TObj::TNodeI NI;
-  int Cnt = 0;
-  // zero degree nodes
-  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    if (NI.GetDeg() == 0) { Cnt++;  VisitedNId.AddKey(NI.GetId()); }
-  }
-  if (Cnt > 0) SzToCntH.AddDat(1, Cnt);
-  // the rest of the nodes
-  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    if (! VisitedNId.IsKey(NI.GetId())) {
-      VisitedNId.AddKey(NI.GetId());
-      NIdQ.Clr(false);  NIdQ.Push(NI.GetId());
-      Cnt = 0;
-      while (! NIdQ.Empty()) {
-        const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
-        if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-          for (int e = 0; e < Node.GetInDeg(); e++) {
-            const int InNId = Node.GetInNId(e);
-            if (! VisitedNId.IsKey(InNId)) { NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
-          }
-        }
-        for (int e = 0; e < Node.GetOutDeg(); e++) {
-          const int OutNId = Node.GetOutNId(e);
-          if (! VisitedNId.IsKey(OutNId)) { NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
-        }
-        Cnt++;
-      }
-      SzToCntH.AddDat(Cnt) += 1;
-    }
-  }
-  SzToCntH.GetKeyDatPrV(WccSzCnt);
-  WccSzCnt.Sort(true);
-}
-
-template <class PGraph>
-void GetWccs(const PGraph& Graph, TCnComV& CnComV) {
-  typename PGraph::TObj::TNodeI NI;
-  THashSet<TInt> VisitedNId(Graph->GetNodes()+1);
-  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
-  TIntV CcNIdV;
-  CnComV.Clr();  CcNIdV.Gen(1);
-  // zero degree nodes
-  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    if (NI.GetDeg() == 0) {
-      const int NId = NI.GetId();
-      VisitedNId.AddKey(NId);
-      CcNIdV[0] = NId;  CnComV.Add(CcNIdV);
-    }
-  }
-  // the rest of the nodes
-  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    const int NId = NI.GetId();
-    if (! VisitedNId.IsKey(NId)) {
-      VisitedNId.AddKey(NId);
-      NIdQ.Clr(false);  NIdQ.Push(NId);
-      CcNIdV.Clr();  CcNIdV.Add(NId);
-      while (! NIdQ.Empty()) {
-        const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
-        if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-          for (int e = 0; e < Node.GetInDeg(); e++) {
-            const int InNId = Node.GetInNId(e);
-            if (! VisitedNId.IsKey(InNId)) {
-              NIdQ.Push(InNId);  VisitedNId.AddKey(InNId);  CcNIdV.Add(InNId); }
-          }
-        }
-        for (int e = 0; e < Node.GetOutDeg(); e++) {
-          const int OutNId = Node.GetOutNId(e);
-          if (! VisitedNId.IsKey(OutNId)) {
-            NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId);  CcNIdV.Add(OutNId); }
-        }
-      }
-      CcNIdV.Sort(true);
-      CnComV.Add(TCnCom(CcNIdV)); // add wcc comoponent
-    }
-  }
-  CnComV.Sort(false);
-}
-
-template <class PGraph>
-void GetSccSzCnt(const PGraph& Graph, TIntPrV& SccSzCnt) {
-  TSccVisitor<PGraph, true> Visitor(Graph);
-  TCnCom::GetDfsVisitor(Graph, Visitor);
-  Visitor.SccCntH.GetKeyDatPrV(SccSzCnt);
-  SccSzCnt.Sort(true);
-}
-
-template <class PGraph>
-void GetSccs(const PGraph& Graph, TCnComV& CnComV) {
-  TSccVisitor<PGraph, false> Visitor(Graph);
-  TCnCom::GetDfsVisitor(Graph, Visitor);
-  CnComV = Visitor.CnComV;
-  CnComV.Sort(false);
-}
-
-template <class PGraph> 
-double GetMxWccSz(const PGraph& Graph) {
-  TCnComV CnComV;
-  GetWccs(Graph, CnComV);
-  if (Graph->GetNodes() == 0) { return 0; }
-  else { return CnComV[0].Len() / double(Graph->GetNodes()); }
-}
-
-template <class PGraph>
-double GetMxSccSz(const PGraph& Graph) {
-  TCnComV CnComV;
-  GetSccs(Graph, CnComV);
-  if (Graph->GetNodes() == 0) { return 0; }
-  else { return CnComV[0].Len() / double(Graph->GetNodes()); }
-}
-  
-template <class PGraph>
-PGraph GetMxWcc(const PGraph& Graph) {
-  TCnComV CnComV;
-  GetWccs(Graph, CnComV);
-  if (CnComV.Empty()) { return PGraph::TObj::New(); }
-  int CcId = 0, MxSz = 0;
-  for (int i = 0; i < CnComV.Len(); i++) {
-    if (MxSz < CnComV[i].Len()) {
-      MxSz=CnComV[i].Len();  CcId=i; }
-  }
-  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
-    return Graph; }
-  else { 
-    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
-  }
-}
-
-template <class PGraph>
-PGraph GetMxScc(const PGraph& Graph) {
-  TCnComV CnComV;
-  GetSccs(Graph, CnComV);
-  if (CnComV.Empty()) { return PGraph::TObj::New(); }
-  int CcId = 0, MxSz = 0;
-  for (int i = 0; i < CnComV.Len(); i++) {
-    if (MxSz < CnComV[i].Len()) {
-      MxSz=CnComV[i].Len();  CcId=i; }
-  }
-  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
-    return Graph; }
-  else { 
-    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
-  }
-}
-
-template <class PGraph>
-PGraph GetMxBiCon(const PGraph& Graph) {
-  TCnComV CnComV;
-  GetBiCon(TSnap::ConvertGraph<PUNGraph, PGraph>(Graph), CnComV);
-  if (CnComV.Empty()) { return PGraph::TObj::New(); }
-  int CcId = 0, MxSz = 0;
-  for (int i = 0; i < CnComV.Len(); i++) {
-    if (MxSz < CnComV[i].Len()) {
-      MxSz=CnComV[i].Len();  CcId=i; }
-  }
-  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
-    return Graph; }
-  else { 
-    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
-  }
-}
-
-} // namespace TSnap
+/////////////////////////////////////////////////
+// Connected Components
+class TCnCom;
+typedef TVec<TCnCom> TCnComV;
+
+namespace TSnap {
+
+/// Returns (via output parameter CnCom) all nodes that are in the same connected component as node NId.
+template <class PGraph> void GetNodeWcc(const PGraph& Graph, const int& NId, TIntV& CnCom);
+/// Tests whether the Graph is (weakly) connected.
+template <class PGraph> bool IsConnected(const PGraph& Graph);
+/// Tests whether the Graph is weakly connected.
+template <class PGraph> bool IsWeaklyConn(const PGraph& Graph);
+/// Returns a distribution of weakly connected component sizes. ##GetWccSzCnt
+template <class PGraph> void GetWccSzCnt(const PGraph& Graph, TIntPrV& WccSzCnt);
+/// Returns all weakly connected components in a Graph. ##GetWccs
+template <class PGraph> void GetWccs(const PGraph& Graph, TCnComV& CnComV);
+/// Returns a distribution of strongly connected component sizes. ##GetSccSzCnt
+template <class PGraph> void GetSccSzCnt(const PGraph& Graph, TIntPrV& SccSzCnt);
+/// Returns all strongly connected components in a Graph. ##GetSccs
+template <class PGraph> void GetSccs(const PGraph& Graph, TCnComV& CnComV);
+/// Returns the fraction of nodes in the largest weakly connected component of a Graph.
+template <class PGraph> double GetMxWccSz(const PGraph& Graph);
+/// Returns the fraction of nodes in the largest strongly connected component of a Graph.
+template <class PGraph> double GetMxSccSz(const PGraph& Graph);
+
+/// Returns a graph representing the largest weakly connected component on an input Graph. ##GetMxWcc
+template <class PGraph> PGraph GetMxWcc(const PGraph& Graph);
+/// Returns a graph representing the largest strongly connected component on an input Graph.  ##GetMxScc
+template <class PGraph> PGraph GetMxScc(const PGraph& Graph);
+/// Returns a graph representing the largest bi-connected component on an input Graph. ##GetMxBiCon
+template <class PGraph> PGraph GetMxBiCon(const PGraph& Graph);
+
+/// Returns a distribution of bi-connected component sizes. ##GetBiConSzCnt
+void GetBiConSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV);
+/// Returns all bi-connected components of a Graph. ##GetBiCon
+void GetBiCon(const PUNGraph& Graph, TCnComV& BiCnComV);
+/// Returns articulation points of a Graph. ##GetArtPoints
+void GetArtPoints(const PUNGraph& Graph, TIntV& ArtNIdV);
+/// Returns bridge edges of a Graph. ##GetEdgeBridges
+void GetEdgeBridges(const PUNGraph& Graph, TIntPrV& EdgeV);
+/// Distribution of sizes of 1-components, maximal number of components that can be disconnected from the Graph by removing a single edge.  ##Get1CnComSzCnt
+void Get1CnComSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV);
+/// Returns 1-components: maximal connected components of that can be disconnected from the Graph by removing a single edge. ##Get1CnCom
+void Get1CnCom(const PUNGraph& Graph, TCnComV& Cn1ComV);
+/// Returns a graph representing the largest bi-connected component on an undirected Graph. ##GetMxBiCon
+PUNGraph GetMxBiCon(const PUNGraph& Graph, const bool& RenumberNodes=false);
+
+}; // namespace TSnap
+
+//#//////////////////////////////////////////////
+/// Connected Component.
+/// Connected component is defined by a vector of its node IDs.
+class TCnCom {
+public:
+  TIntV NIdV;
+public:
+  TCnCom() : NIdV() { }
+  TCnCom(const TIntV& NodeIdV) : NIdV(NodeIdV) { }
+  TCnCom(const TCnCom& CC) : NIdV(CC.NIdV) { }
+  TCnCom(TSIn& SIn) : NIdV(SIn) { }
+  void Save(TSOut& SOut) const { NIdV.Save(SOut); }
+  TCnCom& operator = (const TCnCom& CC) { if (this != &CC) NIdV = CC.NIdV;  return *this; }
+  bool operator == (const TCnCom& CC) const { return NIdV == CC.NIdV; }
+  bool operator < (const TCnCom& CC) const { return NIdV < CC.NIdV; }
+
+  int Len() const { return NIdV.Len(); }
+  bool Empty() const { return NIdV.Empty(); }
+  void Clr() { NIdV.Clr(); }
+  void Add(const int& NodeId) { NIdV.Add(NodeId); }
+  const TInt& operator [] (const int& NIdN) const { return NIdV[NIdN]; }
+  const TIntV& operator () () const { return NIdV; }
+  TIntV& operator () () { return NIdV; }
+  const TInt& GetVal(const int& NIdN) const { return operator[](NIdN); }
+  void Sort(const bool& Asc = true) { NIdV.Sort(Asc); }
+  bool IsNIdIn(const int& NId) const { return NIdV.SearchBin(NId) != -1; }
+  const TInt& GetRndNId() const { return NIdV[TInt::Rnd.GetUniDevInt(Len())]; }
+  static void Dump(const TCnComV& CnComV, const TStr& Desc=TStr());
+  static void SaveTxt(const TCnComV& CnComV, const TStr& FNm, const TStr& Desc=TStr());
+  /// Depth-First-Search.
+  /// Depending on the stage of DFS a different member function of Visitor class is called.
+  /// See source code for details.
+  template <class PGraph, class TVisitor>
+  static void GetDfsVisitor(const PGraph& Graph, TVisitor& Visitor);
+  int GetPrimHashCd() const { return NIdV.GetPrimHashCd(); }
+  int GetSecHashCd() const { return NIdV.GetSecHashCd(); }
+};
+
+template <class PGraph, class TVisitor>
+void TCnCom::GetDfsVisitor(const PGraph& Graph, TVisitor& Visitor) {
+  const int Nodes = Graph->GetNodes();
+  TSStack<TIntTr> Stack(Nodes);
+  int edge=0, Deg=0, U=0;
+  TIntH ColorH(Nodes);
+  typename PGraph::TObj::TNodeI NI, UI;
+  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    U = NI.GetId();
+    if (! ColorH.IsKey(U)) {         // is unvisited node
+      ColorH.AddDat(U, 1); 
+      Visitor.DiscoverNode(U);       // discover
+      Stack.Push(TIntTr(U, 0, Graph->GetNI(U).GetOutDeg()));
+      while (! Stack.Empty()) {
+        const TIntTr& Top = Stack.Top();
+        U=Top.Val1; edge=Top.Val2; Deg=Top.Val3;
+        typename PGraph::TObj::TNodeI UI = Graph->GetNI(U);
+        Stack.Pop();
+        while (edge != Deg) {
+          const int V = UI.GetOutNId(edge);
+          Visitor.ExamineEdge(U, V); // examine edge
+          if (! ColorH.IsKey(V)) {
+            Visitor.TreeEdge(U, V);  // tree edge
+            Stack.Push(TIntTr(U, ++edge, Deg));
+            U = V;
+            ColorH.AddDat(U, 1); 
+            Visitor.DiscoverNode(U); // discover
+            UI = Graph->GetNI(U);
+            edge = 0;  Deg = UI.GetOutDeg();
+          }
+          else if (ColorH.GetDat(V) == 1) {
+            Visitor.BackEdge(U, V);  // edge upward
+            ++edge; }
+          else {
+            Visitor.FwdEdge(U, V);   // edge downward
+            ++edge; }
+        }
+        ColorH.AddDat(U, 2); 
+        Visitor.FinishNode(U);       // finish
+      }
+    }
+  }
+}
+
+//#//////////////////////////////////////////////
+/// Articulation point Depth-First-Search visitor class.
+class TArtPointVisitor {
+public:
+  THash<TInt, TIntPr> VnLowH;
+  THash<TInt, TInt> ParentH;
+  TIntSet ArtSet;
+  TInt Time;
+public:
+  TArtPointVisitor() { }
+  TArtPointVisitor(const int& Nodes) : VnLowH(Nodes), ParentH(Nodes)  { }
+  void DiscoverNode(int NId) { Time++; VnLowH.AddDat(NId, TIntPr(Time, Time)); }
+  void FinishNode(const int& NId) {
+    if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
+    VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
+    const bool IsRoot = ! ParentH.IsKey(Prn); // every component has a root of its own
+    if (IsRoot && VnLowH.GetDat(NId).Val1!=VnLowH.GetDat(Prn).Val1+1) { ArtSet.AddKey(Prn); }
+    if (! IsRoot && VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
+  void ExamineEdge(const int& NId1, const int& NId2) { }
+  void TreeEdge(const int& NId1, const int& NId2) { ParentH.AddDat(NId2, NId1); }
+  void BackEdge(const int& NId1, const int& NId2) {
+    if (ParentH.IsKey(NId1) && ParentH.GetDat(NId1)!=NId2) {
+      VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); } }
+  void FwdEdge(const int& NId1, const int& NId2) {
+    VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); }
+};
+
+//#//////////////////////////////////////////////
+/// Biconnected componetns Depth-First-Search visitor class.
+class TBiConVisitor {
+public:
+  THash<TInt, TIntPr> VnLowH;
+  THash<TInt, TInt> ParentH;
+  TSStack<TIntPr> Stack;
+  TCnComV CnComV;
+  TIntSet NSet;
+  TInt Time;
+public:
+  TBiConVisitor() { }
+  TBiConVisitor(const int& Nodes) : VnLowH(Nodes), ParentH(Nodes), Stack(Nodes) { }
+  void DiscoverNode(int NId) { Time++; VnLowH.AddDat(NId, TIntPr(Time, Time)); }
+  void FinishNode(const int& NId) {
+    if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
+    VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
+    if (VnLowH.GetDat(NId).Val2 >= VnLowH.GetDat(Prn).Val1) {
+      NSet.Clr(false);
+      while (! Stack.Empty() && Stack.Top() != TIntPr(Prn, NId)) {
+        const TIntPr& Top = Stack.Top();
+        NSet.AddKey(Top.Val1);  NSet.AddKey(Top.Val2); Stack.Pop();  }
+      if (! Stack.Empty()) {
+        const TIntPr& Top = Stack.Top();
+        NSet.AddKey(Top.Val1);  NSet.AddKey(Top.Val2); Stack.Pop(); }
+      TIntV NIdV; NSet.GetKeyV(NIdV);  NIdV.Sort();
+      CnComV.Add(NIdV); } }
+  void ExamineEdge(const int& NId1, const int& NId2) { }
+  void TreeEdge(const int& NId1, const int& NId2) {
+    ParentH.AddDat(NId2, NId1);
+    Stack.Push(TIntPr(NId1, NId2)); }
+  void BackEdge(const int& NId1, const int& NId2) {
+    if (ParentH.IsKey(NId1) && ParentH.GetDat(NId1)!=NId2) {
+      Stack.Push(TIntPr(NId1, NId2));
+      VnLowH.GetDat(NId1).Val2 = TMath::Mn(VnLowH.GetDat(NId1).Val2, VnLowH.GetDat(NId2).Val1); } }
+  void FwdEdge(const int& NId1, const int& NId2) { }
+};
+
+//#//////////////////////////////////////////////
+/// Strongly connected componetns Depht-First-Search visitor class.
+template <class PGraph, bool OnlyCount = false>
+class TSccVisitor {
+public:
+  PGraph Graph;
+  THash<TInt, TIntPr> TmRtH;
+  TSStack<TInt> Stack;
+  TInt Time;
+  TIntH SccCntH;
+  TCnComV CnComV;
+public:
+  TSccVisitor(const PGraph& _Graph) :
+      Graph(_Graph), TmRtH(Graph->GetNodes()), Stack(Graph->GetNodes()) { }
+  void DiscoverNode(int NId) {
+    Time++; TmRtH.AddDat(NId, TIntPr(-Time, NId)); // negative time -- node not yet in any SCC
+    Stack.Push(NId); }
+  void FinishNode(const int& NId) {
+    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+    TIntPr& TmRtN = TmRtH.GetDat(NId);
+    int W = -1, Cnt = 0;
+    for (int i = 0; i < NI.GetOutDeg(); i++) {
+      W = NI.GetOutNId(i);
+      const TIntPr& TmRtW = TmRtH.GetDat(W);
+      if (TmRtW.Val1 < 0) { // node not yet in any SCC
+        TmRtN.Val2 = GetMinDiscTm(TmRtN.Val2, TmRtW.Val2); } }
+    if (TmRtN.Val2 == NId) {
+      if (! OnlyCount) { CnComV.Add(); }
+      do { W = Stack.Top();  Stack.Pop();
+      if (OnlyCount) { Cnt++; } else { CnComV.Last().Add(W); }
+      TmRtH.GetDat(W).Val1 = abs(TmRtH.GetDat(W).Val1); // node is in SCC
+      } while (W != NId);
+      if (OnlyCount) { SccCntH.AddDat(Cnt) += 1; } } }
+  void ExamineEdge(const int& NId1, const int& NId2) { }
+  void TreeEdge(const int& NId1, const int& NId2) { }
+  void BackEdge(const int& NId1, const int& NId2) { }
+  void FwdEdge(const int& NId1, const int& NId2) { }
+  int GetMinDiscTm(const int& NId1, const int& NId2) const {
+    return abs(TmRtH.GetDat(NId1).Val1) < abs(TmRtH.GetDat(NId2).Val1) ? NId1 : NId2; }
+};
+
+//#//////////////////////////////////////////////
+// Implementation
+namespace TSnap {
+
+template <class PGraph> 
+void GetNodeWcc(const PGraph& Graph, const int& NId, TIntV& CnCom) {
+  typename PGraph::TObj::TNodeI NI;
+  THashSet<TInt> VisitedNId(Graph->GetNodes()+1);
+  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
+  VisitedNId.AddKey(NId);
+  NIdQ.Push(NId);
+  while (! NIdQ.Empty()) {
+    const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
+    if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
+      for (int e = 0; e < Node.GetInDeg(); e++) {
+        const int InNId = Node.GetInNId(e);
+        if (! VisitedNId.IsKey(InNId)) {
+          NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
+      }
+    }
+    for (int e = 0; e < Node.GetOutDeg(); e++) {
+      const int OutNId = Node.GetOutNId(e);
+      if (! VisitedNId.IsKey(OutNId)) {
+        NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
+    }
+  }
+  CnCom.Gen(VisitedNId.Len(), 0);
+  for (int i = 0; i < VisitedNId.Len(); i++) {
+    CnCom.Add(VisitedNId.GetKey(i));
+  }
+}
+
+template <class PGraph> 
+bool IsConnected(const PGraph& Graph) {
+  return IsWeaklyConn(Graph);
+}
+
+template <class PGraph>
+bool IsWeaklyConn(const PGraph& Graph) {
+  if (Graph->Empty()) {
+    return true;
+  }
+  THashSet<TInt> VisitedNId(Graph->GetNodes());
+  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
+  typename PGraph::TObj::TNodeI NI;
+  // the rest of the nodes
+  NIdQ.Push(Graph->BegNI().GetId());
+  while (! NIdQ.Empty()) {
+    const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
+    if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
+      for (int e = 0; e < Node.GetInDeg(); e++) {
+        const int InNId = Node.GetInNId(e);
+        if (! VisitedNId.IsKey(InNId)) { NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
+      }
+    }
+    for (int e = 0; e < Node.GetOutDeg(); e++) {
+      const int OutNId = Node.GetOutNId(e);
+      if (! VisitedNId.IsKey(OutNId)) { NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
+    }
+  }
+  if (VisitedNId.Len() < Graph->GetNodes()) { return false; }
+  return true;
+}
+
+template <class PGraph>
+void GetWccSzCnt(const PGraph& Graph, TIntPrV& WccSzCnt) {
+  THashSet<TInt> VisitedNId(Graph->GetNodes());
+  TIntH SzToCntH;
+  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
+  typename PGraph::TObj::TNodeI NI;
+  int Cnt = 0;
+  // zero degree nodes
+  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    if (NI.GetDeg() == 0) { Cnt++;  VisitedNId.AddKey(NI.GetId()); }
+  }
+  if (Cnt > 0) SzToCntH.AddDat(1, Cnt);
+  // the rest of the nodes
+  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    if (! VisitedNId.IsKey(NI.GetId())) {
+      VisitedNId.AddKey(NI.GetId());
+      NIdQ.Clr(false);  NIdQ.Push(NI.GetId());
+      Cnt = 0;
+      while (! NIdQ.Empty()) {
+        const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
+        if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
+          for (int e = 0; e < Node.GetInDeg(); e++) {
+            const int InNId = Node.GetInNId(e);
+            if (! VisitedNId.IsKey(InNId)) { NIdQ.Push(InNId);  VisitedNId.AddKey(InNId); }
+          }
+        }
+        for (int e = 0; e < Node.GetOutDeg(); e++) {
+          const int OutNId = Node.GetOutNId(e);
+          if (! VisitedNId.IsKey(OutNId)) { NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId); }
+        }
+        Cnt++;
+      }
+      SzToCntH.AddDat(Cnt) += 1;
+    }
+  }
+  SzToCntH.GetKeyDatPrV(WccSzCnt);
+  WccSzCnt.Sort(true);
+}
+
+template <class PGraph>
+void GetWccs(const PGraph& Graph, TCnComV& CnComV) {
+  typename PGraph::TObj::TNodeI NI;
+  THashSet<TInt> VisitedNId(Graph->GetNodes()+1);
+  TSnapQueue<int> NIdQ(Graph->GetNodes()+1);
+  TIntV CcNIdV;
+  CnComV.Clr();  CcNIdV.Gen(1);
+  // zero degree nodes
+  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    if (NI.GetDeg() == 0) {
+      const int NId = NI.GetId();
+      VisitedNId.AddKey(NId);
+      CcNIdV[0] = NId;  CnComV.Add(CcNIdV);
+    }
+  }
+  // the rest of the nodes
+  for (NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    const int NId = NI.GetId();
+    if (! VisitedNId.IsKey(NId)) {
+      VisitedNId.AddKey(NId);
+      NIdQ.Clr(false);  NIdQ.Push(NId);
+      CcNIdV.Clr();  CcNIdV.Add(NId);
+      while (! NIdQ.Empty()) {
+        const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
+        if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
+          for (int e = 0; e < Node.GetInDeg(); e++) {
+            const int InNId = Node.GetInNId(e);
+            if (! VisitedNId.IsKey(InNId)) {
+              NIdQ.Push(InNId);  VisitedNId.AddKey(InNId);  CcNIdV.Add(InNId); }
+          }
+        }
+        for (int e = 0; e < Node.GetOutDeg(); e++) {
+          const int OutNId = Node.GetOutNId(e);
+          if (! VisitedNId.IsKey(OutNId)) {
+            NIdQ.Push(OutNId);  VisitedNId.AddKey(OutNId);  CcNIdV.Add(OutNId); }
+        }
+      }
+      CcNIdV.Sort(true);
+      CnComV.Add(TCnCom(CcNIdV)); // add wcc comoponent
+    }
+  }
+  CnComV.Sort(false);
+}
+
+template <class PGraph>
+void GetSccSzCnt(const PGraph& Graph, TIntPrV& SccSzCnt) {
+  TSccVisitor<PGraph, true> Visitor(Graph);
+  TCnCom::GetDfsVisitor(Graph, Visitor);
+  Visitor.SccCntH.GetKeyDatPrV(SccSzCnt);
+  SccSzCnt.Sort(true);
+}
+
+template <class PGraph>
+void GetSccs(const PGraph& Graph, TCnComV& CnComV) {
+  TSccVisitor<PGraph, false> Visitor(Graph);
+  TCnCom::GetDfsVisitor(Graph, Visitor);
+  CnComV = Visitor.CnComV;
+  CnComV.Sort(false);
+}
+
+template <class PGraph> 
+double GetMxWccSz(const PGraph& Graph) {
+  TCnComV CnComV;
+  GetWccs(Graph, CnComV);
+  if (Graph->GetNodes() == 0) { return 0; }
+  else { return CnComV[0].Len() / double(Graph->GetNodes()); }
+}
+
+template <class PGraph>
+double GetMxSccSz(const PGraph& Graph) {
+  TCnComV CnComV;
+  GetSccs(Graph, CnComV);
+  if (Graph->GetNodes() == 0) { return 0; }
+  else { return CnComV[0].Len() / double(Graph->GetNodes()); }
+}
+  
+template <class PGraph>
+PGraph GetMxWcc(const PGraph& Graph) {
+  TCnComV CnComV;
+  GetWccs(Graph, CnComV);
+  if (CnComV.Empty()) { return PGraph::TObj::New(); }
+  int CcId = 0, MxSz = 0;
+  for (int i = 0; i < CnComV.Len(); i++) {
+    if (MxSz < CnComV[i].Len()) {
+      MxSz=CnComV[i].Len();  CcId=i; }
+  }
+  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
+    return Graph; }
+  else { 
+    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
+  }
+}
+
+template <class PGraph>
+PGraph GetMxScc(const PGraph& Graph) {
+  TCnComV CnComV;
+  GetSccs(Graph, CnComV);
+  if (CnComV.Empty()) { return PGraph::TObj::New(); }
+  int CcId = 0, MxSz = 0;
+  for (int i = 0; i < CnComV.Len(); i++) {
+    if (MxSz < CnComV[i].Len()) {
+      MxSz=CnComV[i].Len();  CcId=i; }
+  }
+  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
+    return Graph; }
+  else { 
+    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
+  }
+}
+
+template <class PGraph>
+PGraph GetMxBiCon(const PGraph& Graph) {
+  TCnComV CnComV;
+  GetBiCon(TSnap::ConvertGraph<PUNGraph, PGraph>(Graph), CnComV);
+  if (CnComV.Empty()) { return PGraph::TObj::New(); }
+  int CcId = 0, MxSz = 0;
+  for (int i = 0; i < CnComV.Len(); i++) {
+    if (MxSz < CnComV[i].Len()) {
+      MxSz=CnComV[i].Len();  CcId=i; }
+  }
+  if (CnComV[CcId].Len()==Graph->GetNodes()) { 
+    return Graph; }
+  else { 
+    return TSnap::GetSubGraph(Graph, CnComV[CcId]()); 
+  }
+}
+
+} // namespace TSnap
-- 
2.43.0


From eb72fe24aec3ec7207dd0ff6dd1c13de700e6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 059/147] fix: IsWeaklyConn denies that a graph of one node is
 connected

---
 snap/snap-core/cncom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index e0795fc..cf15af2 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -283,6 +283,7 @@ bool IsWeaklyConn(const PGraph& Graph) {
   typename PGraph::TObj::TNodeI NI;
   // the rest of the nodes
   NIdQ.Push(Graph->BegNI().GetId());
+  VisitedNId.AddKey(Graph->BegNI().GetId());
   while (! NIdQ.Empty()) {
     const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
     if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-- 
2.43.0


From 52908eef603e7f0624095a0911b978dc7d59ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 060/147] fix: Get1CnComSzCnt drops every component as large as
 the one it removes

---
 snap/snap-core/cncom.cpp | 286 ++++++++++++++++++++-------------------
 1 file changed, 144 insertions(+), 142 deletions(-)

diff --git a/snap/snap-core/cncom.cpp b/snap/snap-core/cncom.cpp
index feb5f05..4aa2208 100644
--- a/snap/snap-core/cncom.cpp
+++ b/snap/snap-core/cncom.cpp
@@ -1,142 +1,144 @@
-/////////////////////////////////////////////////
-// Connected Components
-void TCnCom::Dump(const TCnComV& CnComV, const TStr& Desc) {
-  if (! Desc.Empty()) { printf("%s:\n", Desc.CStr()); }
-  for (int cc = 0; cc < CnComV.Len(); cc++) {
-    const TIntV& NIdV = CnComV[cc].NIdV;
-    printf("%d : ", NIdV.Len());
-    for (int i = 0; i < NIdV.Len(); i++) { printf(" %d", NIdV[i].Val); }
-    printf("\n");
-  }
-}
-
-void TCnCom::SaveTxt(const TCnComV& CnComV, const TStr& FNm, const TStr& Desc) {
-  FILE *F = fopen(FNm.CStr(), "wt");
-  if (! Desc.Empty()) { fprintf(F, "# %s\n", Desc.CStr()); }
-  fprintf(F, "# Connected Components:\t%d\n", CnComV.Len());
-  fprintf(F, "# Connected components (format: <Size>\\t<NodeId1>\\t<NodeId2>...)\n");
-  for (int cc = 0; cc < CnComV.Len(); cc++) {
-    const TIntV& NIdV = CnComV[cc].NIdV;
-    fprintf(F, "%d", NIdV.Len());
-    for (int i = 0; i < NIdV.Len(); i++) { fprintf(F, "\t%d", NIdV[i].Val); }
-    fprintf(F, "\n");
-  }
-  fclose(F);
-}
-
-/////////////////////////////////////////////////
-// Connected Components
-namespace TSnap {
-
-void GetBiConSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV) {
-  TCnComV BiCnComV;
-  GetBiCon(Graph, BiCnComV);
-  TIntH SzCntH;
-  for (int c =0; c < BiCnComV.Len(); c++) {
-    SzCntH.AddDat(BiCnComV[c].Len()) += 1;
-  }
-  SzCntH.GetKeyDatPrV(SzCntV);
-  SzCntV.Sort();
-}
-
-void GetBiCon(const PUNGraph& Graph, TCnComV& BiCnComV) {
-  TBiConVisitor Visitor(Graph->GetNodes());
-  TCnCom::GetDfsVisitor(Graph, Visitor);
-  BiCnComV = Visitor.CnComV;
-}
-
-void GetArtPoints(const PUNGraph& Graph, TIntV& ArtNIdV) {
-  TArtPointVisitor Visitor(Graph->GetNodes());
-  TCnCom::GetDfsVisitor(Graph, Visitor);
-  Visitor.ArtSet.GetKeyV(ArtNIdV);
-}
-
-// bridges are edges in the size 2 biconnected components
-void GetEdgeBridges(const PUNGraph& Graph, TIntPrV& EdgeV) {
-  TCnComV BiCnComV;
-  GetBiCon(Graph, BiCnComV);
-  TIntPrSet EdgeSet;
-  for (int c = 0; c < BiCnComV.Len(); c++) {
-    const TIntV& NIdV = BiCnComV[c].NIdV; 
-    if (NIdV.Len() == 2) {
-      EdgeSet.AddKey(TIntPr(TMath::Mn(NIdV[0], NIdV[1]), TMath::Mx(NIdV[0], NIdV[1]))); 
-    }
-  }
-  EdgeSet.GetKeyV(EdgeV);
-}
-
-// Algorithm: Find all bridges, remove them from the graph, find largest component K
-// now add all bridges that do not touch K, find connected components
-void Get1CnComSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV) {
-  //TCnCom::GetWccCnt(Graph, SzCntV);  IAssertR(SzCntV.Len() == 1, "Graph is not connected.");
-  TIntPrV EdgeV;
-  GetEdgeBridges(Graph, EdgeV);
-  if (EdgeV.Empty()) { SzCntV.Clr(false); return; }
-  PUNGraph TmpG = TUNGraph::New();
-  *TmpG = *Graph;
-  for (int e = 0; e < EdgeV.Len(); e++) {
-    TmpG->DelEdge(EdgeV[e].Val1, EdgeV[e].Val2);  }
-  TCnComV CnComV;  GetWccs(TmpG, CnComV);
-  IAssert(CnComV.Len() >= 2);
-  const TIntV& MxWcc = CnComV[0].NIdV;
-  TIntSet MxCcSet(MxWcc.Len());
-  for (int i = 0; i < MxWcc.Len(); i++) { 
-    MxCcSet.AddKey(MxWcc[i]); }
-  // create new graph: bridges not touching MxCc of G with no bridges
-  for (int e = 0; e < EdgeV.Len(); e++) {
-    if (! MxCcSet.IsKey(EdgeV[e].Val1) &&  ! MxCcSet.IsKey(EdgeV[e].Val2)) {
-      TmpG->AddEdge(EdgeV[e].Val1, EdgeV[e].Val2); }
-  }
-  GetWccSzCnt(TmpG, SzCntV);
-  for (int c = 0; c < SzCntV.Len(); c++) {
-    if (SzCntV[c].Val1 == MxCcSet.Len()) { 
-      SzCntV.Del(c);  break; }
-  }
-}
-
-// get the node ids in 1-connected components 
-void Get1CnCom(const PUNGraph& Graph, TCnComV& Cn1ComV) {
-  //TCnCom::GetWccCnt(Graph, SzCntV);  IAssertR(SzCntV.Len() == 1, "Graph is not connected.");
-  TIntPrV EdgeV;
-  GetEdgeBridges(Graph, EdgeV);
-  if (EdgeV.Empty()) { Cn1ComV.Clr(false); return; }
-  PUNGraph TmpG = TUNGraph::New();
-  *TmpG = *Graph;
-  for (int e = 0; e < EdgeV.Len(); e++) {
-    TmpG->DelEdge(EdgeV[e].Val1, EdgeV[e].Val2);  }
-  TCnComV CnComV;  GetWccs(TmpG, CnComV);
-  IAssert(CnComV.Len() >= 2);
-  const TIntV& MxWcc = CnComV[0].NIdV;
-  TIntSet MxCcSet(MxWcc.Len());
-  for (int i = 0; i < MxWcc.Len(); i++) { 
-    MxCcSet.AddKey(MxWcc[i]); }
-  // create new graph: bridges not touching MxCc of G with no bridges
-  for (int e = 0; e < EdgeV.Len(); e++) {
-    if (! MxCcSet.IsKey(EdgeV[e].Val1) &&  ! MxCcSet.IsKey(EdgeV[e].Val2)) {
-      TmpG->AddEdge(EdgeV[e].Val1, EdgeV[e].Val2); }
-  }
-  GetWccs(TmpG, Cn1ComV);
-  // remove the largest component of G
-  for (int c = 0; c < Cn1ComV.Len(); c++) {
-    if (MxCcSet.IsKey(Cn1ComV[c].NIdV[0])) {
-      Cn1ComV.Del(c);  break; }
-  }
-}
-
-PUNGraph GetMxBiCon(const PUNGraph& Graph, const bool& RenumberNodes) {
-  TCnComV CnComV;
-  GetBiCon(Graph, CnComV);
-  if (CnComV.Empty()) { 
-    return PUNGraph(); 
-  }
-  int CcId = 0, MxSz = 0;
-  for (int i = 0; i < CnComV.Len(); i++) {
-    if (MxSz < CnComV[i].Len()) {
-      MxSz = CnComV[i].Len();  
-      CcId=i; 
-    }
-  }
-  return TSnap::GetSubGraph(Graph, CnComV[CcId](), RenumberNodes);
-}
-
-} // namespace TSnap
+/////////////////////////////////////////////////
+// Connected Components
+void TCnCom::Dump(const TCnComV& CnComV, const TStr& Desc) {
+  if (! Desc.Empty()) { printf("%s:\n", Desc.CStr()); }
+  for (int cc = 0; cc < CnComV.Len(); cc++) {
+    const TIntV& NIdV = CnComV[cc].NIdV;
+    printf("%d : ", NIdV.Len());
+    for (int i = 0; i < NIdV.Len(); i++) { printf(" %d", NIdV[i].Val); }
+    printf("\n");
+  }
+}
+
+void TCnCom::SaveTxt(const TCnComV& CnComV, const TStr& FNm, const TStr& Desc) {
+  FILE *F = fopen(FNm.CStr(), "wt");
+  if (! Desc.Empty()) { fprintf(F, "# %s\n", Desc.CStr()); }
+  fprintf(F, "# Connected Components:\t%d\n", CnComV.Len());
+  fprintf(F, "# Connected components (format: <Size>\\t<NodeId1>\\t<NodeId2>...)\n");
+  for (int cc = 0; cc < CnComV.Len(); cc++) {
+    const TIntV& NIdV = CnComV[cc].NIdV;
+    fprintf(F, "%d", NIdV.Len());
+    for (int i = 0; i < NIdV.Len(); i++) { fprintf(F, "\t%d", NIdV[i].Val); }
+    fprintf(F, "\n");
+  }
+  fclose(F);
+}
+
+/////////////////////////////////////////////////
+// Connected Components
+namespace TSnap {
+
+void GetBiConSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV) {
+  TCnComV BiCnComV;
+  GetBiCon(Graph, BiCnComV);
+  TIntH SzCntH;
+  for (int c =0; c < BiCnComV.Len(); c++) {
+    SzCntH.AddDat(BiCnComV[c].Len()) += 1;
+  }
+  SzCntH.GetKeyDatPrV(SzCntV);
+  SzCntV.Sort();
+}
+
+void GetBiCon(const PUNGraph& Graph, TCnComV& BiCnComV) {
+  TBiConVisitor Visitor(Graph->GetNodes());
+  TCnCom::GetDfsVisitor(Graph, Visitor);
+  BiCnComV = Visitor.CnComV;
+}
+
+void GetArtPoints(const PUNGraph& Graph, TIntV& ArtNIdV) {
+  TArtPointVisitor Visitor(Graph->GetNodes());
+  TCnCom::GetDfsVisitor(Graph, Visitor);
+  Visitor.ArtSet.GetKeyV(ArtNIdV);
+}
+
+// bridges are edges in the size 2 biconnected components
+void GetEdgeBridges(const PUNGraph& Graph, TIntPrV& EdgeV) {
+  TCnComV BiCnComV;
+  GetBiCon(Graph, BiCnComV);
+  TIntPrSet EdgeSet;
+  for (int c = 0; c < BiCnComV.Len(); c++) {
+    const TIntV& NIdV = BiCnComV[c].NIdV; 
+    if (NIdV.Len() == 2) {
+      EdgeSet.AddKey(TIntPr(TMath::Mn(NIdV[0], NIdV[1]), TMath::Mx(NIdV[0], NIdV[1]))); 
+    }
+  }
+  EdgeSet.GetKeyV(EdgeV);
+}
+
+// Algorithm: Find all bridges, remove them from the graph, find largest component K
+// now add all bridges that do not touch K, find connected components
+void Get1CnComSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV) {
+  //TCnCom::GetWccCnt(Graph, SzCntV);  IAssertR(SzCntV.Len() == 1, "Graph is not connected.");
+  TIntPrV EdgeV;
+  GetEdgeBridges(Graph, EdgeV);
+  if (EdgeV.Empty()) { SzCntV.Clr(false); return; }
+  PUNGraph TmpG = TUNGraph::New();
+  *TmpG = *Graph;
+  for (int e = 0; e < EdgeV.Len(); e++) {
+    TmpG->DelEdge(EdgeV[e].Val1, EdgeV[e].Val2);  }
+  TCnComV CnComV;  GetWccs(TmpG, CnComV);
+  IAssert(CnComV.Len() >= 2);
+  const TIntV& MxWcc = CnComV[0].NIdV;
+  TIntSet MxCcSet(MxWcc.Len());
+  for (int i = 0; i < MxWcc.Len(); i++) { 
+    MxCcSet.AddKey(MxWcc[i]); }
+  // create new graph: bridges not touching MxCc of G with no bridges
+  for (int e = 0; e < EdgeV.Len(); e++) {
+    if (! MxCcSet.IsKey(EdgeV[e].Val1) &&  ! MxCcSet.IsKey(EdgeV[e].Val2)) {
+      TmpG->AddEdge(EdgeV[e].Val1, EdgeV[e].Val2); }
+  }
+  GetWccSzCnt(TmpG, SzCntV);
+  for (int c = 0; c < SzCntV.Len(); c++) {
+    if (SzCntV[c].Val1 == MxCcSet.Len()) { 
+      if (SzCntV[c].Val2 > 1) { SzCntV[c].Val2--; } // others of that size stay
+      else { SzCntV.Del(c); }
+      break; }
+  }
+}
+
+// get the node ids in 1-connected components 
+void Get1CnCom(const PUNGraph& Graph, TCnComV& Cn1ComV) {
+  //TCnCom::GetWccCnt(Graph, SzCntV);  IAssertR(SzCntV.Len() == 1, "Graph is not connected.");
+  TIntPrV EdgeV;
+  GetEdgeBridges(Graph, EdgeV);
+  if (EdgeV.Empty()) { Cn1ComV.Clr(false); return; }
+  PUNGraph TmpG = TUNGraph::New();
+  *TmpG = *Graph;
+  for (int e = 0; e < EdgeV.Len(); e++) {
+    TmpG->DelEdge(EdgeV[e].Val1, EdgeV[e].Val2);  }
+  TCnComV CnComV;  GetWccs(TmpG, CnComV);
+  IAssert(CnComV.Len() >= 2);
+  const TIntV& MxWcc = CnComV[0].NIdV;
+  TIntSet MxCcSet(MxWcc.Len());
+  for (int i = 0; i < MxWcc.Len(); i++) { 
+    MxCcSet.AddKey(MxWcc[i]); }
+  // create new graph: bridges not touching MxCc of G with no bridges
+  for (int e = 0; e < EdgeV.Len(); e++) {
+    if (! MxCcSet.IsKey(EdgeV[e].Val1) &&  ! MxCcSet.IsKey(EdgeV[e].Val2)) {
+      TmpG->AddEdge(EdgeV[e].Val1, EdgeV[e].Val2); }
+  }
+  GetWccs(TmpG, Cn1ComV);
+  // remove the largest component of G
+  for (int c = 0; c < Cn1ComV.Len(); c++) {
+    if (MxCcSet.IsKey(Cn1ComV[c].NIdV[0])) {
+      Cn1ComV.Del(c);  break; }
+  }
+}
+
+PUNGraph GetMxBiCon(const PUNGraph& Graph, const bool& RenumberNodes) {
+  TCnComV CnComV;
+  GetBiCon(Graph, CnComV);
+  if (CnComV.Empty()) { 
+    return PUNGraph(); 
+  }
+  int CcId = 0, MxSz = 0;
+  for (int i = 0; i < CnComV.Len(); i++) {
+    if (MxSz < CnComV[i].Len()) {
+      MxSz = CnComV[i].Len();  
+      CcId=i; 
+    }
+  }
+  return TSnap::GetSubGraph(Graph, CnComV[CcId](), RenumberNodes);
+}
+
+} // namespace TSnap
-- 
2.43.0


From b095361099820c0dc4fcd6669af92d6b11fb41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 061/147] fix: GetTriads counts self loops of undirected graphs
 as neighbours

---
 snap/snap-core/triad.h | 2335 ++++++++++++++++++++--------------------
 1 file changed, 1168 insertions(+), 1167 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 13e9d28..b0beecf 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -1,1167 +1,1168 @@
-#ifndef TRIAD_H
-#define TRIAD_H
-
-#include <iostream>
-#include <vector>
-#include <random>
-#include <set>
-
-namespace TSnap {
-
-    /////////////////////////////////////////////////
-    // Triads and clustering coefficient
-
-    /// Computes the average clustering coefficient as defined in Watts and Strogatz, Collective dynamics of 'small-world' networks. ##TSnap::GetClustCf
-    template <class PGraph> double GetClustCf(const PGraph& Graph,  int64_t SampleNodes=-1);
-    /// Computes the distribution of average clustering coefficient. ##TSnap::GetClustCf1
-    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV,  int64_t SampleNodes=-1);
-    /// Computes the distribution of average clustering coefficient as well as the number of open and closed triads in the graph. ##TSnap::GetClustCf2
-    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV, int64& ClosedTriadsX, int64& OpenTriadsX,  int64_t SampleNodes=-1);
-    /// Returns clustering coefficient of a particular node. ##TSnap::GetNodeClustCf
-    template <class PGraph> double GetNodeClustCf(const PGraph& Graph, const int& NId);
-    /// Computes clustering coefficient of each node of the Graph. ##TSnap::GetClustCf1
-    template <class PGraph> void GetNodeClustCf(const PGraph& Graph, TIntFltH& NIdCCfH);
-    template <class PGraph> void GetNodeClustCf_scala(const PGraph& Graph, TIntFltH& NIdCCfH);
-    template <class PGraph> void GetNodeClustCf(const PGraph& Graph, std::vector<float>& NIdCCfH);
-
-    /// Returns the number of triangles in a graph. ##TSnap::GetTriads
-    template <class PGraph> int64 GetTriads(const PGraph& Graph,  int64_t SampleNodes=-1);
-    /// Computes the number of Closed and Open triads. ##TSnap::GetTriads1
-    template <class PGraph> int64 GetTriads(const PGraph& Graph, int64& ClosedTriadsX, int64& OpenTriadsX,  int64_t SampleNodes);
-    /// Computes the number of open and close triads for every node of the network. ##TSnap::GetTriads2
-    template <class PGraph> void GetTriads(const PGraph& Graph, TIntTrV& NIdCOTriadV,  int64_t SampleNodes=-1);
-    template <class PGraph> void GetTriads_v0(const PGraph& Graph, TIntTrV& NIdCOTriadV, int SampleNodes=-1);
-    template <class PGraph> void GetTriads(const PGraph& Graph, std::vector<TUInt64Tr>& NIdCOTriadV,  int64_t SampleNodes=-1);
-    /// Counts the number of edges that participate in at least one triad. ##TSnap::GetTriadEdges
-    template <class PGraph> int GetTriadEdges(const PGraph& Graph, int SampleEdges=-1);
-
-    /// Returns the number of undirected triads a node \c NId participates in. ##TSnap::GetNodeTriads
-    template <class PGraph> int GetNodeTriads(const PGraph& Graph, const int& NId);
-    /// Returns number of Open and Closed triads a node \c NId participates in. ##TSnap::GetNodeTriads1
-    template <class PGraph> int GetNodeTriads(const PGraph& Graph, const int& NId, int& ClosedNTriadsX, int& OpenNTriadsX);
-    /// Returns the number of triads between a node \c NId and a subset of its neighbors \c GroupSet. ##TSnap::GetNodeTriads3
-    template <class PGraph>
-        int GetNodeTriads(const PGraph& Graph, const int& NId, const TIntSet& GroupSet, int& InGroupEdgesX, int& InOutGroupEdgesX, int& OutGroupEdgesX);
-    /// Triangle Participation Ratio: For each node counts how many triangles it participates in and then returns a set of pairs (number of triangles, number of such nodes). ##TSnap::GetTriadParticip
-    template <class PGraph> void GetTriadParticip(const PGraph& Graph, TIntPrV& TriadCntV);
-
-    /// Returns a number of shared neighbors between a pair of nodes NId1 and NId2.
-    template<class PGraph> int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2);
-    /// Returns the shared neighbors between a pair of nodes NId1 and NId2.
-    template<class PGraph> int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV);
-    /// Returns the number of length 2 directed paths between a pair of nodes NId1, NId2 (NId1 --> U --> NId2).
-    template<class PGraph> int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2);
-    /// Returns the 2 directed paths between a pair of nodes NId1, NId2 (NId1 --> U --> NId2). ##TSnap::GetLen2Paths
-    template<class PGraph> int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV);
-    /// Returns the number of triangles in graph \c Graph, original version
-    template<class PGraph> int64 CountTriangles(const PGraph& Graph);
-    /// Returns the number of triangles in graph \c Graph, newer version
-    template<class PGraph> int64 GetTriangleCnt(const PGraph& Graph);
-    /// Merges neighbors.
-    template<class PGraph> void MergeNbrs(TIntV& NeighbourV, const typename PGraph::TObj::TNodeI& NI);
-
-    template<class PGraph> void GetMergeSortedV(TIntV& NeighbourV, typename PGraph::TObj::TNodeI NI);
-
-    /// Returns sorted vector \c NbrV containing unique in or out neighbors of node \c NId in graph \c Graph
-    template <class PGraph> void GetUniqueNbrV(const PGraph& Graph, const int& NId, TIntV& NbrV);
-    template <class PGraph> void GetUniqueNbrV(const PGraph& Graph, const  int64_t& NId, std::vector< int64_t>& NbrV);
-
-    /// Returns the number of common elements in two sorted TInt vectors
-    int GetCommon(TIntV& A, TIntV& B);
-     int64_t GetCommon(const std::vector< int64_t>& A, const std::vector< int64_t>& B);
-
-    /////////////////////////////////////////////////
-    // Implementation
-
-    template<class PGraph> void GetMergeSortedV(TIntV& NeighbourV, typename PGraph::TObj::TNodeI NI) {
-        int j = 0;
-        int k = 0;
-        int prev = -1;
-        int indeg = NI.GetInDeg();
-        int outdeg = NI.GetOutDeg();
-        if (indeg > 0  &&  outdeg > 0) {
-            int v1 = NI.GetInNId(j);
-            int v2 = NI.GetOutNId(k);
-            while (1) {
-                if (v1 <= v2) {
-                    if (prev != v1) {
-                        NeighbourV.Add(v1);
-                        prev = v1;
-                    }
-                    j += 1;
-                    if (j >= indeg) {
-                        break;
-                    }
-                    v1 = NI.GetInNId(j);
-                } else {
-                    if (prev != v2) {
-                        NeighbourV.Add(v2);
-                        prev = v2;
-                    }
-                    k += 1;
-                    if (k >= outdeg) {
-                        break;
-                    }
-                    v2 = NI.GetOutNId(k);
-                }
-            }
-        }
-        while (j < indeg) {
-            int v = NI.GetInNId(j);
-            if (prev != v) {
-                NeighbourV.Add(v);
-                prev = v;
-            }
-            j += 1;
-        }
-        while (k < outdeg) {
-            int v = NI.GetOutNId(k);
-            if (prev != v) {
-                NeighbourV.Add(v);
-                prev = v;
-            }
-            k += 1;
-        }
-    }
-
-
-    template <class PGraph> double GetClustCf(const PGraph& Graph,  int64_t SampleNodes) {
-        std::vector<TUInt64Tr> NIdCOTriadV;
-        GetTriads(Graph, NIdCOTriadV, SampleNodes);
-        if (NIdCOTriadV.empty()) {
-            return 0.0;
-        }
-        double SumCcf = 0.0;
-        for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
-            const double OpenCnt = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-            if (OpenCnt > 0) {
-                SumCcf += NIdCOTriadV[i].Val2() / OpenCnt; }
-        }
-        IAssert(SumCcf>=0);
-        return SumCcf / double(NIdCOTriadV.size());
-    }
-
-    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV,  int64_t SampleNodes) {
-        TIntTrV NIdCOTriadV;
-        GetTriads(Graph, NIdCOTriadV, SampleNodes);
-        THash<TInt, TFltPr> DegSumCnt;
-        double SumCcf = 0.0;
-        for (int i = 0; i < NIdCOTriadV.Len(); i++) {
-            const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-            const double Ccf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-            TFltPr& SumCnt = DegSumCnt.AddDat(Graph->GetNI(NIdCOTriadV[i].Val1).GetDeg());
-            SumCnt.Val1 += Ccf;
-            SumCnt.Val2 += 1;
-            SumCcf += Ccf;
-        }
-        // get average clustering coefficient for each degree
-        DegToCCfV.Gen(DegSumCnt.Len(), 0);
-        for (int d = 0; d  < DegSumCnt.Len(); d++) {
-            DegToCCfV.Add(TFltPr(DegSumCnt.GetKey(d).Val, double(DegSumCnt[d].Val1()/DegSumCnt[d].Val2())));
-        }
-        DegToCCfV.Sort();
-        return SumCcf / double(NIdCOTriadV.Len());
-    }
-
-    template <class PGraph>
-        double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV, int64& ClosedTriads, int64& OpenTriads,  int64_t SampleNodes) {
-            TIntTrV NIdCOTriadV;
-            GetTriads(Graph, NIdCOTriadV, SampleNodes);
-            THash<TInt, TFltPr> DegSumCnt;
-            double SumCcf = 0.0;
-            int64 closedTriads = 0;
-            int64 openTriads = 0;
-            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
-                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-                const double Ccf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-                closedTriads += NIdCOTriadV[i].Val2;
-                openTriads += NIdCOTriadV[i].Val3;
-                TFltPr& SumCnt = DegSumCnt.AddDat(Graph->GetNI(NIdCOTriadV[i].Val1).GetDeg());
-                SumCnt.Val1 += Ccf;
-                SumCnt.Val2 += 1;
-                SumCcf += Ccf;
-            }
-            // get average clustering coefficient for each degree
-            DegToCCfV.Gen(DegSumCnt.Len(), 0);
-            for (int d = 0; d  < DegSumCnt.Len(); d++) {
-                DegToCCfV.Add(TFltPr(DegSumCnt.GetKey(d).Val, DegSumCnt[d].Val1()/DegSumCnt[d].Val2()));
-            }
-            //if(closedTriads/3 > (uint64) TInt::Mx) { WarnNotify(TStr::Fmt("[%s line %d] %g closed triads.\n", __FILE__, __LINE__, float(closedTriads/3)).CStr());  }
-            //if(openTriads > (uint64) TInt::Mx) { WarnNotify(TStr::Fmt("[%s line %d] %g open triads.\n", __FILE__, __LINE__, float(openTriads/3)).CStr());  }
-            ClosedTriads = closedTriads/int64(3); // each triad is counted 3 times
-            OpenTriads = openTriads;
-            DegToCCfV.Sort();
-            return SumCcf / double(NIdCOTriadV.Len());
-        }
-
-    template <class PGraph>
-        double GetNodeClustCf(const PGraph& Graph, const int& NId) {
-            int Open, Closed;
-            GetNodeTriads(Graph, NId, Open, Closed);
-            //const double Deg = Graph->GetNI(NId).GetDeg();
-            return (Open+Closed)==0 ? 0 : double(Open)/double(Open+Closed);
-        }
-
-    template <class PGraph>
-        void GetNodeClustCf(const PGraph& Graph, std::vector<float>& NIdCCfH) {
-            std::vector<TUInt64Tr> NIdCOTriadV;
-            GetTriads(Graph, NIdCOTriadV);
-            NIdCCfH.clear();
-            NIdCCfH.reserve(Graph->GetNodes());
-            for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
-                const  int64_t D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-                NIdCCfH[NIdCOTriadV[i].Val1] = CCf;
-            }
-        }
-
-    template <class PGraph>
-        void GetNodeClustCf(const PGraph& Graph, TIntFltH& NIdCCfH) {
-            TIntTrV NIdCOTriadV;
-            GetTriads(Graph, NIdCOTriadV);
-            NIdCCfH.Clr(false);
-            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
-                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-                NIdCCfH.AddDat(NIdCOTriadV[i].Val1, CCf);
-            }
-        }
-
-    template <class PGraph>
-        void GetNodeClustCf_scala(const PGraph& Graph, TIntFltH& NIdCCfH) {
-            TIntTrV NIdCOTriadV;
-            GetTriads_v0(Graph, NIdCOTriadV);
-            NIdCCfH.Clr(false);
-            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
-                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
-                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-                NIdCCfH.AddDat(NIdCOTriadV[i].Val1, CCf);
-            }
-        }
-
-    template <class PGraph>
-        int64 GetTriads(const PGraph& Graph,  int64_t SampleNodes) {
-            int64 OpenTriads, ClosedTriads;
-            return GetTriads(Graph, ClosedTriads, OpenTriads, SampleNodes);
-        }
-
-    template <class PGraph>
-        int64 GetTriads(const PGraph& Graph, int64& ClosedTriads, int64& OpenTriads,  int64_t SampleNodes) {
-            std::vector<TUInt64Tr> NIdCOTriadV;
-            GetTriads(Graph, NIdCOTriadV, SampleNodes);
-            uint64 closedTriads = 0;
-            uint64 openTriads = 0;
-            for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
-                closedTriads += NIdCOTriadV[i].Val2;
-                openTriads += NIdCOTriadV[i].Val3;
-            }
-            ClosedTriads = int64(closedTriads/3); // each triad is counted 3 times
-            OpenTriads = int64(openTriads);
-            return ClosedTriads;
-        }
-
-    // Function pretends that the graph is undirected (count unique connected triples of nodes)
-    // This implementation is slower, it uses hash tables directly
-    template <class PGraph>
-        void GetTriads_v0(const PGraph& Graph, TIntTrV& NIdCOTriadV, int SampleNodes) {
-            const bool IsDir = Graph->HasFlag(gfDirected);
-            TIntSet NbrH;
-            TIntV NIdV;
-            TRnd Rnd(0);
-
-            Graph->GetNIdV(NIdV);
-            NIdV.Shuffle(Rnd);
-            if (SampleNodes == -1) {
-                SampleNodes = Graph->GetNodes(); }
-            NIdCOTriadV.Clr(false);
-            NIdCOTriadV.Reserve(SampleNodes);
-            for (int node = 0; node < SampleNodes; node++) {
-                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NIdV[node]);
-                if (NI.GetDeg() < 2) {
-                    NIdCOTriadV.Add(TIntTr(NI.GetId(), 0, 0)); // zero triangles
-                    continue;
-                }
-                // find neighborhood
-                NbrH.Clr(false);
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    if (NI.GetOutNId(e) != NI.GetId()) {
-                        NbrH.AddKey(NI.GetOutNId(e)); }
-                }
-                if (IsDir) {
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        if (NI.GetInNId(e) != NI.GetId()) {
-                            NbrH.AddKey(NI.GetInNId(e)); }
-                    }
-                }
-                // count connected neighbors
-                int OpenCnt=0, CloseCnt=0;
-                for (int srcNbr = 0; srcNbr < NbrH.Len(); srcNbr++) {
-                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrH.GetKey(srcNbr));
-                    for (int dstNbr = srcNbr+1; dstNbr < NbrH.Len(); dstNbr++) {
-                        const int dstNId = NbrH.GetKey(dstNbr);
-                        if (SrcNode.IsNbrNId(dstNId)) { CloseCnt++; } // is edge
-                        else { OpenCnt++; }
-                    }
-                }
-                IAssert(2*(OpenCnt+CloseCnt) == NbrH.Len()*(NbrH.Len()-1));
-                NIdCOTriadV.Add(TIntTr(NI.GetId(), CloseCnt, OpenCnt));
-            }
-        }
-
-    // Function pretends that the graph is undirected (count unique connected triples of nodes)
-    // This implementation is faster, it converts hash tables to vectors
-    template <class PGraph>
-        void GetTriads(const PGraph& Graph, TIntTrV& NIdCOTriadV,  int64_t SampleNodes) {
-            const bool IsDir = Graph->HasFlag(gfDirected);
-            TIntSet NbrH;
-            TIntV NIdV;
-            //TRnd Rnd(0);
-            TRnd Rnd(1);
-            int NNodes;
-            TIntV Nbrs;
-            int NId;
-
-            int64 hcount;
-
-            hcount = 0;
-
-            NNodes = Graph->GetNodes();
-            Graph->GetNIdV(NIdV);
-            NIdV.Shuffle(Rnd);
-            if (SampleNodes == -1) {
-                SampleNodes = NNodes;
-            }
-
-            int MxId = -1;
-            for (int i = 0; i < NNodes; i++) {
-                if (NIdV[i] > MxId) {
-                    MxId = NIdV[i];
-                }
-            }
-
-            TVec<TIntV> NbrV(MxId + 1);
-
-            if (IsDir) {
-                // get in and out neighbors
-                for (int node = 0; node < NNodes; node++) {
-                    int NId = NIdV[node];
-                    NbrV[NId] = TIntV();
-                    GetUniqueNbrV(Graph, NId, NbrV[NId]);
-                }
-            } else {
-                // get only out neighbors
-                for (int node = 0; node < NNodes; node++) {
-                    int NId = NIdV[node];
-                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-                    NbrV[NId] = TIntV();
-                    NbrV[NId].Reserve(NI.GetOutDeg());
-                    NbrV[NId].Reduce(0);
-                    for (int i = 0; i < NI.GetOutDeg(); i++) {
-                        NbrV[NId].Add(NI.GetOutNId(i));
-                    }
-                }
-            }
-
-            NIdCOTriadV.Clr(false);
-            NIdCOTriadV.Reserve(SampleNodes);
-            for (int node = 0; node < SampleNodes; node++) {
-                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NIdV[node]);
-                int NLen;
-
-                NId = NI.GetId();
-                hcount++;
-                if (NI.GetDeg() < 2) {
-                    NIdCOTriadV.Add(TIntTr(NId, 0, 0)); // zero triangles
-                    continue;
-                }
-
-                Nbrs = NbrV[NId];
-                NLen = Nbrs.Len();
-
-                // count connected neighbors
-                int OpenCnt1 = 0, CloseCnt1 = 0;
-                for (int srcNbr = 0; srcNbr < NLen; srcNbr++) {
-                    int Count = GetCommon(NbrV[NbrV[NId][srcNbr]],Nbrs);
-                    CloseCnt1 += Count;
-                }
-                CloseCnt1 /= 2;
-                OpenCnt1 = (NLen*(NLen-1))/2 - CloseCnt1;
-                NIdCOTriadV.Add(TIntTr(NId, CloseCnt1, OpenCnt1));
-            }
-        }
-
-    template <class PGraph>
-        void GetTriads(const PGraph& Graph, std::vector<TUInt64Tr>& NIdCOTriadV,
-                 int64_t SampleNodes) {
-            const bool IsDir = Graph->HasFlag(gfDirected);
-             int64_t NNodes = Graph->GetNodes();
-            int64 hcount;
-            hcount = 0;
-
-            std::vector< int64_t> samples;
-             int64_t nodesToProcess = NNodes;
-            if (SampleNodes != -1) {
-                std::random_device rd;
-                std::mt19937 gen(rd());
-                std::uniform_int_distribution< int64_t> dis(0, NNodes);
-
-                std::set< int64_t> set_samples;
-                for( int64_t i = 0; i < SampleNodes; ) {
-                     int64_t id = dis(gen);
-                    if (!set_samples.count(id)) {
-                        set_samples.insert(id);
-                        samples.push_back(id);
-                        i++;
-                    }
-                }
-                nodesToProcess = samples.size();
-            }
-
-            NIdCOTriadV.resize(nodesToProcess);
-
-            std::vector< int64_t> Nbrs1;
-            std::vector< int64_t> Nbrs2;
-            for ( int64_t node = 0; node < nodesToProcess; node++) {
-                typename PGraph::TObj::TNodeI NI;
-                if (SampleNodes == -1) {
-                    NI = Graph->GetNI(node);
-                } else {
-                    NI = Graph->GetNI(samples[node]);
-                }
-                hcount++;
-                if (NI.GetDeg() < 2) {
-                    NIdCOTriadV[node] = TUInt64Tr(node, 0, 0); // zero triangles
-                    continue;
-                }
-                Nbrs1.clear();
-                GetUniqueNbrV(Graph, node, Nbrs1);
-                // count connected neighbors
-                 int64_t OpenCnt1 = 0, CloseCnt1 = 0;
-                for ( int64_t srcNbr = 0; srcNbr < Nbrs1.size(); srcNbr++) {
-                    Nbrs2.clear();
-                    GetUniqueNbrV(Graph, Nbrs1[srcNbr], Nbrs2);
-                     int64_t Count = GetCommon(Nbrs2,Nbrs1);
-                    CloseCnt1 += Count;
-                }
-                CloseCnt1 /= 2;
-                OpenCnt1 = (Nbrs1.size()*(Nbrs1.size()-1))/2 - CloseCnt1;
-                NIdCOTriadV[node] = TUInt64Tr(node, CloseCnt1, OpenCnt1);
-            }
-        }
-
-    template<class PGraph>
-        int64 CountTriangles(const PGraph& Graph) {
-            THash<TInt, TInt> H;
-            TIntV MapV;
-
-            int ind = 0;
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)   {
-                H.AddDat(NI.GetId(), ind);
-                MapV.Add(NI.GetId());
-                ind += 1;
-            }
-
-            TVec<TIntV> HigherDegNbrV(ind);
-
-#ifdef USE_OPENMP
-#pragma omp parallel for schedule(dynamic)
-#endif
-            for (int i = 0; i < ind; i++) {
-                typename PGraph::TObj::TNodeI NI = Graph->GetNI(MapV[i]);
-                TIntV NbrV;
-
-                GetMergeSortedV<PGraph>(NbrV, NI);
-
-                TIntV V;
-                for (int j = 0; j < NbrV.Len(); j++) {
-                    TInt Vert = NbrV[j];
-                    TInt Deg = Graph->GetNI(Vert).GetDeg();
-                    if (Deg > NI.GetDeg() ||
-                            (( int64_t)Deg == NI.GetDeg() && Vert > NI.GetId())) {
-                        V.Add(Vert);
-                    }
-                }
-
-                HigherDegNbrV[i] = V;
-
-            }
-
-            int64 cnt = 0;
-#ifdef USE_OPENMP
-#pragma omp parallel for schedule(dynamic) reduction(+:cnt)
-#endif
-            for (int i = 0; i < HigherDegNbrV.Len(); i++) {
-                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
-                    TInt NbrInd = H.GetDat(HigherDegNbrV[i][j]);
-
-                    int64 num = GetCommon(HigherDegNbrV[i], HigherDegNbrV[NbrInd]);
-                    cnt += num;
-                }
-            }
-
-            return cnt;
-        }
-
-    template<class PGraph>
-        int64 GetTriangleCnt(const PGraph& Graph) {
-            struct timeval start, end;
-            struct timeval startall, endall;
-            float delta;
-            TTmProfiler Profiler;
-            int TimerId = Profiler.AddTimer("Profiler");
-            int TimerAll = Profiler.AddTimer("ProfilerAll");
-            const int NNodes = Graph->GetNodes();
-
-            TIntV MapV(NNodes);
-            TVec<typename PGraph::TObj::TNodeI> NV(NNodes);
-            NV.Reduce(0);
-
-            Profiler.ResetTimer(TimerAll);
-            Profiler.StartTimer(TimerAll);
-            gettimeofday(&startall, NULL);
-
-            Profiler.ResetTimer(TimerId);
-            Profiler.StartTimer(TimerId);
-            gettimeofday(&start, NULL);
-
-            int MxId = -1;
-            int ind = 0;
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)   {
-                NV.Add(NI);
-                int Id = NI.GetId();
-                if (Id > MxId) {
-                    MxId = Id;
-                }
-                MapV[ind] = Id;
-                ind++;
-            }
-
-            TIntV IndV(MxId+1);
-
-            for (int j = 0; j < NNodes; j++) {
-                IndV[MapV[j]] = j;
-            }
-
-            gettimeofday(&end, NULL);
-            Profiler.StopTimer(TimerId);
-            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
-                    end.tv_usec - start.tv_usec) / 1.e6;
-            printf("__nodemap__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
-
-            Profiler.ResetTimer(TimerId);
-            Profiler.StartTimer(TimerId);
-            gettimeofday(&start, NULL);
-
-            ind = MapV.Len();
-
-            Profiler.ResetTimer(TimerId);
-            Profiler.StartTimer(TimerId);
-            gettimeofday(&start, NULL);
-
-            TVec<TIntV> HigherDegNbrV(ind);
-
-            for (int i = 0; i < ind; i++) {
-                HigherDegNbrV[i] = TVec<TInt>();
-                HigherDegNbrV[i].Reserve(NV[i].GetDeg());
-                HigherDegNbrV[i].Reduce(0);
-            }
-
-            gettimeofday(&end, NULL);
-            Profiler.StopTimer(TimerId);
-            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
-                    end.tv_usec - start.tv_usec) / 1.e6;
-            printf("__valloc__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
-
-            Profiler.ResetTimer(TimerId);
-            Profiler.StartTimer(TimerId);
-            gettimeofday(&start, NULL);
-
-#ifdef USE_OPENMP
-#pragma omp parallel for schedule(dynamic)
-#endif
-            for (int i = 0; i < ind; i++) {
-                typename PGraph::TObj::TNodeI NI = NV[i];
-                //HigherDegNbrV[i] = TVec<TInt>();
-                //HigherDegNbrV[i].Reserve(NI.GetDeg());
-                //HigherDegNbrV[i].Reduce(0);
-
-                MergeNbrs<PGraph>(HigherDegNbrV[i], NI);
-
-                int k = 0;
-                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
-                    TInt Vert = HigherDegNbrV[i][j];
-                    TInt Deg = NV[IndV[Vert]].GetDeg();
-                    if (Deg > NI.GetDeg() ||
-                            (Deg == NI.GetDeg() && Vert > NI.GetId())) {
-                        HigherDegNbrV[i][k] = Vert;
-                        k++;
-                    }
-                }
-                HigherDegNbrV[i].Reduce(k);
-            }
-
-            gettimeofday(&end, NULL);
-            Profiler.StopTimer(TimerId);
-            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
-                    end.tv_usec - start.tv_usec) / 1.e6;
-            printf("__sort__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
-
-            Profiler.ResetTimer(TimerId);
-            Profiler.StartTimer(TimerId);
-            gettimeofday(&start, NULL);
-
-            int64 cnt = 0;
-#ifdef USE_OPENMP
-#pragma omp parallel for schedule(dynamic) reduction(+:cnt)
-#endif
-            for (int i = 0; i < HigherDegNbrV.Len(); i++) {
-                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
-                    //TInt NbrInd = H.GetDat(HigherDegNbrV[i][j]);
-                    TInt NbrInd = IndV[HigherDegNbrV[i][j]];
-
-                    int64 num = GetCommon(HigherDegNbrV[i], HigherDegNbrV[NbrInd]);
-                    cnt += num;
-                }
-            }
-
-            gettimeofday(&end, NULL);
-            Profiler.StopTimer(TimerId);
-            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
-                    end.tv_usec - start.tv_usec) / 1.e6;
-            printf("__count__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
-
-            gettimeofday(&endall, NULL);
-            Profiler.StopTimer(TimerAll);
-            delta = ((endall.tv_sec  - startall.tv_sec) * 1000000u +
-                    endall.tv_usec - startall.tv_usec) / 1.e6;
-            printf("__all__  \ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerAll));
-
-            return cnt;
-        }
-    template<class PGraph>
-        void MergeNbrs(TIntV& NeighbourV, const typename PGraph::TObj::TNodeI& NI) {
-            int j = 0;
-            int k = 0;
-            int prev = -1;
-            int indeg = NI.GetInDeg();
-            int outdeg = NI.GetOutDeg();
-            //while (j < NI.GetInDeg() && k < NI.GetOutDeg()) {
-            if (indeg > 0  &&  outdeg > 0) {
-                int v1 = NI.GetInNId(j);
-                int v2 = NI.GetOutNId(k);
-                while (1) {
-                    if (v1 <= v2) {
-                        if (prev != v1) {
-                            NeighbourV.Add(v1);
-                            prev = v1;
-                        }
-                        j += 1;
-                        if (j >= indeg) {
-                            break;
-                        }
-                        v1 = NI.GetInNId(j);
-                    } else {
-                        if (prev != v2) {
-                            NeighbourV.Add(v2);
-                            prev = v2;
-                        }
-                        k += 1;
-                        if (k >= outdeg) {
-                            break;
-                        }
-                        v2 = NI.GetOutNId(k);
-                    }
-                }
-            }
-            while (j < indeg) {
-                int v = NI.GetInNId(j);
-                if (prev != v) {
-                    NeighbourV.Add(v);
-                    prev = v;
-                }
-                j += 1;
-            }
-            while (k < outdeg) {
-                int v = NI.GetOutNId(k);
-                if (prev != v) {
-                    NeighbourV.Add(v);
-                    prev = v;
-                }
-                k += 1;
-            }
-        }
-
-        // Count the number of edges that participate in at least one triad
-        template <class PGraph>
-            int GetTriadEdges(const PGraph& Graph, int SampleEdges) {
-                const bool IsDir = Graph->HasFlag(gfDirected);
-                TIntSet NbrH;
-                int TriadEdges = 0;
-                for(typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    NbrH.Clr(false);
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        if (NI.GetOutNId(e) != NI.GetId()) {
-                            NbrH.AddKey(NI.GetOutNId(e)); }
-                    }
-                    if (IsDir) {
-                        for (int e = 0; e < NI.GetInDeg(); e++) {
-                            if (NI.GetInNId(e) != NI.GetId()) {
-                                NbrH.AddKey(NI.GetInNId(e)); }
-                        }
-                    }
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        if (!IsDir && NI.GetId()<NI.GetOutNId(e)) { continue; } // for undirected graphs count each edge only once
-                        const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NI.GetOutNId(e));
-                        bool Triad=false;
-                        for (int e1 = 0; e1 < SrcNode.GetOutDeg(); e1++) {
-                            if (NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
-                        }
-                        if (IsDir && ! Triad) {
-                            for (int e1 = 0; e1 < SrcNode.GetInDeg(); e1++) {
-                                if (NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
-                            }
-                        }
-                        if (Triad) { TriadEdges++; }
-                    }
-                }
-                return TriadEdges;
-            }
-
-        // Returns number of undirected triads a node participates in
-        template <class PGraph>
-            int GetNodeTriads(const PGraph& Graph, const int& NId) {
-                int ClosedTriads=0, OpenTriads=0;
-                return GetNodeTriads(Graph, NId, ClosedTriads, OpenTriads);
-            }
-
-        // Return number of undirected triads a node participates in
-        template <class PGraph>
-            int GetNodeTriads(const PGraph& Graph, const int& NId, int& ClosedTriads, int& OpenTriads) {
-                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-                ClosedTriads=0;  OpenTriads=0;
-                if (NI.GetDeg() < 2) { return 0; }
-                // find neighborhood
-                TIntSet NbrSet(NI.GetDeg());
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    if (NI.GetOutNId(e) != NI.GetId()) { // exclude self edges
-                        NbrSet.AddKey(NI.GetOutNId(e)); }
-                }
-                if (Graph->HasFlag(gfDirected)) {
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        if (NI.GetInNId(e) != NI.GetId()) { // exclude self edges
-                            NbrSet.AddKey(NI.GetInNId(e)); }
-                    }
-                }
-                // count connected neighbors
-                for (int srcNbr = 0; srcNbr < NbrSet.Len(); srcNbr++) {
-                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrSet.GetKey(srcNbr));
-                    for (int dstNbr = srcNbr+1; dstNbr < NbrSet.Len(); dstNbr++) {
-                        const int dstNId = NbrSet.GetKey(dstNbr);
-                        if (SrcNode.IsNbrNId(dstNId)) { ClosedTriads++; }
-                        else { OpenTriads++; }
-                    }
-                }
-                return ClosedTriads;
-            }
-
-        // Node NId and a subset of its neighbors GroupSet
-        //   InGroupEdges ... triads (NId, g1, g2), where g1 and g2 are in GroupSet
-        //   InOutGroupEdges ... triads (NId, g1, o1), where g1 in GroupSet and o1 not in GroupSet
-        //   OutGroupEdges ... triads (NId, o1, o2), where o1 and o2 are not in GroupSet
-        template <class PGraph>
-            int GetNodeTriads(const PGraph& Graph, const int& NId, const TIntSet& GroupSet, int& InGroupEdges, int& InOutGroupEdges, int& OutGroupEdges) {
-                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-                const bool IsDir = Graph->HasFlag(gfDirected);
-                InGroupEdges=0;  InOutGroupEdges=0;  OutGroupEdges=0;
-                if (NI.GetDeg() < 2) { return 0; }
-                // find neighborhood
-                TIntSet NbrSet(NI.GetDeg());
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    if (NI.GetOutNId(e) != NI.GetId()) { // exclude self edges
-                        NbrSet.AddKey(NI.GetOutNId(e)); }
-                }
-                if (IsDir) {
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        if (NI.GetInNId(e) != NI.GetId()) {
-                            NbrSet.AddKey(NI.GetInNId(e)); }
-                    }
-                }
-                // count connected neighbors
-                for (int srcNbr = 0; srcNbr < NbrSet.Len(); srcNbr++) {
-                    const int NbrId = NbrSet.GetKey(srcNbr);
-                    const bool NbrIn = GroupSet.IsKey(NbrId);
-                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrId);
-                    for (int dstNbr = srcNbr+1; dstNbr < NbrSet.Len(); dstNbr++) {
-                        const int DstNId = NbrSet.GetKey(dstNbr);
-                        if (SrcNode.IsNbrNId(DstNId)) { // triad (NId, NbrId, DstNid)
-                            bool DstIn = GroupSet.IsKey(DstNId);
-                            if (NbrIn && DstIn) { InGroupEdges++; }
-                            else if (NbrIn || DstIn) { InOutGroupEdges++; }
-                            else { OutGroupEdges++; }
-                        }
-                    }
-                }
-                return InGroupEdges;
-            }
-
-        // For each node count how many triangles it participates in
-        template <class PGraph>
-            void GetTriadParticip(const PGraph& Graph, TIntPrV& TriadCntV) {
-                TIntH TriadCntH;
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    const int Triads = GetNodeTriads(Graph, NI.GetId());
-                    TriadCntH.AddDat(Triads) += 1;
-                }
-                TriadCntH.GetKeyDatPrV(TriadCntV);
-                TriadCntV.Sort();
-            }
-
-        template<class PGraph>
-            int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2) {
-                TIntV NbrV;
-                return GetCmnNbrs(Graph, NId1, NId2, NbrV);
-            }
-
-        // Get common neighbors between a pair of nodes (undirected)
-        template<class PGraph>
-            int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
-                if (! Graph->IsNode(NId1) || ! Graph->IsNode(NId2)) { NbrV.Clr(false); return 0; }
-                typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId1);
-                typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(NId2);
-                NbrV.Clr(false);
-                NbrV.Reserve(TMath::Mn(NI1.GetDeg(), NI2.GetDeg()));
-                TIntSet NSet1(NI1.GetDeg()), NSet2(NI2.GetDeg());
-                for (int i = 0; i < NI1.GetDeg(); i++) {
-                    const int nid = NI1.GetNbrNId(i);
-                    if (nid!=NId1 && nid!=NId2) {
-                        NSet1.AddKey(nid); }
-                }
-                for (int i = 0; i < NI2.GetDeg(); i++) {
-                    const int nid = NI2.GetNbrNId(i);
-                    if (NSet1.IsKey(nid)) {
-                        NSet2.AddKey(nid);
-                    }
-                }
-                NSet2.GetKeyV(NbrV);
-                return NbrV.Len();
-            }
-
-        template<>
-            inline int GetCmnNbrs<PUNGraph>(const PUNGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
-                if (! Graph->IsNode(NId1) || ! Graph->IsNode(NId2)) { NbrV.Clr(false); return 0; }
-                const TUNGraph::TNodeI NI1 = Graph->GetNI(NId1);
-                const TUNGraph::TNodeI NI2 = Graph->GetNI(NId2);
-                int i=0, j=0;
-                NbrV.Clr(false);
-                NbrV.Reserve(TMath::Mn(NI1.GetDeg(), NI2.GetDeg()));
-                while (i < NI1.GetDeg() && j < NI2.GetDeg()) {
-                    const int nid = NI1.GetNbrNId(i);
-                    while (j < NI2.GetDeg() && NI2.GetNbrNId(j) < nid) { j++; }
-                    if (j < NI2.GetDeg() && nid==NI2.GetNbrNId(j) && nid!=NId1 && nid!=NId2) {
-                        IAssert(NbrV.Empty() || NbrV.Last() < nid);
-                        NbrV.Add(nid);
-                        j++;
-                    }
-                    i++;
-                }
-                return NbrV.Len();
-            }
-
-        // get number of length 2 directed paths between a pair of nodes
-        // for a pair of nodes (i,j): |{u: (i,u) and (u,j) }|
-        template<class PGraph>
-            int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2) {
-                TIntV NbrV;
-                return GetLen2Paths(Graph, NId1, NId2, NbrV);
-            }
-
-        // get number of length 2 directed paths between a pair of nodes
-        // for a pair of nodes (i,j): {u: (i,u) and (u,j) }
-        template<class PGraph>
-            int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
-                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId1);
-                NbrV.Clr(false);
-                NbrV.Reserve(NI.GetOutDeg());
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    const typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(NI.GetOutNId(e));
-                    if (MidNI.IsOutNId(NId2)) {
-                        NbrV.Add(MidNI.GetId());
-                    }
-                }
-                return NbrV.Len();
-            }
-
-        template <class PGraph>
-            void GetUniqueNbrV(const PGraph& Graph, const int& NId, TIntV& NbrV) {
-                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-                NbrV.Reserve(NI.GetDeg());
-                NbrV.Reduce(0);
-
-                int j = 0;
-                int k = 0;
-                int Prev = -1;
-                int InDeg = NI.GetInDeg();
-                int OutDeg = NI.GetOutDeg();
-                if (InDeg > 0  &&  OutDeg > 0) {
-                    int v1 = NI.GetInNId(j);
-                    int v2 = NI.GetOutNId(k);
-                    while (1) {
-                        if (v1 <= v2) {
-                            if (Prev != v1) {
-                                if (v1 != NId) {
-                                    NbrV.Add(v1);
-                                    Prev = v1;
-                                }
-                            }
-                            j += 1;
-                            if (j >= InDeg) {
-                                break;
-                            }
-                            v1 = NI.GetInNId(j);
-                        } else {
-                            if (Prev != v2) {
-                                if (v2 != NId) {
-                                    NbrV.Add(v2);
-                                }
-                                Prev = v2;
-                            }
-                            k += 1;
-                            if (k >= OutDeg) {
-                                break;
-                            }
-                            v2 = NI.GetOutNId(k);
-                        }
-                    }
-                }
-                while (j < InDeg) {
-                    int v = NI.GetInNId(j);
-                    if (Prev != v) {
-                        if (v != NId) {
-                            NbrV.Add(v);
-                        }
-                        Prev = v;
-                    }
-                    j += 1;
-                }
-                while (k < OutDeg) {
-                    int v = NI.GetOutNId(k);
-                    if (Prev != v) {
-                        if (v != NId) {
-                            NbrV.Add(v);
-                        }
-                        Prev = v;
-                    }
-                    k += 1;
-                }
-            }
-
-        template <class PGraph>
-            void GetUniqueNbrV(const PGraph& Graph, const  int64_t& NId, std::vector< int64_t>& NbrV) {
-                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
-
-                 int64_t j = 0;
-                 int64_t k = 0;
-                 int64_t Prev = -1;
-                 int64_t InDeg = NI.GetInDeg();
-                 int64_t OutDeg = NI.GetOutDeg();
-                if (InDeg > 0  &&  OutDeg > 0) {
-                     int64_t v1 = NI.GetInNId(j);
-                     int64_t v2 = NI.GetOutNId(k);
-                    while (1) {
-                        if (v1 <= v2) {
-                            if (Prev != v1) {
-                                if (v1 != NId) {
-                                    NbrV.push_back(v1);
-                                    Prev = v1;
-                                }
-                            }
-                            j += 1;
-                            if (j >= InDeg) {
-                                break;
-                            }
-                            v1 = NI.GetInNId(j);
-                        } else {
-                            if (Prev != v2) {
-                                if (v2 != NId) {
-                                    NbrV.push_back(v2);
-                                }
-                                Prev = v2;
-                            }
-                            k += 1;
-                            if (k >= OutDeg) {
-                                break;
-                            }
-                            v2 = NI.GetOutNId(k);
-                        }
-                    }
-                }
-                while (j < InDeg) {
-                     int64_t v = NI.GetInNId(j);
-                    if (Prev != v) {
-                        if (v != NId) {
-                            NbrV.push_back(v);
-                        }
-                        Prev = v;
-                    }
-                    j += 1;
-                }
-                while (k < OutDeg) {
-                     int64_t v = NI.GetOutNId(k);
-                    if (Prev != v) {
-                        if (v != NId) {
-                            NbrV.push_back(v);
-                        }
-                        Prev = v;
-                    }
-                    k += 1;
-                }
-            }
-
-        }; // mamespace TSnap
-
-    /////////////////////////////////////////////////
-    // Node and Edge Network Constraint (by Ron Burt)
-    // works for directed and undirected graphs (but not for multigraphs)
-    template <class PGraph>
-        class TNetConstraint {
-            public:
-                PGraph Graph;
-                THash<TIntPr, TFlt> NodePrCH; // pairs of nodes that have non-zero network constraint
-            public:
-                TNetConstraint(const PGraph& GraphPt, const bool& CalcaAll=true);
-                int Len() const { return NodePrCH.Len(); }
-                double GetC(const int& ConstraintN) const { return NodePrCH[ConstraintN]; }
-                TIntPr GetNodePr(const int& ConstraintN) const { return NodePrCH.GetKey(ConstraintN); }
-                double GetEdgeC(const int& NId1, const int& NId2) const;
-                double GetNodeC(const int& NId) const;
-                void AddConstraint(const int& NId1, const int& NId2);
-                void CalcConstraints();
-                void CalcConstraints(const int& NId);
-                void Dump() const;
-                static void Test();
-        };
-
-    template <class PGraph>
-        TNetConstraint<PGraph>::TNetConstraint(const PGraph& GraphPt, const bool& CalcaAll) : Graph(GraphPt) {
-            CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph)); // must not be multigraph
-            if (CalcaAll) {
-                CalcConstraints();
-            }
-        }
-
-    template <class PGraph>
-        double TNetConstraint<PGraph>::GetEdgeC(const int& NId1, const int& NId2) const {
-            if (NodePrCH.IsKey(TIntPr(NId1, NId2))) {
-                return NodePrCH.GetDat(TIntPr(NId1, NId2)); }
-            else {
-                return 0.0; }
-        }
-
-    template <class PGraph>
-        double TNetConstraint<PGraph>::GetNodeC(const int& NId) const {
-            typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId);
-            if (NI1.GetOutDeg() == 0) { return 0.0; }
-            int KeyId = -1;
-            for (int k = 0; k<NI1.GetOutDeg(); k++) {
-                KeyId = NodePrCH.GetKeyId(TIntPr(NI1.GetId(), NI1.GetOutNId(k)));
-                if (KeyId > -1) { break; }
-            }
-            if (KeyId < 0) { return 0.0; }
-            double Constraint = NodePrCH[KeyId];
-            for (int i = KeyId-1; i >-1 && NodePrCH.GetKey(i).Val1()==NId; i--) {
-                Constraint += NodePrCH[i];
-            }
-            for (int i = KeyId+1; i < NodePrCH.Len() && NodePrCH.GetKey(i).Val1()==NId; i++) {
-                Constraint += NodePrCH[i];
-            }
-            return Constraint;
-        }
-
-    template <class PGraph>
-        void TNetConstraint<PGraph>::AddConstraint(const int& NId1, const int& NId2) {
-            if (NId1==NId2 || NodePrCH.IsKey(TIntPr(NId1, NId2))) {
-                return;
-            }
-            typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId1);
-            double Constraint = 0.0;
-            if (NI1.IsOutNId(NId2)) { // is direct edge
-                Constraint += 1.0/(double) NI1.GetOutDeg();
-            }
-            const double SrcC = 1.0/(double) NI1.GetOutDeg();
-            for (int e = 0; e < NI1.GetOutDeg(); e++) {
-                const int MidNId = NI1.GetOutNId(e);
-                if (MidNId == NId1 || MidNId == NId2) { continue; }
-                const typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(MidNId);
-                if (MidNI.IsOutNId(NId2)) {
-                    Constraint += SrcC * (1.0/(double)MidNI.GetOutDeg());
-                }
-            }
-            if (Constraint==0) { return; }
-            Constraint = TMath::Sqr(Constraint);
-            NodePrCH.AddDat(TIntPr(NId1, NId2), Constraint);
-        }
-
-    template <class PGraph>
-        void TNetConstraint<PGraph>::CalcConstraints() {
-            // add edges
-            for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
-                AddConstraint(EI.GetSrcNId(), EI.GetDstNId());
-                AddConstraint(EI.GetDstNId(), EI.GetSrcNId());
-            }
-            // add open triads
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                for (int i = 0; i < NI.GetDeg();  i++) {
-                    const int NId1 = NI.GetNbrNId(i);
-                    for (int j = 0; j < NI.GetDeg();  j++) {
-                        const int NId2 = NI.GetNbrNId(j);
-                        AddConstraint(NId1, NId2);
-                    }
-                }
-            }
-            NodePrCH.SortByKey();
-        }
-
-    // calculate constraints around a node id
-    template <class PGraph>
-        void TNetConstraint<PGraph>::CalcConstraints(const int& NId) {
-            typename PGraph::TObj::TNodeI StartNI = Graph->GetNI(NId);
-            TIntSet SeenSet;
-            for (int e = 0; e < StartNI.GetOutDeg(); e++) {
-                typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(StartNI.GetOutNId(e));
-                AddConstraint(NId, MidNI.GetId());
-                for (int i = 0; i < MidNI.GetOutDeg();  i++) {
-                    const int EndNId = MidNI.GetOutNId(i);
-                    if (! SeenSet.IsKey(EndNId)) {
-                        AddConstraint(NId, EndNId);
-                        SeenSet.AddKey(EndNId);
-                    }
-                }
-            }
-        }
-
-    template <class PGraph>
-        void TNetConstraint<PGraph>::Dump() const {
-            printf("Edge network constraint: (%d, %d)\n", Graph->GetNodes(), Graph->GetEdges());
-            for (int e = 0; e < NodePrCH.Len(); e++) {
-                printf("  %4d %4d  :  %f\n", NodePrCH.GetKey(e).Val1(), NodePrCH.GetKey(e).Val2(), NodePrCH[e].Val);
-            }
-            printf("\n");
-        }
-
-    // example from page 56 of Structural Holes by Ronald S. Burt
-    // (http://www.amazon.com/Structural-Holes-Social-Structure-Competition/dp/0674843711)
-    template <class PGraph>
-        void TNetConstraint<PGraph>::Test() {
-            PUNGraph G = TUNGraph::New();
-            G->AddNode(0); G->AddNode(1); G->AddNode(2); G->AddNode(3);
-            G->AddNode(4); G->AddNode(5); G->AddNode(6);
-            G->AddEdge(0,1); G->AddEdge(0,2); G->AddEdge(0,3); G->AddEdge(0,4); G->AddEdge(0,5); G->AddEdge(0,6);
-            G->AddEdge(1,2); G->AddEdge(1,5);  G->AddEdge(1,6);
-            G->AddEdge(2,4);
-            TNetConstraint<PUNGraph> NetConstraint(G, true);
-            // NetConstraint.CalcConstraints(0);
-            NetConstraint.Dump();
-            printf("middle node network constraint: %f\n", NetConstraint.GetNodeC(0));
-        }
-
-#endif // TRIAD_H
+#ifndef TRIAD_H
+#define TRIAD_H
+
+#include <iostream>
+#include <vector>
+#include <random>
+#include <set>
+
+namespace TSnap {
+
+    /////////////////////////////////////////////////
+    // Triads and clustering coefficient
+
+    /// Computes the average clustering coefficient as defined in Watts and Strogatz, Collective dynamics of 'small-world' networks. ##TSnap::GetClustCf
+    template <class PGraph> double GetClustCf(const PGraph& Graph,  int64_t SampleNodes=-1);
+    /// Computes the distribution of average clustering coefficient. ##TSnap::GetClustCf1
+    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV,  int64_t SampleNodes=-1);
+    /// Computes the distribution of average clustering coefficient as well as the number of open and closed triads in the graph. ##TSnap::GetClustCf2
+    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV, int64& ClosedTriadsX, int64& OpenTriadsX,  int64_t SampleNodes=-1);
+    /// Returns clustering coefficient of a particular node. ##TSnap::GetNodeClustCf
+    template <class PGraph> double GetNodeClustCf(const PGraph& Graph, const int& NId);
+    /// Computes clustering coefficient of each node of the Graph. ##TSnap::GetClustCf1
+    template <class PGraph> void GetNodeClustCf(const PGraph& Graph, TIntFltH& NIdCCfH);
+    template <class PGraph> void GetNodeClustCf_scala(const PGraph& Graph, TIntFltH& NIdCCfH);
+    template <class PGraph> void GetNodeClustCf(const PGraph& Graph, std::vector<float>& NIdCCfH);
+
+    /// Returns the number of triangles in a graph. ##TSnap::GetTriads
+    template <class PGraph> int64 GetTriads(const PGraph& Graph,  int64_t SampleNodes=-1);
+    /// Computes the number of Closed and Open triads. ##TSnap::GetTriads1
+    template <class PGraph> int64 GetTriads(const PGraph& Graph, int64& ClosedTriadsX, int64& OpenTriadsX,  int64_t SampleNodes);
+    /// Computes the number of open and close triads for every node of the network. ##TSnap::GetTriads2
+    template <class PGraph> void GetTriads(const PGraph& Graph, TIntTrV& NIdCOTriadV,  int64_t SampleNodes=-1);
+    template <class PGraph> void GetTriads_v0(const PGraph& Graph, TIntTrV& NIdCOTriadV, int SampleNodes=-1);
+    template <class PGraph> void GetTriads(const PGraph& Graph, std::vector<TUInt64Tr>& NIdCOTriadV,  int64_t SampleNodes=-1);
+    /// Counts the number of edges that participate in at least one triad. ##TSnap::GetTriadEdges
+    template <class PGraph> int GetTriadEdges(const PGraph& Graph, int SampleEdges=-1);
+
+    /// Returns the number of undirected triads a node \c NId participates in. ##TSnap::GetNodeTriads
+    template <class PGraph> int GetNodeTriads(const PGraph& Graph, const int& NId);
+    /// Returns number of Open and Closed triads a node \c NId participates in. ##TSnap::GetNodeTriads1
+    template <class PGraph> int GetNodeTriads(const PGraph& Graph, const int& NId, int& ClosedNTriadsX, int& OpenNTriadsX);
+    /// Returns the number of triads between a node \c NId and a subset of its neighbors \c GroupSet. ##TSnap::GetNodeTriads3
+    template <class PGraph>
+        int GetNodeTriads(const PGraph& Graph, const int& NId, const TIntSet& GroupSet, int& InGroupEdgesX, int& InOutGroupEdgesX, int& OutGroupEdgesX);
+    /// Triangle Participation Ratio: For each node counts how many triangles it participates in and then returns a set of pairs (number of triangles, number of such nodes). ##TSnap::GetTriadParticip
+    template <class PGraph> void GetTriadParticip(const PGraph& Graph, TIntPrV& TriadCntV);
+
+    /// Returns a number of shared neighbors between a pair of nodes NId1 and NId2.
+    template<class PGraph> int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2);
+    /// Returns the shared neighbors between a pair of nodes NId1 and NId2.
+    template<class PGraph> int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV);
+    /// Returns the number of length 2 directed paths between a pair of nodes NId1, NId2 (NId1 --> U --> NId2).
+    template<class PGraph> int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2);
+    /// Returns the 2 directed paths between a pair of nodes NId1, NId2 (NId1 --> U --> NId2). ##TSnap::GetLen2Paths
+    template<class PGraph> int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV);
+    /// Returns the number of triangles in graph \c Graph, original version
+    template<class PGraph> int64 CountTriangles(const PGraph& Graph);
+    /// Returns the number of triangles in graph \c Graph, newer version
+    template<class PGraph> int64 GetTriangleCnt(const PGraph& Graph);
+    /// Merges neighbors.
+    template<class PGraph> void MergeNbrs(TIntV& NeighbourV, const typename PGraph::TObj::TNodeI& NI);
+
+    template<class PGraph> void GetMergeSortedV(TIntV& NeighbourV, typename PGraph::TObj::TNodeI NI);
+
+    /// Returns sorted vector \c NbrV containing unique in or out neighbors of node \c NId in graph \c Graph
+    template <class PGraph> void GetUniqueNbrV(const PGraph& Graph, const int& NId, TIntV& NbrV);
+    template <class PGraph> void GetUniqueNbrV(const PGraph& Graph, const  int64_t& NId, std::vector< int64_t>& NbrV);
+
+    /// Returns the number of common elements in two sorted TInt vectors
+    int GetCommon(TIntV& A, TIntV& B);
+     int64_t GetCommon(const std::vector< int64_t>& A, const std::vector< int64_t>& B);
+
+    /////////////////////////////////////////////////
+    // Implementation
+
+    template<class PGraph> void GetMergeSortedV(TIntV& NeighbourV, typename PGraph::TObj::TNodeI NI) {
+        int j = 0;
+        int k = 0;
+        int prev = -1;
+        int indeg = NI.GetInDeg();
+        int outdeg = NI.GetOutDeg();
+        if (indeg > 0  &&  outdeg > 0) {
+            int v1 = NI.GetInNId(j);
+            int v2 = NI.GetOutNId(k);
+            while (1) {
+                if (v1 <= v2) {
+                    if (prev != v1) {
+                        NeighbourV.Add(v1);
+                        prev = v1;
+                    }
+                    j += 1;
+                    if (j >= indeg) {
+                        break;
+                    }
+                    v1 = NI.GetInNId(j);
+                } else {
+                    if (prev != v2) {
+                        NeighbourV.Add(v2);
+                        prev = v2;
+                    }
+                    k += 1;
+                    if (k >= outdeg) {
+                        break;
+                    }
+                    v2 = NI.GetOutNId(k);
+                }
+            }
+        }
+        while (j < indeg) {
+            int v = NI.GetInNId(j);
+            if (prev != v) {
+                NeighbourV.Add(v);
+                prev = v;
+            }
+            j += 1;
+        }
+        while (k < outdeg) {
+            int v = NI.GetOutNId(k);
+            if (prev != v) {
+                NeighbourV.Add(v);
+                prev = v;
+            }
+            k += 1;
+        }
+    }
+
+
+    template <class PGraph> double GetClustCf(const PGraph& Graph,  int64_t SampleNodes) {
+        std::vector<TUInt64Tr> NIdCOTriadV;
+        GetTriads(Graph, NIdCOTriadV, SampleNodes);
+        if (NIdCOTriadV.empty()) {
+            return 0.0;
+        }
+        double SumCcf = 0.0;
+        for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
+            const double OpenCnt = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+            if (OpenCnt > 0) {
+                SumCcf += NIdCOTriadV[i].Val2() / OpenCnt; }
+        }
+        IAssert(SumCcf>=0);
+        return SumCcf / double(NIdCOTriadV.size());
+    }
+
+    template <class PGraph> double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV,  int64_t SampleNodes) {
+        TIntTrV NIdCOTriadV;
+        GetTriads(Graph, NIdCOTriadV, SampleNodes);
+        THash<TInt, TFltPr> DegSumCnt;
+        double SumCcf = 0.0;
+        for (int i = 0; i < NIdCOTriadV.Len(); i++) {
+            const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+            const double Ccf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+            TFltPr& SumCnt = DegSumCnt.AddDat(Graph->GetNI(NIdCOTriadV[i].Val1).GetDeg());
+            SumCnt.Val1 += Ccf;
+            SumCnt.Val2 += 1;
+            SumCcf += Ccf;
+        }
+        // get average clustering coefficient for each degree
+        DegToCCfV.Gen(DegSumCnt.Len(), 0);
+        for (int d = 0; d  < DegSumCnt.Len(); d++) {
+            DegToCCfV.Add(TFltPr(DegSumCnt.GetKey(d).Val, double(DegSumCnt[d].Val1()/DegSumCnt[d].Val2())));
+        }
+        DegToCCfV.Sort();
+        return SumCcf / double(NIdCOTriadV.Len());
+    }
+
+    template <class PGraph>
+        double GetClustCf(const PGraph& Graph, TFltPrV& DegToCCfV, int64& ClosedTriads, int64& OpenTriads,  int64_t SampleNodes) {
+            TIntTrV NIdCOTriadV;
+            GetTriads(Graph, NIdCOTriadV, SampleNodes);
+            THash<TInt, TFltPr> DegSumCnt;
+            double SumCcf = 0.0;
+            int64 closedTriads = 0;
+            int64 openTriads = 0;
+            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
+                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+                const double Ccf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+                closedTriads += NIdCOTriadV[i].Val2;
+                openTriads += NIdCOTriadV[i].Val3;
+                TFltPr& SumCnt = DegSumCnt.AddDat(Graph->GetNI(NIdCOTriadV[i].Val1).GetDeg());
+                SumCnt.Val1 += Ccf;
+                SumCnt.Val2 += 1;
+                SumCcf += Ccf;
+            }
+            // get average clustering coefficient for each degree
+            DegToCCfV.Gen(DegSumCnt.Len(), 0);
+            for (int d = 0; d  < DegSumCnt.Len(); d++) {
+                DegToCCfV.Add(TFltPr(DegSumCnt.GetKey(d).Val, DegSumCnt[d].Val1()/DegSumCnt[d].Val2()));
+            }
+            //if(closedTriads/3 > (uint64) TInt::Mx) { WarnNotify(TStr::Fmt("[%s line %d] %g closed triads.\n", __FILE__, __LINE__, float(closedTriads/3)).CStr());  }
+            //if(openTriads > (uint64) TInt::Mx) { WarnNotify(TStr::Fmt("[%s line %d] %g open triads.\n", __FILE__, __LINE__, float(openTriads/3)).CStr());  }
+            ClosedTriads = closedTriads/int64(3); // each triad is counted 3 times
+            OpenTriads = openTriads;
+            DegToCCfV.Sort();
+            return SumCcf / double(NIdCOTriadV.Len());
+        }
+
+    template <class PGraph>
+        double GetNodeClustCf(const PGraph& Graph, const int& NId) {
+            int Open, Closed;
+            GetNodeTriads(Graph, NId, Open, Closed);
+            //const double Deg = Graph->GetNI(NId).GetDeg();
+            return (Open+Closed)==0 ? 0 : double(Open)/double(Open+Closed);
+        }
+
+    template <class PGraph>
+        void GetNodeClustCf(const PGraph& Graph, std::vector<float>& NIdCCfH) {
+            std::vector<TUInt64Tr> NIdCOTriadV;
+            GetTriads(Graph, NIdCOTriadV);
+            NIdCCfH.clear();
+            NIdCCfH.reserve(Graph->GetNodes());
+            for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
+                const  int64_t D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+                NIdCCfH[NIdCOTriadV[i].Val1] = CCf;
+            }
+        }
+
+    template <class PGraph>
+        void GetNodeClustCf(const PGraph& Graph, TIntFltH& NIdCCfH) {
+            TIntTrV NIdCOTriadV;
+            GetTriads(Graph, NIdCOTriadV);
+            NIdCCfH.Clr(false);
+            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
+                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+                NIdCCfH.AddDat(NIdCOTriadV[i].Val1, CCf);
+            }
+        }
+
+    template <class PGraph>
+        void GetNodeClustCf_scala(const PGraph& Graph, TIntFltH& NIdCCfH) {
+            TIntTrV NIdCOTriadV;
+            GetTriads_v0(Graph, NIdCOTriadV);
+            NIdCCfH.Clr(false);
+            for (int i = 0; i < NIdCOTriadV.Len(); i++) {
+                const int D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
+                const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+                NIdCCfH.AddDat(NIdCOTriadV[i].Val1, CCf);
+            }
+        }
+
+    template <class PGraph>
+        int64 GetTriads(const PGraph& Graph,  int64_t SampleNodes) {
+            int64 OpenTriads, ClosedTriads;
+            return GetTriads(Graph, ClosedTriads, OpenTriads, SampleNodes);
+        }
+
+    template <class PGraph>
+        int64 GetTriads(const PGraph& Graph, int64& ClosedTriads, int64& OpenTriads,  int64_t SampleNodes) {
+            std::vector<TUInt64Tr> NIdCOTriadV;
+            GetTriads(Graph, NIdCOTriadV, SampleNodes);
+            uint64 closedTriads = 0;
+            uint64 openTriads = 0;
+            for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
+                closedTriads += NIdCOTriadV[i].Val2;
+                openTriads += NIdCOTriadV[i].Val3;
+            }
+            ClosedTriads = int64(closedTriads/3); // each triad is counted 3 times
+            OpenTriads = int64(openTriads);
+            return ClosedTriads;
+        }
+
+    // Function pretends that the graph is undirected (count unique connected triples of nodes)
+    // This implementation is slower, it uses hash tables directly
+    template <class PGraph>
+        void GetTriads_v0(const PGraph& Graph, TIntTrV& NIdCOTriadV, int SampleNodes) {
+            const bool IsDir = Graph->HasFlag(gfDirected);
+            TIntSet NbrH;
+            TIntV NIdV;
+            TRnd Rnd(0);
+
+            Graph->GetNIdV(NIdV);
+            NIdV.Shuffle(Rnd);
+            if (SampleNodes == -1) {
+                SampleNodes = Graph->GetNodes(); }
+            NIdCOTriadV.Clr(false);
+            NIdCOTriadV.Reserve(SampleNodes);
+            for (int node = 0; node < SampleNodes; node++) {
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NIdV[node]);
+                if (NI.GetDeg() < 2) {
+                    NIdCOTriadV.Add(TIntTr(NI.GetId(), 0, 0)); // zero triangles
+                    continue;
+                }
+                // find neighborhood
+                NbrH.Clr(false);
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    if (NI.GetOutNId(e) != NI.GetId()) {
+                        NbrH.AddKey(NI.GetOutNId(e)); }
+                }
+                if (IsDir) {
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        if (NI.GetInNId(e) != NI.GetId()) {
+                            NbrH.AddKey(NI.GetInNId(e)); }
+                    }
+                }
+                // count connected neighbors
+                int OpenCnt=0, CloseCnt=0;
+                for (int srcNbr = 0; srcNbr < NbrH.Len(); srcNbr++) {
+                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrH.GetKey(srcNbr));
+                    for (int dstNbr = srcNbr+1; dstNbr < NbrH.Len(); dstNbr++) {
+                        const int dstNId = NbrH.GetKey(dstNbr);
+                        if (SrcNode.IsNbrNId(dstNId)) { CloseCnt++; } // is edge
+                        else { OpenCnt++; }
+                    }
+                }
+                IAssert(2*(OpenCnt+CloseCnt) == NbrH.Len()*(NbrH.Len()-1));
+                NIdCOTriadV.Add(TIntTr(NI.GetId(), CloseCnt, OpenCnt));
+            }
+        }
+
+    // Function pretends that the graph is undirected (count unique connected triples of nodes)
+    // This implementation is faster, it converts hash tables to vectors
+    template <class PGraph>
+        void GetTriads(const PGraph& Graph, TIntTrV& NIdCOTriadV,  int64_t SampleNodes) {
+            const bool IsDir = Graph->HasFlag(gfDirected);
+            TIntSet NbrH;
+            TIntV NIdV;
+            //TRnd Rnd(0);
+            TRnd Rnd(1);
+            int NNodes;
+            TIntV Nbrs;
+            int NId;
+
+            int64 hcount;
+
+            hcount = 0;
+
+            NNodes = Graph->GetNodes();
+            Graph->GetNIdV(NIdV);
+            NIdV.Shuffle(Rnd);
+            if (SampleNodes == -1) {
+                SampleNodes = NNodes;
+            }
+
+            int MxId = -1;
+            for (int i = 0; i < NNodes; i++) {
+                if (NIdV[i] > MxId) {
+                    MxId = NIdV[i];
+                }
+            }
+
+            TVec<TIntV> NbrV(MxId + 1);
+
+            if (IsDir) {
+                // get in and out neighbors
+                for (int node = 0; node < NNodes; node++) {
+                    int NId = NIdV[node];
+                    NbrV[NId] = TIntV();
+                    GetUniqueNbrV(Graph, NId, NbrV[NId]);
+                }
+            } else {
+                // get only out neighbors
+                for (int node = 0; node < NNodes; node++) {
+                    int NId = NIdV[node];
+                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+                    NbrV[NId] = TIntV();
+                    NbrV[NId].Reserve(NI.GetOutDeg());
+                    NbrV[NId].Reduce(0);
+                    for (int i = 0; i < NI.GetOutDeg(); i++) {
+                        if (NI.GetOutNId(i) != NId) {
+                            NbrV[NId].Add(NI.GetOutNId(i)); }
+                    }
+                }
+            }
+
+            NIdCOTriadV.Clr(false);
+            NIdCOTriadV.Reserve(SampleNodes);
+            for (int node = 0; node < SampleNodes; node++) {
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NIdV[node]);
+                int NLen;
+
+                NId = NI.GetId();
+                hcount++;
+                if (NI.GetDeg() < 2) {
+                    NIdCOTriadV.Add(TIntTr(NId, 0, 0)); // zero triangles
+                    continue;
+                }
+
+                Nbrs = NbrV[NId];
+                NLen = Nbrs.Len();
+
+                // count connected neighbors
+                int OpenCnt1 = 0, CloseCnt1 = 0;
+                for (int srcNbr = 0; srcNbr < NLen; srcNbr++) {
+                    int Count = GetCommon(NbrV[NbrV[NId][srcNbr]],Nbrs);
+                    CloseCnt1 += Count;
+                }
+                CloseCnt1 /= 2;
+                OpenCnt1 = (NLen*(NLen-1))/2 - CloseCnt1;
+                NIdCOTriadV.Add(TIntTr(NId, CloseCnt1, OpenCnt1));
+            }
+        }
+
+    template <class PGraph>
+        void GetTriads(const PGraph& Graph, std::vector<TUInt64Tr>& NIdCOTriadV,
+                 int64_t SampleNodes) {
+            const bool IsDir = Graph->HasFlag(gfDirected);
+             int64_t NNodes = Graph->GetNodes();
+            int64 hcount;
+            hcount = 0;
+
+            std::vector< int64_t> samples;
+             int64_t nodesToProcess = NNodes;
+            if (SampleNodes != -1) {
+                std::random_device rd;
+                std::mt19937 gen(rd());
+                std::uniform_int_distribution< int64_t> dis(0, NNodes);
+
+                std::set< int64_t> set_samples;
+                for( int64_t i = 0; i < SampleNodes; ) {
+                     int64_t id = dis(gen);
+                    if (!set_samples.count(id)) {
+                        set_samples.insert(id);
+                        samples.push_back(id);
+                        i++;
+                    }
+                }
+                nodesToProcess = samples.size();
+            }
+
+            NIdCOTriadV.resize(nodesToProcess);
+
+            std::vector< int64_t> Nbrs1;
+            std::vector< int64_t> Nbrs2;
+            for ( int64_t node = 0; node < nodesToProcess; node++) {
+                typename PGraph::TObj::TNodeI NI;
+                if (SampleNodes == -1) {
+                    NI = Graph->GetNI(node);
+                } else {
+                    NI = Graph->GetNI(samples[node]);
+                }
+                hcount++;
+                if (NI.GetDeg() < 2) {
+                    NIdCOTriadV[node] = TUInt64Tr(node, 0, 0); // zero triangles
+                    continue;
+                }
+                Nbrs1.clear();
+                GetUniqueNbrV(Graph, node, Nbrs1);
+                // count connected neighbors
+                 int64_t OpenCnt1 = 0, CloseCnt1 = 0;
+                for ( int64_t srcNbr = 0; srcNbr < Nbrs1.size(); srcNbr++) {
+                    Nbrs2.clear();
+                    GetUniqueNbrV(Graph, Nbrs1[srcNbr], Nbrs2);
+                     int64_t Count = GetCommon(Nbrs2,Nbrs1);
+                    CloseCnt1 += Count;
+                }
+                CloseCnt1 /= 2;
+                OpenCnt1 = (Nbrs1.size()*(Nbrs1.size()-1))/2 - CloseCnt1;
+                NIdCOTriadV[node] = TUInt64Tr(node, CloseCnt1, OpenCnt1);
+            }
+        }
+
+    template<class PGraph>
+        int64 CountTriangles(const PGraph& Graph) {
+            THash<TInt, TInt> H;
+            TIntV MapV;
+
+            int ind = 0;
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)   {
+                H.AddDat(NI.GetId(), ind);
+                MapV.Add(NI.GetId());
+                ind += 1;
+            }
+
+            TVec<TIntV> HigherDegNbrV(ind);
+
+#ifdef USE_OPENMP
+#pragma omp parallel for schedule(dynamic)
+#endif
+            for (int i = 0; i < ind; i++) {
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(MapV[i]);
+                TIntV NbrV;
+
+                GetMergeSortedV<PGraph>(NbrV, NI);
+
+                TIntV V;
+                for (int j = 0; j < NbrV.Len(); j++) {
+                    TInt Vert = NbrV[j];
+                    TInt Deg = Graph->GetNI(Vert).GetDeg();
+                    if (Deg > NI.GetDeg() ||
+                            (( int64_t)Deg == NI.GetDeg() && Vert > NI.GetId())) {
+                        V.Add(Vert);
+                    }
+                }
+
+                HigherDegNbrV[i] = V;
+
+            }
+
+            int64 cnt = 0;
+#ifdef USE_OPENMP
+#pragma omp parallel for schedule(dynamic) reduction(+:cnt)
+#endif
+            for (int i = 0; i < HigherDegNbrV.Len(); i++) {
+                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
+                    TInt NbrInd = H.GetDat(HigherDegNbrV[i][j]);
+
+                    int64 num = GetCommon(HigherDegNbrV[i], HigherDegNbrV[NbrInd]);
+                    cnt += num;
+                }
+            }
+
+            return cnt;
+        }
+
+    template<class PGraph>
+        int64 GetTriangleCnt(const PGraph& Graph) {
+            struct timeval start, end;
+            struct timeval startall, endall;
+            float delta;
+            TTmProfiler Profiler;
+            int TimerId = Profiler.AddTimer("Profiler");
+            int TimerAll = Profiler.AddTimer("ProfilerAll");
+            const int NNodes = Graph->GetNodes();
+
+            TIntV MapV(NNodes);
+            TVec<typename PGraph::TObj::TNodeI> NV(NNodes);
+            NV.Reduce(0);
+
+            Profiler.ResetTimer(TimerAll);
+            Profiler.StartTimer(TimerAll);
+            gettimeofday(&startall, NULL);
+
+            Profiler.ResetTimer(TimerId);
+            Profiler.StartTimer(TimerId);
+            gettimeofday(&start, NULL);
+
+            int MxId = -1;
+            int ind = 0;
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)   {
+                NV.Add(NI);
+                int Id = NI.GetId();
+                if (Id > MxId) {
+                    MxId = Id;
+                }
+                MapV[ind] = Id;
+                ind++;
+            }
+
+            TIntV IndV(MxId+1);
+
+            for (int j = 0; j < NNodes; j++) {
+                IndV[MapV[j]] = j;
+            }
+
+            gettimeofday(&end, NULL);
+            Profiler.StopTimer(TimerId);
+            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
+                    end.tv_usec - start.tv_usec) / 1.e6;
+            printf("__nodemap__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
+
+            Profiler.ResetTimer(TimerId);
+            Profiler.StartTimer(TimerId);
+            gettimeofday(&start, NULL);
+
+            ind = MapV.Len();
+
+            Profiler.ResetTimer(TimerId);
+            Profiler.StartTimer(TimerId);
+            gettimeofday(&start, NULL);
+
+            TVec<TIntV> HigherDegNbrV(ind);
+
+            for (int i = 0; i < ind; i++) {
+                HigherDegNbrV[i] = TVec<TInt>();
+                HigherDegNbrV[i].Reserve(NV[i].GetDeg());
+                HigherDegNbrV[i].Reduce(0);
+            }
+
+            gettimeofday(&end, NULL);
+            Profiler.StopTimer(TimerId);
+            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
+                    end.tv_usec - start.tv_usec) / 1.e6;
+            printf("__valloc__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
+
+            Profiler.ResetTimer(TimerId);
+            Profiler.StartTimer(TimerId);
+            gettimeofday(&start, NULL);
+
+#ifdef USE_OPENMP
+#pragma omp parallel for schedule(dynamic)
+#endif
+            for (int i = 0; i < ind; i++) {
+                typename PGraph::TObj::TNodeI NI = NV[i];
+                //HigherDegNbrV[i] = TVec<TInt>();
+                //HigherDegNbrV[i].Reserve(NI.GetDeg());
+                //HigherDegNbrV[i].Reduce(0);
+
+                MergeNbrs<PGraph>(HigherDegNbrV[i], NI);
+
+                int k = 0;
+                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
+                    TInt Vert = HigherDegNbrV[i][j];
+                    TInt Deg = NV[IndV[Vert]].GetDeg();
+                    if (Deg > NI.GetDeg() ||
+                            (Deg == NI.GetDeg() && Vert > NI.GetId())) {
+                        HigherDegNbrV[i][k] = Vert;
+                        k++;
+                    }
+                }
+                HigherDegNbrV[i].Reduce(k);
+            }
+
+            gettimeofday(&end, NULL);
+            Profiler.StopTimer(TimerId);
+            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
+                    end.tv_usec - start.tv_usec) / 1.e6;
+            printf("__sort__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
+
+            Profiler.ResetTimer(TimerId);
+            Profiler.StartTimer(TimerId);
+            gettimeofday(&start, NULL);
+
+            int64 cnt = 0;
+#ifdef USE_OPENMP
+#pragma omp parallel for schedule(dynamic) reduction(+:cnt)
+#endif
+            for (int i = 0; i < HigherDegNbrV.Len(); i++) {
+                for (int j = 0; j < HigherDegNbrV[i].Len(); j++) {
+                    //TInt NbrInd = H.GetDat(HigherDegNbrV[i][j]);
+                    TInt NbrInd = IndV[HigherDegNbrV[i][j]];
+
+                    int64 num = GetCommon(HigherDegNbrV[i], HigherDegNbrV[NbrInd]);
+                    cnt += num;
+                }
+            }
+
+            gettimeofday(&end, NULL);
+            Profiler.StopTimer(TimerId);
+            delta = ((end.tv_sec  - start.tv_sec) * 1000000u +
+                    end.tv_usec - start.tv_usec) / 1.e6;
+            printf("__count__\ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerId));
+
+            gettimeofday(&endall, NULL);
+            Profiler.StopTimer(TimerAll);
+            delta = ((endall.tv_sec  - startall.tv_sec) * 1000000u +
+                    endall.tv_usec - startall.tv_usec) / 1.e6;
+            printf("__all__  \ttime %7.3f\tcpu %8.3f\n", delta, Profiler.GetTimerSec(TimerAll));
+
+            return cnt;
+        }
+    template<class PGraph>
+        void MergeNbrs(TIntV& NeighbourV, const typename PGraph::TObj::TNodeI& NI) {
+            int j = 0;
+            int k = 0;
+            int prev = -1;
+            int indeg = NI.GetInDeg();
+            int outdeg = NI.GetOutDeg();
+            //while (j < NI.GetInDeg() && k < NI.GetOutDeg()) {
+            if (indeg > 0  &&  outdeg > 0) {
+                int v1 = NI.GetInNId(j);
+                int v2 = NI.GetOutNId(k);
+                while (1) {
+                    if (v1 <= v2) {
+                        if (prev != v1) {
+                            NeighbourV.Add(v1);
+                            prev = v1;
+                        }
+                        j += 1;
+                        if (j >= indeg) {
+                            break;
+                        }
+                        v1 = NI.GetInNId(j);
+                    } else {
+                        if (prev != v2) {
+                            NeighbourV.Add(v2);
+                            prev = v2;
+                        }
+                        k += 1;
+                        if (k >= outdeg) {
+                            break;
+                        }
+                        v2 = NI.GetOutNId(k);
+                    }
+                }
+            }
+            while (j < indeg) {
+                int v = NI.GetInNId(j);
+                if (prev != v) {
+                    NeighbourV.Add(v);
+                    prev = v;
+                }
+                j += 1;
+            }
+            while (k < outdeg) {
+                int v = NI.GetOutNId(k);
+                if (prev != v) {
+                    NeighbourV.Add(v);
+                    prev = v;
+                }
+                k += 1;
+            }
+        }
+
+        // Count the number of edges that participate in at least one triad
+        template <class PGraph>
+            int GetTriadEdges(const PGraph& Graph, int SampleEdges) {
+                const bool IsDir = Graph->HasFlag(gfDirected);
+                TIntSet NbrH;
+                int TriadEdges = 0;
+                for(typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    NbrH.Clr(false);
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        if (NI.GetOutNId(e) != NI.GetId()) {
+                            NbrH.AddKey(NI.GetOutNId(e)); }
+                    }
+                    if (IsDir) {
+                        for (int e = 0; e < NI.GetInDeg(); e++) {
+                            if (NI.GetInNId(e) != NI.GetId()) {
+                                NbrH.AddKey(NI.GetInNId(e)); }
+                        }
+                    }
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        if (!IsDir && NI.GetId()<NI.GetOutNId(e)) { continue; } // for undirected graphs count each edge only once
+                        const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NI.GetOutNId(e));
+                        bool Triad=false;
+                        for (int e1 = 0; e1 < SrcNode.GetOutDeg(); e1++) {
+                            if (NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
+                        }
+                        if (IsDir && ! Triad) {
+                            for (int e1 = 0; e1 < SrcNode.GetInDeg(); e1++) {
+                                if (NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
+                            }
+                        }
+                        if (Triad) { TriadEdges++; }
+                    }
+                }
+                return TriadEdges;
+            }
+
+        // Returns number of undirected triads a node participates in
+        template <class PGraph>
+            int GetNodeTriads(const PGraph& Graph, const int& NId) {
+                int ClosedTriads=0, OpenTriads=0;
+                return GetNodeTriads(Graph, NId, ClosedTriads, OpenTriads);
+            }
+
+        // Return number of undirected triads a node participates in
+        template <class PGraph>
+            int GetNodeTriads(const PGraph& Graph, const int& NId, int& ClosedTriads, int& OpenTriads) {
+                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+                ClosedTriads=0;  OpenTriads=0;
+                if (NI.GetDeg() < 2) { return 0; }
+                // find neighborhood
+                TIntSet NbrSet(NI.GetDeg());
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    if (NI.GetOutNId(e) != NI.GetId()) { // exclude self edges
+                        NbrSet.AddKey(NI.GetOutNId(e)); }
+                }
+                if (Graph->HasFlag(gfDirected)) {
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        if (NI.GetInNId(e) != NI.GetId()) { // exclude self edges
+                            NbrSet.AddKey(NI.GetInNId(e)); }
+                    }
+                }
+                // count connected neighbors
+                for (int srcNbr = 0; srcNbr < NbrSet.Len(); srcNbr++) {
+                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrSet.GetKey(srcNbr));
+                    for (int dstNbr = srcNbr+1; dstNbr < NbrSet.Len(); dstNbr++) {
+                        const int dstNId = NbrSet.GetKey(dstNbr);
+                        if (SrcNode.IsNbrNId(dstNId)) { ClosedTriads++; }
+                        else { OpenTriads++; }
+                    }
+                }
+                return ClosedTriads;
+            }
+
+        // Node NId and a subset of its neighbors GroupSet
+        //   InGroupEdges ... triads (NId, g1, g2), where g1 and g2 are in GroupSet
+        //   InOutGroupEdges ... triads (NId, g1, o1), where g1 in GroupSet and o1 not in GroupSet
+        //   OutGroupEdges ... triads (NId, o1, o2), where o1 and o2 are not in GroupSet
+        template <class PGraph>
+            int GetNodeTriads(const PGraph& Graph, const int& NId, const TIntSet& GroupSet, int& InGroupEdges, int& InOutGroupEdges, int& OutGroupEdges) {
+                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+                const bool IsDir = Graph->HasFlag(gfDirected);
+                InGroupEdges=0;  InOutGroupEdges=0;  OutGroupEdges=0;
+                if (NI.GetDeg() < 2) { return 0; }
+                // find neighborhood
+                TIntSet NbrSet(NI.GetDeg());
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    if (NI.GetOutNId(e) != NI.GetId()) { // exclude self edges
+                        NbrSet.AddKey(NI.GetOutNId(e)); }
+                }
+                if (IsDir) {
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        if (NI.GetInNId(e) != NI.GetId()) {
+                            NbrSet.AddKey(NI.GetInNId(e)); }
+                    }
+                }
+                // count connected neighbors
+                for (int srcNbr = 0; srcNbr < NbrSet.Len(); srcNbr++) {
+                    const int NbrId = NbrSet.GetKey(srcNbr);
+                    const bool NbrIn = GroupSet.IsKey(NbrId);
+                    const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NbrId);
+                    for (int dstNbr = srcNbr+1; dstNbr < NbrSet.Len(); dstNbr++) {
+                        const int DstNId = NbrSet.GetKey(dstNbr);
+                        if (SrcNode.IsNbrNId(DstNId)) { // triad (NId, NbrId, DstNid)
+                            bool DstIn = GroupSet.IsKey(DstNId);
+                            if (NbrIn && DstIn) { InGroupEdges++; }
+                            else if (NbrIn || DstIn) { InOutGroupEdges++; }
+                            else { OutGroupEdges++; }
+                        }
+                    }
+                }
+                return InGroupEdges;
+            }
+
+        // For each node count how many triangles it participates in
+        template <class PGraph>
+            void GetTriadParticip(const PGraph& Graph, TIntPrV& TriadCntV) {
+                TIntH TriadCntH;
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    const int Triads = GetNodeTriads(Graph, NI.GetId());
+                    TriadCntH.AddDat(Triads) += 1;
+                }
+                TriadCntH.GetKeyDatPrV(TriadCntV);
+                TriadCntV.Sort();
+            }
+
+        template<class PGraph>
+            int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2) {
+                TIntV NbrV;
+                return GetCmnNbrs(Graph, NId1, NId2, NbrV);
+            }
+
+        // Get common neighbors between a pair of nodes (undirected)
+        template<class PGraph>
+            int GetCmnNbrs(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
+                if (! Graph->IsNode(NId1) || ! Graph->IsNode(NId2)) { NbrV.Clr(false); return 0; }
+                typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId1);
+                typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(NId2);
+                NbrV.Clr(false);
+                NbrV.Reserve(TMath::Mn(NI1.GetDeg(), NI2.GetDeg()));
+                TIntSet NSet1(NI1.GetDeg()), NSet2(NI2.GetDeg());
+                for (int i = 0; i < NI1.GetDeg(); i++) {
+                    const int nid = NI1.GetNbrNId(i);
+                    if (nid!=NId1 && nid!=NId2) {
+                        NSet1.AddKey(nid); }
+                }
+                for (int i = 0; i < NI2.GetDeg(); i++) {
+                    const int nid = NI2.GetNbrNId(i);
+                    if (NSet1.IsKey(nid)) {
+                        NSet2.AddKey(nid);
+                    }
+                }
+                NSet2.GetKeyV(NbrV);
+                return NbrV.Len();
+            }
+
+        template<>
+            inline int GetCmnNbrs<PUNGraph>(const PUNGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
+                if (! Graph->IsNode(NId1) || ! Graph->IsNode(NId2)) { NbrV.Clr(false); return 0; }
+                const TUNGraph::TNodeI NI1 = Graph->GetNI(NId1);
+                const TUNGraph::TNodeI NI2 = Graph->GetNI(NId2);
+                int i=0, j=0;
+                NbrV.Clr(false);
+                NbrV.Reserve(TMath::Mn(NI1.GetDeg(), NI2.GetDeg()));
+                while (i < NI1.GetDeg() && j < NI2.GetDeg()) {
+                    const int nid = NI1.GetNbrNId(i);
+                    while (j < NI2.GetDeg() && NI2.GetNbrNId(j) < nid) { j++; }
+                    if (j < NI2.GetDeg() && nid==NI2.GetNbrNId(j) && nid!=NId1 && nid!=NId2) {
+                        IAssert(NbrV.Empty() || NbrV.Last() < nid);
+                        NbrV.Add(nid);
+                        j++;
+                    }
+                    i++;
+                }
+                return NbrV.Len();
+            }
+
+        // get number of length 2 directed paths between a pair of nodes
+        // for a pair of nodes (i,j): |{u: (i,u) and (u,j) }|
+        template<class PGraph>
+            int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2) {
+                TIntV NbrV;
+                return GetLen2Paths(Graph, NId1, NId2, NbrV);
+            }
+
+        // get number of length 2 directed paths between a pair of nodes
+        // for a pair of nodes (i,j): {u: (i,u) and (u,j) }
+        template<class PGraph>
+            int GetLen2Paths(const PGraph& Graph, const int& NId1, const int& NId2, TIntV& NbrV) {
+                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId1);
+                NbrV.Clr(false);
+                NbrV.Reserve(NI.GetOutDeg());
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    const typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(NI.GetOutNId(e));
+                    if (MidNI.IsOutNId(NId2)) {
+                        NbrV.Add(MidNI.GetId());
+                    }
+                }
+                return NbrV.Len();
+            }
+
+        template <class PGraph>
+            void GetUniqueNbrV(const PGraph& Graph, const int& NId, TIntV& NbrV) {
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+                NbrV.Reserve(NI.GetDeg());
+                NbrV.Reduce(0);
+
+                int j = 0;
+                int k = 0;
+                int Prev = -1;
+                int InDeg = NI.GetInDeg();
+                int OutDeg = NI.GetOutDeg();
+                if (InDeg > 0  &&  OutDeg > 0) {
+                    int v1 = NI.GetInNId(j);
+                    int v2 = NI.GetOutNId(k);
+                    while (1) {
+                        if (v1 <= v2) {
+                            if (Prev != v1) {
+                                if (v1 != NId) {
+                                    NbrV.Add(v1);
+                                    Prev = v1;
+                                }
+                            }
+                            j += 1;
+                            if (j >= InDeg) {
+                                break;
+                            }
+                            v1 = NI.GetInNId(j);
+                        } else {
+                            if (Prev != v2) {
+                                if (v2 != NId) {
+                                    NbrV.Add(v2);
+                                }
+                                Prev = v2;
+                            }
+                            k += 1;
+                            if (k >= OutDeg) {
+                                break;
+                            }
+                            v2 = NI.GetOutNId(k);
+                        }
+                    }
+                }
+                while (j < InDeg) {
+                    int v = NI.GetInNId(j);
+                    if (Prev != v) {
+                        if (v != NId) {
+                            NbrV.Add(v);
+                        }
+                        Prev = v;
+                    }
+                    j += 1;
+                }
+                while (k < OutDeg) {
+                    int v = NI.GetOutNId(k);
+                    if (Prev != v) {
+                        if (v != NId) {
+                            NbrV.Add(v);
+                        }
+                        Prev = v;
+                    }
+                    k += 1;
+                }
+            }
+
+        template <class PGraph>
+            void GetUniqueNbrV(const PGraph& Graph, const  int64_t& NId, std::vector< int64_t>& NbrV) {
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
+
+                 int64_t j = 0;
+                 int64_t k = 0;
+                 int64_t Prev = -1;
+                 int64_t InDeg = NI.GetInDeg();
+                 int64_t OutDeg = NI.GetOutDeg();
+                if (InDeg > 0  &&  OutDeg > 0) {
+                     int64_t v1 = NI.GetInNId(j);
+                     int64_t v2 = NI.GetOutNId(k);
+                    while (1) {
+                        if (v1 <= v2) {
+                            if (Prev != v1) {
+                                if (v1 != NId) {
+                                    NbrV.push_back(v1);
+                                    Prev = v1;
+                                }
+                            }
+                            j += 1;
+                            if (j >= InDeg) {
+                                break;
+                            }
+                            v1 = NI.GetInNId(j);
+                        } else {
+                            if (Prev != v2) {
+                                if (v2 != NId) {
+                                    NbrV.push_back(v2);
+                                }
+                                Prev = v2;
+                            }
+                            k += 1;
+                            if (k >= OutDeg) {
+                                break;
+                            }
+                            v2 = NI.GetOutNId(k);
+                        }
+                    }
+                }
+                while (j < InDeg) {
+                     int64_t v = NI.GetInNId(j);
+                    if (Prev != v) {
+                        if (v != NId) {
+                            NbrV.push_back(v);
+                        }
+                        Prev = v;
+                    }
+                    j += 1;
+                }
+                while (k < OutDeg) {
+                     int64_t v = NI.GetOutNId(k);
+                    if (Prev != v) {
+                        if (v != NId) {
+                            NbrV.push_back(v);
+                        }
+                        Prev = v;
+                    }
+                    k += 1;
+                }
+            }
+
+        }; // mamespace TSnap
+
+    /////////////////////////////////////////////////
+    // Node and Edge Network Constraint (by Ron Burt)
+    // works for directed and undirected graphs (but not for multigraphs)
+    template <class PGraph>
+        class TNetConstraint {
+            public:
+                PGraph Graph;
+                THash<TIntPr, TFlt> NodePrCH; // pairs of nodes that have non-zero network constraint
+            public:
+                TNetConstraint(const PGraph& GraphPt, const bool& CalcaAll=true);
+                int Len() const { return NodePrCH.Len(); }
+                double GetC(const int& ConstraintN) const { return NodePrCH[ConstraintN]; }
+                TIntPr GetNodePr(const int& ConstraintN) const { return NodePrCH.GetKey(ConstraintN); }
+                double GetEdgeC(const int& NId1, const int& NId2) const;
+                double GetNodeC(const int& NId) const;
+                void AddConstraint(const int& NId1, const int& NId2);
+                void CalcConstraints();
+                void CalcConstraints(const int& NId);
+                void Dump() const;
+                static void Test();
+        };
+
+    template <class PGraph>
+        TNetConstraint<PGraph>::TNetConstraint(const PGraph& GraphPt, const bool& CalcaAll) : Graph(GraphPt) {
+            CAssert(! HasGraphFlag(typename PGraph::TObj, gfMultiGraph)); // must not be multigraph
+            if (CalcaAll) {
+                CalcConstraints();
+            }
+        }
+
+    template <class PGraph>
+        double TNetConstraint<PGraph>::GetEdgeC(const int& NId1, const int& NId2) const {
+            if (NodePrCH.IsKey(TIntPr(NId1, NId2))) {
+                return NodePrCH.GetDat(TIntPr(NId1, NId2)); }
+            else {
+                return 0.0; }
+        }
+
+    template <class PGraph>
+        double TNetConstraint<PGraph>::GetNodeC(const int& NId) const {
+            typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId);
+            if (NI1.GetOutDeg() == 0) { return 0.0; }
+            int KeyId = -1;
+            for (int k = 0; k<NI1.GetOutDeg(); k++) {
+                KeyId = NodePrCH.GetKeyId(TIntPr(NI1.GetId(), NI1.GetOutNId(k)));
+                if (KeyId > -1) { break; }
+            }
+            if (KeyId < 0) { return 0.0; }
+            double Constraint = NodePrCH[KeyId];
+            for (int i = KeyId-1; i >-1 && NodePrCH.GetKey(i).Val1()==NId; i--) {
+                Constraint += NodePrCH[i];
+            }
+            for (int i = KeyId+1; i < NodePrCH.Len() && NodePrCH.GetKey(i).Val1()==NId; i++) {
+                Constraint += NodePrCH[i];
+            }
+            return Constraint;
+        }
+
+    template <class PGraph>
+        void TNetConstraint<PGraph>::AddConstraint(const int& NId1, const int& NId2) {
+            if (NId1==NId2 || NodePrCH.IsKey(TIntPr(NId1, NId2))) {
+                return;
+            }
+            typename PGraph::TObj::TNodeI NI1 = Graph->GetNI(NId1);
+            double Constraint = 0.0;
+            if (NI1.IsOutNId(NId2)) { // is direct edge
+                Constraint += 1.0/(double) NI1.GetOutDeg();
+            }
+            const double SrcC = 1.0/(double) NI1.GetOutDeg();
+            for (int e = 0; e < NI1.GetOutDeg(); e++) {
+                const int MidNId = NI1.GetOutNId(e);
+                if (MidNId == NId1 || MidNId == NId2) { continue; }
+                const typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(MidNId);
+                if (MidNI.IsOutNId(NId2)) {
+                    Constraint += SrcC * (1.0/(double)MidNI.GetOutDeg());
+                }
+            }
+            if (Constraint==0) { return; }
+            Constraint = TMath::Sqr(Constraint);
+            NodePrCH.AddDat(TIntPr(NId1, NId2), Constraint);
+        }
+
+    template <class PGraph>
+        void TNetConstraint<PGraph>::CalcConstraints() {
+            // add edges
+            for (typename PGraph::TObj::TEdgeI EI = Graph->BegEI(); EI < Graph->EndEI(); EI++) {
+                AddConstraint(EI.GetSrcNId(), EI.GetDstNId());
+                AddConstraint(EI.GetDstNId(), EI.GetSrcNId());
+            }
+            // add open triads
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                for (int i = 0; i < NI.GetDeg();  i++) {
+                    const int NId1 = NI.GetNbrNId(i);
+                    for (int j = 0; j < NI.GetDeg();  j++) {
+                        const int NId2 = NI.GetNbrNId(j);
+                        AddConstraint(NId1, NId2);
+                    }
+                }
+            }
+            NodePrCH.SortByKey();
+        }
+
+    // calculate constraints around a node id
+    template <class PGraph>
+        void TNetConstraint<PGraph>::CalcConstraints(const int& NId) {
+            typename PGraph::TObj::TNodeI StartNI = Graph->GetNI(NId);
+            TIntSet SeenSet;
+            for (int e = 0; e < StartNI.GetOutDeg(); e++) {
+                typename PGraph::TObj::TNodeI MidNI = Graph->GetNI(StartNI.GetOutNId(e));
+                AddConstraint(NId, MidNI.GetId());
+                for (int i = 0; i < MidNI.GetOutDeg();  i++) {
+                    const int EndNId = MidNI.GetOutNId(i);
+                    if (! SeenSet.IsKey(EndNId)) {
+                        AddConstraint(NId, EndNId);
+                        SeenSet.AddKey(EndNId);
+                    }
+                }
+            }
+        }
+
+    template <class PGraph>
+        void TNetConstraint<PGraph>::Dump() const {
+            printf("Edge network constraint: (%d, %d)\n", Graph->GetNodes(), Graph->GetEdges());
+            for (int e = 0; e < NodePrCH.Len(); e++) {
+                printf("  %4d %4d  :  %f\n", NodePrCH.GetKey(e).Val1(), NodePrCH.GetKey(e).Val2(), NodePrCH[e].Val);
+            }
+            printf("\n");
+        }
+
+    // example from page 56 of Structural Holes by Ronald S. Burt
+    // (http://www.amazon.com/Structural-Holes-Social-Structure-Competition/dp/0674843711)
+    template <class PGraph>
+        void TNetConstraint<PGraph>::Test() {
+            PUNGraph G = TUNGraph::New();
+            G->AddNode(0); G->AddNode(1); G->AddNode(2); G->AddNode(3);
+            G->AddNode(4); G->AddNode(5); G->AddNode(6);
+            G->AddEdge(0,1); G->AddEdge(0,2); G->AddEdge(0,3); G->AddEdge(0,4); G->AddEdge(0,5); G->AddEdge(0,6);
+            G->AddEdge(1,2); G->AddEdge(1,5);  G->AddEdge(1,6);
+            G->AddEdge(2,4);
+            TNetConstraint<PUNGraph> NetConstraint(G, true);
+            // NetConstraint.CalcConstraints(0);
+            NetConstraint.Dump();
+            printf("middle node network constraint: %f\n", NetConstraint.GetNodeC(0));
+        }
+
+#endif // TRIAD_H
-- 
2.43.0


From 748d206f13729c3fe70f62f98411cb142eeaa396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 062/147] fix: GetTriads takes positions for node ids and
 counts the wrong nodes of a sample

---
 snap/snap-core/triad.h | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index b0beecf..10d2403 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <random>
 #include <set>
+#include <algorithm>
 
 namespace TSnap {
 
@@ -399,43 +400,33 @@ namespace TSnap {
             int64 hcount;
             hcount = 0;
 
-            std::vector< int64_t> samples;
-             int64_t nodesToProcess = NNodes;
-            if (SampleNodes != -1) {
+            std::vector< int64_t> samples; // ids of the nodes to process
+            samples.reserve(NNodes);
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                samples.push_back(NI.GetId());
+            }
+            if (SampleNodes != -1 && SampleNodes < NNodes) {
                 std::random_device rd;
                 std::mt19937 gen(rd());
-                std::uniform_int_distribution< int64_t> dis(0, NNodes);
-
-                std::set< int64_t> set_samples;
-                for( int64_t i = 0; i < SampleNodes; ) {
-                     int64_t id = dis(gen);
-                    if (!set_samples.count(id)) {
-                        set_samples.insert(id);
-                        samples.push_back(id);
-                        i++;
-                    }
-                }
-                nodesToProcess = samples.size();
+                std::shuffle(samples.begin(), samples.end(), gen);
+                samples.resize(SampleNodes);
             }
+            const int64_t nodesToProcess = samples.size();
 
             NIdCOTriadV.resize(nodesToProcess);
 
             std::vector< int64_t> Nbrs1;
             std::vector< int64_t> Nbrs2;
             for ( int64_t node = 0; node < nodesToProcess; node++) {
-                typename PGraph::TObj::TNodeI NI;
-                if (SampleNodes == -1) {
-                    NI = Graph->GetNI(node);
-                } else {
-                    NI = Graph->GetNI(samples[node]);
-                }
+                const int64_t NId = samples[node];
+                typename PGraph::TObj::TNodeI NI = Graph->GetNI(NId);
                 hcount++;
                 if (NI.GetDeg() < 2) {
-                    NIdCOTriadV[node] = TUInt64Tr(node, 0, 0); // zero triangles
+                    NIdCOTriadV[node] = TUInt64Tr(NId, 0, 0); // zero triangles
                     continue;
                 }
                 Nbrs1.clear();
-                GetUniqueNbrV(Graph, node, Nbrs1);
+                GetUniqueNbrV(Graph, NId, Nbrs1);
                 // count connected neighbors
                  int64_t OpenCnt1 = 0, CloseCnt1 = 0;
                 for ( int64_t srcNbr = 0; srcNbr < Nbrs1.size(); srcNbr++) {
@@ -446,7 +437,7 @@ namespace TSnap {
                 }
                 CloseCnt1 /= 2;
                 OpenCnt1 = (Nbrs1.size()*(Nbrs1.size()-1))/2 - CloseCnt1;
-                NIdCOTriadV[node] = TUInt64Tr(node, CloseCnt1, OpenCnt1);
+                NIdCOTriadV[node] = TUInt64Tr(NId, CloseCnt1, OpenCnt1);
             }
         }
 
-- 
2.43.0


From ac711536373eb23aaeba93e4f0c5ecf38c629322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 063/147] fix: GetNodeClustCf writes past the end of an empty
 vector

---
 snap/snap-core/triad.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 10d2403..44b8fd8 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -208,10 +208,12 @@ namespace TSnap {
             std::vector<TUInt64Tr> NIdCOTriadV;
             GetTriads(Graph, NIdCOTriadV);
             NIdCCfH.clear();
-            NIdCCfH.reserve(Graph->GetNodes());
+            NIdCCfH.resize(Graph->GetNodes());
             for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
                 const  int64_t D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
                 const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
+                if (NIdCOTriadV[i].Val1 >= NIdCCfH.size()) {
+                    NIdCCfH.resize(NIdCOTriadV[i].Val1 + 1); }
                 NIdCCfH[NIdCOTriadV[i].Val1] = CCf;
             }
         }
-- 
2.43.0


From b4e5e7c1e99658f8e022446b23733dac544adaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 064/147] fix: GetTriadEdges takes self loops for triads

---
 snap/snap-core/triad.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 44b8fd8..71c18f6 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -705,14 +705,16 @@ namespace TSnap {
                     }
                     for (int e = 0; e < NI.GetOutDeg(); e++) {
                         if (!IsDir && NI.GetId()<NI.GetOutNId(e)) { continue; } // for undirected graphs count each edge only once
-                        const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NI.GetOutNId(e));
+                        const int OtherNId = NI.GetOutNId(e);
+                        if (OtherNId == NI.GetId()) { continue; } // a self loop is in no triad
+                        const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(OtherNId);
                         bool Triad=false;
                         for (int e1 = 0; e1 < SrcNode.GetOutDeg(); e1++) {
-                            if (NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
+                            if (SrcNode.GetOutNId(e1) != OtherNId && NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
                         }
                         if (IsDir && ! Triad) {
                             for (int e1 = 0; e1 < SrcNode.GetInDeg(); e1++) {
-                                if (NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
+                                if (SrcNode.GetInNId(e1) != OtherNId && NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
                             }
                         }
                         if (Triad) { TriadEdges++; }
-- 
2.43.0


From 18beb03f4500b7f9ec03baa3eadf768ac16b49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 065/147] fix: GetPageRank_stl uses the out-degrees of other
 nodes when nodes are not visited in id order

---
 snap/snap-core/centr.h | 1649 ++++++++++++++++++++--------------------
 1 file changed, 824 insertions(+), 825 deletions(-)

diff --git a/snap/snap-core/centr.h b/snap/snap-core/centr.h
index af75285..c4c8ddb 100644
--- a/snap/snap-core/centr.h
+++ b/snap/snap-core/centr.h
@@ -1,825 +1,824 @@
-#include <stdio.h>
-#include <iostream>
-#include <vector>
-#include <chrono>
-#include <random>
-#include <set>
-#include <algorithm>
-#include <assert.h>
-
-namespace TSnap {
-
-    /////////////////////////////////////////////////
-    // Node centrality measures (See: http://en.wikipedia.org/wiki/Centrality)
-
-    /// Returns Degree centrality of a given node NId.
-    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
-    double GetDegreeCentr(const PUNGraph& Graph, const int& NId);
-    /// Returns Group Degree centrality of a given group NId.
-    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
-    //double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group);
-    double GetGroupDegreeCentr(const PUNGraph& Graph, const TIntH& GroupNodes);
-    /// Returns Group Degree centrality of a given group NId.
-    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
-    //double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group);
-    double GetGroupClosenessCentr(const PUNGraph& Graph, const TIntH& GroupNodes);
-    /// Returns centrality Maximum k group.
-    TIntH MaxCPGreedyBetter(const PUNGraph& Graph, const int k);
-    /// Returns centrality Maximum k group.
-    TIntH MaxCPGreedyBetter1(const PUNGraph& Graph, const int k);
-    /// Returns centrality Maximum k group.
-    TIntH MaxCPGreedyBetter2(const PUNGraph& Graph, const int k);
-    /// Returns centrality Maximum k group.
-    TIntH MaxCPGreedyBetter3(const PUNGraph& Graph, const int k);
-    /// Event importance
-    TIntFltH EventImportance(const PNGraph& Graph, const int k);
-    /// Intersect
-    int Intersect(TUNGraph::TNodeI Node, TIntH NNodes);
-    /// Intersect
-    int Intersect(TUNGraph::TNodeI Node, TStr NNodes);
-    /// Intersect
-    int Intersect(TUNGraph::TNodeI Node, int *NNodes, int NNodes_br);
-    //Load nodes list
-    int Intersect1(TUNGraph::TNodeI Node, TStr NNodes);
-    //Load nodes list
-    TIntH LoadNodeList(TStr InFNmNodes);
-    /// Returns Farness centrality of a given node NId.
-    /// Farness centrality of a node is the average shortest path length to all other nodes that reside is the same connected component as the given node.
-    template <class PGraph> double GetFarnessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
-
-    template <class PGraph> double GetFarnessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
-
-    /// Returns weighted Farness centrality of a given node \c NId.
-    /// Farness centrality of a node is the average shortest path length to all other nodes that reside is the same connected component as the given node.
-    double GetWeightedFarnessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized = true);
-
-    /// Returns Closeness centrality of a given node NId.
-    /// Closeness centrality of a node is defined as 1/FarnessCentrality.
-    template <class PGraph> double GetClosenessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
-    template <class PGraph> double GetClosenessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
-    /// Returns Closeness centrality of a given node \c NId.
-    /// Closeness centrality of a node is defined as 1/FarnessCentrality.
-    double GetWeightedClosenessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized = true);
-    /// Returns node Eccentricity, the largest shortest-path distance from the node NId to any other node in the Graph.
-    /// @param IsDir false: ignore edge directions and consider edges as undirected (in case they are directed).
-    template <class PGraph> int GetNodeEcc(const PGraph& Graph, const int& NId, const bool& IsDir=false);
-
-    /// Computes (approximate) Node Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NIdBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
-    template<class PGraph> void GetBetweennessCentr_stl(const PGraph& Graph, std::vector<float>& NIdBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) weighted Node Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NIdBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntPrFltH& EdgeBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) weighted Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) Node and Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
-    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NIdBtwH, TIntPrFltH& EdgeBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) weighted Node and Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
-    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
-    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
-    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NIdBtwH, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
-    /// Computes (approximate) Beetweenness Centrality of all nodes and all edges of the network.
-    /// To obtain exact betweenness values one needs to solve single-source shortest-path problem for every node.
-    /// To speed up the algorithm we solve the shortest-path problem for the BtwNIdV subset of nodes. This gives centrality values that are about Graph->GetNodes()/BtwNIdV.Len() times lower than the exact betweenness centrality valus.
-    /// See "A Faster Algorithm for Beetweenness Centrality", Ulrik Brandes, Journal of Mathematical Sociology, 2001, and
-    /// "Centrality Estimation in Large Networks", Urlik Brandes and Christian Pich, 2006 for more details.
-    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent);
-    /// Computes (approximate) weighted Beetweenness Centrality of all nodes and all edges of the network.
-    void GetWeightedBetweennessCentr(const PNEANet Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent, const TFltV& Attr);
-    /// Computes Eigenvector Centrality of all nodes in the network
-    /// Eigenvector Centrality of a node N is defined recursively as the average of centrality values of N's neighbors in the network.
-    void GetEigenVectorCentr(const PUNGraph& Graph, TIntFltH& NIdEigenH, const double& Eps=1e-4, const int& MaxIter=100);
-
-    /// PageRank
-    /// For more info see: http://en.wikipedia.org/wiki/PageRank
-    template<class PGraph> void GetPageRank(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-    template<class PGraph> void GetPageRank_stl_raw(const PGraph& Graph, double *PRankH, uint64_t *OutDegV, const bool initPRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-    template<class PGraph> void GetPageRank_stl(const PGraph& Graph, std::vector<double>& PRankH, const bool initPRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-    template<class PGraph> void GetPageRank_v1(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-#ifdef USE_OPENMP
-    template<class PGraph> void GetPageRankMP(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-#endif
-
-    /// Weighted PageRank (TODO: Use template)
-    int GetWeightedPageRank(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-#ifdef USE_OPENMP
-    int GetWeightedPageRankMP(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
-#endif
-
-    /// HITS: Hubs and Authorities
-    /// For more info see: http://en.wikipedia.org/wiki/HITS_algorithm)
-    template<class PGraph> void GetHits(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter=20);
-    template<class PGraph> void GetHits_stl(const PGraph& Graph, std::vector<float>& NIdHubH, std::vector<float>& NIdAuthH, const int& MaxIter=20);
-#ifdef USE_OPENMP
-    template<class PGraph> void GetHitsMP(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter=20);
-#endif
-
-    /// Dijkstra Algorithm
-    /// For more info see:  https://en.wikipedia.org/wiki/Dijkstra%27s_algorithm
-    int GetWeightedShortestPath(const PNEANet Graph, const int& SrcNId, TIntFltH& NIdDistH, const TFltV& Attr);
-    /////////////////////////////////////////////////
-    // Implementation
-    template <class PGraph>
-        double GetFarnessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
-            TIntH NDistH(Graph->GetNodes());
-            TSnap::GetShortPath<PGraph>(Graph, NId, NDistH, IsDir, TInt::Mx);
-
-            double sum = 0;
-            for (TIntH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
-                sum += I->Dat();
-            }
-            if (NDistH.Len() > 1) {
-                double centr = sum/double(NDistH.Len()-1);
-                if (Normalized) {
-                    centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
-                }
-                return centr;
-            }
-            else { return 0.0; }
-        }
-
-    template <class PGraph>
-        double GetFarnessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
-            TIntH NDistH(Graph->GetNodes());
-            TSnap::GetShortPath<PGraph>(Graph, NId, NDistH, IsDir, TInt::Mx);
-
-            double sum = 0;
-            for (TIntH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
-                sum += I->Dat();
-            }
-            if (NDistH.Len() > 1) {
-                double centr = sum/double(NDistH.Len()-1);
-                if (Normalized) {
-                    centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
-                }
-                return centr;
-            }
-            else { return 0.0; }
-        }
-
-    template <class PGraph>
-        double GetClosenessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
-            const double Farness = GetFarnessCentr<PGraph> (Graph, NId, IsDir, Normalized);
-            if (Farness != 0.0) { return 1.0/Farness; }
-            else { return 0.0; }
-            return 0.0;
-        }
-
-    template <class PGraph>
-        double GetClosenessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
-            const double Farness = GetFarnessCentrMP<PGraph> (Graph, NId, IsDir, Normalized);
-            if (Farness != 0.0) { return 1.0/Farness; }
-            else { return 0.0; }
-            return 0.0;
-        }
-
-    template <class PGraph>
-        int GetNodeEcc(const PGraph& Graph, const int& NId, const bool& IsDir) {
-            int NodeEcc;
-            int Dist;
-            TBreathFS<PGraph> BFS(Graph);
-            // get shortest paths to all the nodes
-            BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
-
-            NodeEcc = 0;
-            // find the largest value
-            for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
-                Dist = BFS.NIdDistH[i];
-                if (Dist > NodeEcc) {
-                    NodeEcc = Dist;
-                }
-            }
-            return NodeEcc;
-        }
-
-    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
-    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
-    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
-    // This implementation is an unoptimized version, it accesses nodes via a hash table.
-    template<class PGraph>
-        void GetPageRank_v1(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
-            const int NNodes = Graph->GetNodes();
-            //const double OneOver = 1.0/double(NNodes);
-            PRankH.Gen(NNodes);
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
-                //IAssert(NI.GetId() == PRankH.GetKey(PRankH.Len()-1));
-            }
-            TFltV TmpV(NNodes);
-            for (int iter = 0; iter < MaxIter; iter++) {
-                int j = 0;
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
-                    TmpV[j] = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        const int InNId = NI.GetInNId(e);
-                        const int OutDeg = Graph->GetNI(InNId).GetOutDeg();
-                        if (OutDeg > 0) {
-                            TmpV[j] += PRankH.GetDat(InNId) / OutDeg; }
-                    }
-                    TmpV[j] =  C*TmpV[j]; // Berkhin (the correct way of doing it)
-                    //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
-                }
-                double diff=0, sum=0, NewVal;
-                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
-                const double Leaked = (1.0-sum) / double(NNodes);
-                for (int i = 0; i < PRankH.Len(); i++) { // re-instert leaked PageRank
-                    NewVal = TmpV[i] + Leaked; // Berkhin
-                    //NewVal = TmpV[i] / sum;  // iGraph
-                    diff += fabs(NewVal-PRankH[i]);
-                    PRankH[i] = NewVal;
-                }
-                if (diff < Eps) { break; }
-            }
-        }
-
-    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
-    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
-    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
-    // This implementation is an optimized version, it builds a vector and accesses nodes via the vector.
-    template<class PGraph>
-        void GetPageRank(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
-            const int NNodes = Graph->GetNodes();
-            TVec<typename PGraph::TObj::TNodeI> NV;
-            PRankH.Gen(NNodes);
-            int MxId = -1;
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                NV.Add(NI);
-                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
-                int Id = NI.GetId();
-                if (Id > MxId) {
-                    MxId = Id;
-                }
-            }
-
-            TFltV PRankV(MxId+1);
-            TIntV OutDegV(MxId+1);
-
-            for (int j = 0; j < NNodes; j++) {
-                typename PGraph::TObj::TNodeI NI = NV[j];
-                int Id = NI.GetId();
-                PRankV[Id] = 1.0/NNodes;
-                OutDegV[Id] = NI.GetOutDeg();
-            }
-
-            TFltV TmpV(NNodes);
-
-            for (int iter = 0; iter < MaxIter; iter++) {
-                for (int j = 0; j < NNodes; j++) {
-                    typename PGraph::TObj::TNodeI NI = NV[j];
-                    TFlt Tmp = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        const int InNId = NI.GetInNId(e);
-                        const int OutDeg = OutDegV[InNId];
-                        if (OutDeg > 0) {
-                            Tmp += PRankV[InNId] / OutDeg;
-                        }
-                    }
-                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-                }
-                double sum = 0;
-                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
-                const double Leaked = (1.0-sum) / double(NNodes);
-
-                double diff = 0;
-                for (int i = 0; i < NNodes; i++) {
-                    typename PGraph::TObj::TNodeI NI = NV[i];
-                    double NewVal = TmpV[i] + Leaked; // Berkhin
-                    int Id = NI.GetId();
-                    diff += fabs(NewVal-PRankV[Id]);
-                    PRankV[Id] = NewVal;
-                }
-                if (diff < Eps) { break; }
-            }
-
-            for (int i = 0; i < NNodes; i++) {
-                typename PGraph::TObj::TNodeI NI = NV[i];
-                PRankH[i] = PRankV[NI.GetId()];
-            }
-        }
-
-    template<class PGraph>
-        void GetPageRank_stl(const PGraph& Graph, std::vector<double>& PRankH, const bool initPRankH, const double& C, const double& Eps, const int& MaxIter) {
-            const int64_t NNodes = Graph->GetNodes();
-            PRankH.resize(NNodes);
-            std::vector<uint64_t> OutDegV;
-            OutDegV.resize(NNodes);
-            GetPageRank_stl_raw<PGraph>(Graph, PRankH.data(), OutDegV.data(),
-                    initPRankH, C, Eps, MaxIter);
-        }
-
-    //Version with stl containers
-    template<class PGraph>
-        void GetPageRank_stl_raw(const PGraph& Graph, double *PRankH,
-                uint64_t *OutDegV,
-                const bool initPRankHAndWeights,
-                const double& C, const double& Eps,
-                const int& MaxIter) {
-            const int64_t NNodes = Graph->GetNodes();
-            if (initPRankHAndWeights) {
-                int64_t Id = 0;
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    PRankH[Id] = 1.0/NNodes;
-                    OutDegV[Id] = NI.GetOutDeg();
-                    Id++;
-                }
-            }
-            std::vector<double> TmpV(NNodes);
-
-            for (int iter = 0; iter < MaxIter; iter++) {
-                for (int64_t j = 0; j < NNodes; j++) {
-                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(j);
-                    double Tmp = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        const uint64_t InNId = NI.GetInNId(e);
-                        const uint64_t OutDeg = OutDegV[InNId];
-                        if (OutDeg > 0) {
-                            Tmp += PRankH[InNId] / OutDeg;
-                        } else {
-				std::cout << "How can it be zero or negative?" << OutDeg << std::endl;
-			}
-                    }
-		    assert(Tmp >= 0);
-                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-                }
-
-                double sum = 0;
-                for (int64_t i = 0; i < TmpV.size(); i++) { sum += TmpV[i]; }
-                const double Leaked = (1.0-sum) / double(NNodes);
-
-                double diff = 0;
-                for (int64_t i = 0; i < NNodes; i++) {
-                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(i);
-                    double NewVal = TmpV[i] + Leaked; // Berkhin
-                    int64_t Id = NI.GetId();
-                    diff += fabs(NewVal-PRankH[Id]);
-                    PRankH[Id] = NewVal;
-                }
-                if (diff < Eps) { break; }
-            }
-        }
-
-#ifdef USE_OPENMP
-    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
-    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
-    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
-    // This is a parallel, optimized version.
-    template<class PGraph>
-        void GetPageRankMP(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
-            const int NNodes = Graph->GetNodes();
-            TVec<typename PGraph::TObj::TNodeI> NV;
-            PRankH.Gen(NNodes);
-
-            int MxId = -1;
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                NV.Add(NI);
-                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
-                int Id = NI.GetId();
-                if (Id > MxId) {
-                    MxId = Id;
-                }
-            }
-
-            TFltV PRankV(MxId+1);
-            TIntV OutDegV(MxId+1);
-
-#pragma omp parallel for schedule(dynamic,10000)
-            for (int j = 0; j < NNodes; j++) {
-                typename PGraph::TObj::TNodeI NI = NV[j];
-                int Id = NI.GetId();
-                PRankV[Id] = 1.0/NNodes;
-                OutDegV[Id] = NI.GetOutDeg();
-            }
-
-            TFltV TmpV(NNodes);
-            for (int iter = 0; iter < MaxIter; iter++) {
-#pragma omp parallel for schedule(dynamic,10000)
-                for (int j = 0; j < NNodes; j++) {
-                    typename PGraph::TObj::TNodeI NI = NV[j];
-                    TFlt Tmp = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        const int InNId = NI.GetInNId(e);
-                        const int OutDeg = OutDegV[InNId];
-                        if (OutDeg > 0) {
-                            Tmp += PRankV[InNId] / OutDeg;
-                        }
-                    }
-                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-                }
-
-                double sum = 0;
-#pragma omp parallel for reduction(+:sum) schedule(dynamic,10000)
-                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
-                const double Leaked = (1.0-sum) / double(NNodes);
-
-                double diff = 0;
-#pragma omp parallel for reduction(+:diff) schedule(dynamic,10000)
-                for (int i = 0; i < NNodes; i++) {
-                    double NewVal = TmpV[i] + Leaked; // Berkhin
-                    int Id = NV[i].GetId();
-                    diff += fabs(NewVal-PRankV[Id]);
-                    PRankV[Id] = NewVal;
-                }
-                if (diff < Eps) { break; }
-            }
-
-#pragma omp parallel for schedule(dynamic,10000)
-            for (int i = 0; i < NNodes; i++) {
-                typename PGraph::TObj::TNodeI NI = NV[i];
-                PRankH[i] = PRankV[NI.GetId()];
-            }
-        }
-#endif // USE_OPENMP
-
-    // Betweenness Centrality
-    template<class PGraph>
-        void GetBetweennessCentr(const PGraph& Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent) {
-            if (DoNodeCent) { NodeBtwH.Clr(); }
-            if (DoEdgeCent) { EdgeBtwH.Clr(); }
-            const int nodes = Graph->GetNodes();
-            TIntS S(nodes);
-            TIntQ Q(nodes);
-            TIntIntVH P(nodes); // one vector for every node
-            TIntFltH delta(nodes);
-            TIntH sigma(nodes), d(nodes);
-            // init
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                if (DoNodeCent) {
-                    NodeBtwH.AddDat(NI.GetId(), 0); }
-                if (DoEdgeCent) {
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        if (NI.GetId() < NI.GetOutNId(e)) {
-                            EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
-                        }
-                    }
-                }
-                sigma.AddDat(NI.GetId(), 0);
-                d.AddDat(NI.GetId(), -1);
-                P.AddDat(NI.GetId(), TIntV());
-                delta.AddDat(NI.GetId(), 0);
-            }
-            // calc betweeness
-            for (int k=0; k < BtwNIdV.Len(); k++) {
-                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
-                // reset
-                for (int i = 0; i < sigma.Len(); i++) {
-                    sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
-                }
-                S.Clr(false);
-                Q.Clr(false);
-                sigma.AddDat(NI.GetId(), 1);
-                d.AddDat(NI.GetId(), 0);
-                Q.Push(NI.GetId());
-                while (! Q.Empty()) {
-                    const int v = Q.Top();  Q.Pop();
-                    const typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(v);
-                    S.Push(v);
-                    const int VDat = d.GetDat(v);
-                    for (int e = 0; e < NI2.GetOutDeg(); e++) {
-                        const int w = NI2.GetOutNId(e);
-                        if (d.GetDat(w) < 0) { // find w for the first time
-                            Q.Push(w);
-                            d.AddDat(w, VDat+1);
-                        }
-                        //shortest path to w via v ?
-                        if (d.GetDat(w) == VDat+1) {
-                            sigma.AddDat(w) += sigma.GetDat(v);
-                            P.GetDat(w).Add(v);
-                        }
-                    }
-                }
-                while (! S.Empty()) {
-                    const int w = S.Top();
-                    const double SigmaW = sigma.GetDat(w);
-                    const double DeltaW = delta.GetDat(w);
-                    const TIntV NIdV = P.GetDat(w);
-                    S.Pop();
-                    for (int i = 0; i < NIdV.Len(); i++) {
-                        const int NId = NIdV[i];
-                        const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
-                        delta.AddDat(NId) += c;
-                        if (DoEdgeCent) {
-                            EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
-                    }
-                    double factor = (IsDir) ? 1.0 : 2.0;
-                    if (DoNodeCent && w != NI.GetId()) {
-                        NodeBtwH.AddDat(w) += delta.GetDat(w)/factor; }
-                }
-            }
-        }
-
-    template<class PGraph>
-        void GetBetweennessCentr_stl(const PGraph& Graph,
-                const std::vector< int64_t>& BtwNIdV,
-                std::vector<float>& NodeBtwH,
-                const bool& IsDir,
-                const bool& DoNodeCent,
-                TIntPrFltH& EdgeBtwH,
-                const bool& DoEdgeCent) {
-
-            if (DoNodeCent) { NodeBtwH.clear(); }
-            if (DoEdgeCent) { EdgeBtwH.Clr(); }
-            const  int64_t nodes = Graph->GetNodes();
-            TIntS S(nodes);
-            TIntQ Q(nodes);
-            TIntIntVH P(nodes); // one vector for every node
-            TIntFltH delta(nodes);
-            TIntH sigma(nodes);
-            TIntH d(nodes);
-            // init
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                if (DoNodeCent) {
-                    NodeBtwH.push_back(0); }
-                if (DoEdgeCent) {
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        if (NI.GetId() < NI.GetOutNId(e)) {
-                            EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
-                        }
-                    }
-                }
-                sigma.AddDat(NI.GetId(), 0);
-                d.AddDat(NI.GetId(), -1);
-                P.AddDat(NI.GetId(), TIntV());
-                delta.AddDat(NI.GetId(), 0);
-            }
-            // calc betweeness
-            for (int k=0; k < BtwNIdV.size(); k++) {
-                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
-                // reset
-                for (int i = 0; i < sigma.Len(); i++) {
-                    sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
-                }
-                S.Clr(false);
-                Q.Clr(false);
-                sigma.AddDat(NI.GetId(), 1);
-                d.AddDat(NI.GetId(), 0);
-                Q.Push(NI.GetId());
-                while (! Q.Empty()) {
-                    const int v = Q.Top();  Q.Pop();
-                    const typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(v);
-                    S.Push(v);
-                    const int VDat = d.GetDat(v);
-                    for (int e = 0; e < NI2.GetOutDeg(); e++) {
-                        const int w = NI2.GetOutNId(e);
-                        if (d.GetDat(w) < 0) { // find w for the first time
-                            Q.Push(w);
-                            d.AddDat(w, VDat+1);
-                        }
-                        //shortest path to w via v ?
-                        if (d.GetDat(w) == VDat+1) {
-                            sigma.AddDat(w) += sigma.GetDat(v);
-                            P.GetDat(w).Add(v);
-                        }
-                    }
-                }
-                while (! S.Empty()) {
-                    const int w = S.Top();
-                    const double SigmaW = sigma.GetDat(w);
-                    const double DeltaW = delta.GetDat(w);
-                    const TIntV NIdV = P.GetDat(w);
-                    S.Pop();
-                    for (int i = 0; i < NIdV.Len(); i++) {
-                        const int NId = NIdV[i];
-                        const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
-                        delta.AddDat(NId) += c;
-                        if (DoEdgeCent) {
-                            EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
-                    }
-                    double factor = (IsDir) ? 1.0 : 2.0;
-                    if (DoNodeCent && w != NI.GetId()) {
-                        NodeBtwH[w] += delta.GetDat(w)/factor; }
-                }
-            }
-        }
-
-
-    template<class PGraph>
-        void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NodeBtwH, const bool& IsDir, const double& NodeFrac) {
-            TIntPrFltH EdgeBtwH;
-            TIntV NIdV;  Graph->GetNIdV(NIdV);
-            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-                NIdV.Shuffle(TInt::Rnd);
-                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                    NIdV.DelLast(); }
-            }
-            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false);
-        }
-
-    template<class PGraph>
-        void GetBetweennessCentr_stl(const PGraph& Graph, std::vector<float>& NodeBtwH, const bool& IsDir, const double& NodeFrac) {
-            TIntPrFltH EdgeBtwH;
-            std::vector< int64_t> NIdV;
-            Graph->GetNIdV(NIdV);
-            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-                const  int64_t nodesToConsider = std::max(( int64_t)1, ( int64_t)(NodeFrac * NIdV.size()));
-                std::vector< int64_t> randomsample;
-                std::set< int64_t> selectedids;
-
-                std::random_device rd;
-                std::mt19937 gen(rd());
-                std::uniform_int_distribution< int64_t> dis(0, NIdV.size());
-
-                for( int64_t i = 0; i < nodesToConsider; ++i) {
-                    int64_t idxRandomNode = dis(gen);
-                    while (selectedids.count(idxRandomNode)) {
-                        idxRandomNode = dis(gen);
-                    }
-                    selectedids.insert(idxRandomNode);
-                    randomsample.push_back(idxRandomNode);
-                }
-                std::sort(randomsample.begin(), randomsample.end());
-                int64_t j = 0;
-                for( int64_t i = 0; i < randomsample.size(); ++i) {
-                    if (randomsample[i] == j) {
-                        //do nothing
-                    } else {
-                        NIdV[j] = NIdV[randomsample[i]];
-                    }
-                    j++;
-                }
-            }
-            GetBetweennessCentr_stl<PGraph>(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false);
-        }
-
-    template<class PGraph>
-        void GetBetweennessCentr(const PGraph& Graph, TIntPrFltH& EdgeBtwH, const bool& IsDir, const double& NodeFrac) {
-            TIntFltH NodeBtwH;
-            TIntV NIdV;  Graph->GetNIdV(NIdV);
-            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-                NIdV.Shuffle(TInt::Rnd);
-                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                    NIdV.DelLast(); }
-            }
-            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, false, EdgeBtwH, true);
-        }
-
-    template<class PGraph>
-        void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NodeBtwH, TIntPrFltH& EdgeBtwH, const bool& IsDir, const double& NodeFrac) {
-            TIntV NIdV;  Graph->GetNIdV(NIdV);
-            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-                NIdV.Shuffle(TInt::Rnd);
-                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                    NIdV.DelLast(); }
-            }
-            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, true);
-        }
-
-    template<class PGraph>
-        void GetHits(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter) {
-            const int NNodes = Graph->GetNodes();
-            NIdHubH.Gen(NNodes);
-            NIdAuthH.Gen(NNodes);
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                NIdHubH.AddDat(NI.GetId(), 1.0);
-                NIdAuthH.AddDat(NI.GetId(), 1.0);
-            }
-            double Norm=0;
-            for (int iter = 0; iter < MaxIter; iter++) {
-                // update authority scores
-                Norm = 0;
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    double& Auth = NIdAuthH.GetDat(NI.GetId()).Val;
-                    Auth = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        Auth +=  NIdHubH.GetDat(NI.GetInNId(e)); }
-                    Norm += Auth*Auth;
-                }
-                Norm = sqrt(Norm);
-                for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
-                // update hub scores
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    double& Hub = NIdHubH.GetDat(NI.GetId()).Val;
-                    Hub = 0;
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        Hub += NIdAuthH.GetDat(NI.GetOutNId(e)); }
-                    Norm += Hub*Hub;
-                }
-                Norm = sqrt(Norm);
-                for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
-            }
-            // make sure Hub and Authority scores normalize to L2 norm 1
-            Norm = 0.0;
-            for (int i = 0; i < NIdHubH.Len(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
-            Norm = sqrt(Norm);
-            for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
-            Norm = 0.0;
-            for (int i = 0; i < NIdAuthH.Len(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
-            Norm = sqrt(Norm);
-            for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
-        }
-
-    template<class PGraph>
-        void GetHits_stl(const PGraph& Graph,
-                std::vector<float>& NIdHubH,
-                std::vector<float>& NIdAuthH, const int& MaxIter) {
-
-            const  int64_t NNodes = Graph->GetNodes();
-            NIdHubH.resize(NNodes);
-            NIdAuthH.resize(NNodes);
-            int64_t j = 0;
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                NIdHubH[j] = 1.0;
-                NIdAuthH[j] = 1.0;
-                j++;
-            }
-            double Norm=0;
-            for ( int64_t iter = 0; iter < MaxIter; iter++) {
-                // update authority scores
-                Norm = 0;
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    float& Auth = NIdAuthH[NI.GetId()];
-                    Auth = 0;
-                    for ( int64_t e = 0; e < NI.GetInDeg(); e++) {
-                        Auth +=  NIdHubH[NI.GetInNId(e)]; }
-                    Norm += Auth*Auth;
-                }
-                Norm = sqrt(Norm);
-                for ( int64_t i = 0; i < NIdAuthH.size(); i++) { NIdAuthH[i] /= Norm; }
-                // update hub scores
-                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                    float& Hub = NIdHubH[NI.GetId()];
-                    Hub = 0;
-                    for ( int64_t e = 0; e < NI.GetOutDeg(); e++) {
-                        Hub += NIdAuthH[NI.GetOutNId(e)]; }
-                    Norm += Hub*Hub;
-                }
-                Norm = sqrt(Norm);
-                for ( int64_t i = 0; i < NIdHubH.size(); i++) { NIdHubH[i] /= Norm; }
-            }
-            // make sure Hub and Authority scores normalize to L2 norm 1
-            Norm = 0.0;
-            for ( int64_t i = 0; i < NIdHubH.size(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
-            Norm = sqrt(Norm);
-            for ( int64_t i = 0; i < NIdHubH.size(); i++) { NIdHubH[i] /= Norm; }
-            Norm = 0.0;
-            for ( int64_t i = 0; i < NIdAuthH.size(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
-            Norm = sqrt(Norm);
-            for ( int64_t i = 0; i < NIdAuthH.size(); i++) { NIdAuthH[i] /= Norm; }
-        }
-
-
-#ifdef USE_OPENMP
-    template<class PGraph>
-        void GetHitsMP(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter) {
-            const int NNodes = Graph->GetNodes();
-            TIntV NV;
-            NIdHubH.Gen(NNodes);
-            NIdAuthH.Gen(NNodes);
-            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-                NV.Add(NI.GetId());
-                NIdHubH.AddDat(NI.GetId(), 1.0);
-                NIdAuthH.AddDat(NI.GetId(), 1.0);
-            }
-            double Norm=0;
-            for (int iter = 0; iter < MaxIter; iter++) {
-                // update authority scores
-                Norm = 0;
-#pragma omp parallel for reduction(+:Norm) schedule(dynamic,1000)
-                for (int i = 0; i < NNodes; i++) {
-                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NV[i]);
-                    double& Auth = NIdAuthH.GetDat(NI.GetId()).Val;
-                    Auth = 0;
-                    for (int e = 0; e < NI.GetInDeg(); e++) {
-                        Auth +=  NIdHubH.GetDat(NI.GetInNId(e)); }
-                    Norm = Norm + Auth*Auth;
-                }
-                Norm = sqrt(Norm);
-                for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
-                // update hub scores
-#pragma omp parallel for reduction(+:Norm) schedule(dynamic,1000)
-                for (int i = 0; i < NNodes; i++) {
-                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NV[i]);
-                    double& Hub = NIdHubH.GetDat(NI.GetId()).Val;
-                    Hub = 0;
-                    for (int e = 0; e < NI.GetOutDeg(); e++) {
-                        Hub += NIdAuthH.GetDat(NI.GetOutNId(e)); }
-                    Norm = Norm + Hub*Hub;
-                }
-                Norm = sqrt(Norm);
-                for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
-            }
-            // make sure Hub and Authority scores normalize to L2 norm 1
-            Norm = 0.0;
-            for (int i = 0; i < NIdHubH.Len(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
-            Norm = sqrt(Norm);
-            for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
-            Norm = 0.0;
-            for (int i = 0; i < NIdAuthH.Len(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
-            Norm = sqrt(Norm);
-            for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
-        }
-#endif
-
-}; // namespace TSnap
+#include <stdio.h>
+#include <iostream>
+#include <vector>
+#include <chrono>
+#include <random>
+#include <set>
+#include <algorithm>
+#include <assert.h>
+
+namespace TSnap {
+
+    /////////////////////////////////////////////////
+    // Node centrality measures (See: http://en.wikipedia.org/wiki/Centrality)
+
+    /// Returns Degree centrality of a given node NId.
+    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
+    double GetDegreeCentr(const PUNGraph& Graph, const int& NId);
+    /// Returns Group Degree centrality of a given group NId.
+    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
+    //double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group);
+    double GetGroupDegreeCentr(const PUNGraph& Graph, const TIntH& GroupNodes);
+    /// Returns Group Degree centrality of a given group NId.
+    /// Degree centrality if a node is defined as its degree/(N-1), where N is the number of nodes in the network.
+    //double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group);
+    double GetGroupClosenessCentr(const PUNGraph& Graph, const TIntH& GroupNodes);
+    /// Returns centrality Maximum k group.
+    TIntH MaxCPGreedyBetter(const PUNGraph& Graph, const int k);
+    /// Returns centrality Maximum k group.
+    TIntH MaxCPGreedyBetter1(const PUNGraph& Graph, const int k);
+    /// Returns centrality Maximum k group.
+    TIntH MaxCPGreedyBetter2(const PUNGraph& Graph, const int k);
+    /// Returns centrality Maximum k group.
+    TIntH MaxCPGreedyBetter3(const PUNGraph& Graph, const int k);
+    /// Event importance
+    TIntFltH EventImportance(const PNGraph& Graph, const int k);
+    /// Intersect
+    int Intersect(TUNGraph::TNodeI Node, TIntH NNodes);
+    /// Intersect
+    int Intersect(TUNGraph::TNodeI Node, TStr NNodes);
+    /// Intersect
+    int Intersect(TUNGraph::TNodeI Node, int *NNodes, int NNodes_br);
+    //Load nodes list
+    int Intersect1(TUNGraph::TNodeI Node, TStr NNodes);
+    //Load nodes list
+    TIntH LoadNodeList(TStr InFNmNodes);
+    /// Returns Farness centrality of a given node NId.
+    /// Farness centrality of a node is the average shortest path length to all other nodes that reside is the same connected component as the given node.
+    template <class PGraph> double GetFarnessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
+
+    template <class PGraph> double GetFarnessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
+
+    /// Returns weighted Farness centrality of a given node \c NId.
+    /// Farness centrality of a node is the average shortest path length to all other nodes that reside is the same connected component as the given node.
+    double GetWeightedFarnessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized = true);
+
+    /// Returns Closeness centrality of a given node NId.
+    /// Closeness centrality of a node is defined as 1/FarnessCentrality.
+    template <class PGraph> double GetClosenessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
+    template <class PGraph> double GetClosenessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized = true);
+    /// Returns Closeness centrality of a given node \c NId.
+    /// Closeness centrality of a node is defined as 1/FarnessCentrality.
+    double GetWeightedClosenessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized = true);
+    /// Returns node Eccentricity, the largest shortest-path distance from the node NId to any other node in the Graph.
+    /// @param IsDir false: ignore edge directions and consider edges as undirected (in case they are directed).
+    template <class PGraph> int GetNodeEcc(const PGraph& Graph, const int& NId, const bool& IsDir=false);
+
+    /// Computes (approximate) Node Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NIdBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
+    template<class PGraph> void GetBetweennessCentr_stl(const PGraph& Graph, std::vector<float>& NIdBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) weighted Node Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NIdBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntPrFltH& EdgeBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) weighted Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) Node and Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
+    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NIdBtwH, TIntPrFltH& EdgeBtwH, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) weighted Node and Edge Beetweenness Centrality based on a sample of NodeFrac nodes.
+    /// @param NIdBtwH hash table mapping node ids to their corresponding betweenness centrality values.
+    /// @param EdgeBtwH hash table mapping edges (pairs of node ids) to their corresponding betweenness centrality values.
+    /// @param NodeFrac quality of approximation. NodeFrac=1.0 gives exact betweenness values.
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NIdBtwH, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir=false, const double& NodeFrac=1.0);
+    /// Computes (approximate) Beetweenness Centrality of all nodes and all edges of the network.
+    /// To obtain exact betweenness values one needs to solve single-source shortest-path problem for every node.
+    /// To speed up the algorithm we solve the shortest-path problem for the BtwNIdV subset of nodes. This gives centrality values that are about Graph->GetNodes()/BtwNIdV.Len() times lower than the exact betweenness centrality valus.
+    /// See "A Faster Algorithm for Beetweenness Centrality", Ulrik Brandes, Journal of Mathematical Sociology, 2001, and
+    /// "Centrality Estimation in Large Networks", Urlik Brandes and Christian Pich, 2006 for more details.
+    template<class PGraph> void GetBetweennessCentr(const PGraph& Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent);
+    /// Computes (approximate) weighted Beetweenness Centrality of all nodes and all edges of the network.
+    void GetWeightedBetweennessCentr(const PNEANet Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent, const TFltV& Attr);
+    /// Computes Eigenvector Centrality of all nodes in the network
+    /// Eigenvector Centrality of a node N is defined recursively as the average of centrality values of N's neighbors in the network.
+    void GetEigenVectorCentr(const PUNGraph& Graph, TIntFltH& NIdEigenH, const double& Eps=1e-4, const int& MaxIter=100);
+
+    /// PageRank
+    /// For more info see: http://en.wikipedia.org/wiki/PageRank
+    template<class PGraph> void GetPageRank(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+    template<class PGraph> void GetPageRank_stl_raw(const PGraph& Graph, double *PRankH, uint64_t *OutDegV, const bool initPRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+    template<class PGraph> void GetPageRank_stl(const PGraph& Graph, std::vector<double>& PRankH, const bool initPRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+    template<class PGraph> void GetPageRank_v1(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+#ifdef USE_OPENMP
+    template<class PGraph> void GetPageRankMP(const PGraph& Graph, TIntFltH& PRankH, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+#endif
+
+    /// Weighted PageRank (TODO: Use template)
+    int GetWeightedPageRank(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+#ifdef USE_OPENMP
+    int GetWeightedPageRankMP(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C=0.85, const double& Eps=1e-4, const int& MaxIter=100);
+#endif
+
+    /// HITS: Hubs and Authorities
+    /// For more info see: http://en.wikipedia.org/wiki/HITS_algorithm)
+    template<class PGraph> void GetHits(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter=20);
+    template<class PGraph> void GetHits_stl(const PGraph& Graph, std::vector<float>& NIdHubH, std::vector<float>& NIdAuthH, const int& MaxIter=20);
+#ifdef USE_OPENMP
+    template<class PGraph> void GetHitsMP(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter=20);
+#endif
+
+    /// Dijkstra Algorithm
+    /// For more info see:  https://en.wikipedia.org/wiki/Dijkstra%27s_algorithm
+    int GetWeightedShortestPath(const PNEANet Graph, const int& SrcNId, TIntFltH& NIdDistH, const TFltV& Attr);
+    /////////////////////////////////////////////////
+    // Implementation
+    template <class PGraph>
+        double GetFarnessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
+            TIntH NDistH(Graph->GetNodes());
+            TSnap::GetShortPath<PGraph>(Graph, NId, NDistH, IsDir, TInt::Mx);
+
+            double sum = 0;
+            for (TIntH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
+                sum += I->Dat();
+            }
+            if (NDistH.Len() > 1) {
+                double centr = sum/double(NDistH.Len()-1);
+                if (Normalized) {
+                    centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
+                }
+                return centr;
+            }
+            else { return 0.0; }
+        }
+
+    template <class PGraph>
+        double GetFarnessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
+            TIntH NDistH(Graph->GetNodes());
+            TSnap::GetShortPath<PGraph>(Graph, NId, NDistH, IsDir, TInt::Mx);
+
+            double sum = 0;
+            for (TIntH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
+                sum += I->Dat();
+            }
+            if (NDistH.Len() > 1) {
+                double centr = sum/double(NDistH.Len()-1);
+                if (Normalized) {
+                    centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
+                }
+                return centr;
+            }
+            else { return 0.0; }
+        }
+
+    template <class PGraph>
+        double GetClosenessCentr(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
+            const double Farness = GetFarnessCentr<PGraph> (Graph, NId, IsDir, Normalized);
+            if (Farness != 0.0) { return 1.0/Farness; }
+            else { return 0.0; }
+            return 0.0;
+        }
+
+    template <class PGraph>
+        double GetClosenessCentrMP(const PGraph& Graph, const int& NId, const bool& IsDir, const bool& Normalized) {
+            const double Farness = GetFarnessCentrMP<PGraph> (Graph, NId, IsDir, Normalized);
+            if (Farness != 0.0) { return 1.0/Farness; }
+            else { return 0.0; }
+            return 0.0;
+        }
+
+    template <class PGraph>
+        int GetNodeEcc(const PGraph& Graph, const int& NId, const bool& IsDir) {
+            int NodeEcc;
+            int Dist;
+            TBreathFS<PGraph> BFS(Graph);
+            // get shortest paths to all the nodes
+            BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
+
+            NodeEcc = 0;
+            // find the largest value
+            for (int i = 0; i < BFS.NIdDistH.Len(); i++) {
+                Dist = BFS.NIdDistH[i];
+                if (Dist > NodeEcc) {
+                    NodeEcc = Dist;
+                }
+            }
+            return NodeEcc;
+        }
+
+    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
+    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
+    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
+    // This implementation is an unoptimized version, it accesses nodes via a hash table.
+    template<class PGraph>
+        void GetPageRank_v1(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
+            const int NNodes = Graph->GetNodes();
+            //const double OneOver = 1.0/double(NNodes);
+            PRankH.Gen(NNodes);
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
+                //IAssert(NI.GetId() == PRankH.GetKey(PRankH.Len()-1));
+            }
+            TFltV TmpV(NNodes);
+            for (int iter = 0; iter < MaxIter; iter++) {
+                int j = 0;
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
+                    TmpV[j] = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        const int InNId = NI.GetInNId(e);
+                        const int OutDeg = Graph->GetNI(InNId).GetOutDeg();
+                        if (OutDeg > 0) {
+                            TmpV[j] += PRankH.GetDat(InNId) / OutDeg; }
+                    }
+                    TmpV[j] =  C*TmpV[j]; // Berkhin (the correct way of doing it)
+                    //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
+                }
+                double diff=0, sum=0, NewVal;
+                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
+                const double Leaked = (1.0-sum) / double(NNodes);
+                for (int i = 0; i < PRankH.Len(); i++) { // re-instert leaked PageRank
+                    NewVal = TmpV[i] + Leaked; // Berkhin
+                    //NewVal = TmpV[i] / sum;  // iGraph
+                    diff += fabs(NewVal-PRankH[i]);
+                    PRankH[i] = NewVal;
+                }
+                if (diff < Eps) { break; }
+            }
+        }
+
+    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
+    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
+    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
+    // This implementation is an optimized version, it builds a vector and accesses nodes via the vector.
+    template<class PGraph>
+        void GetPageRank(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
+            const int NNodes = Graph->GetNodes();
+            TVec<typename PGraph::TObj::TNodeI> NV;
+            PRankH.Gen(NNodes);
+            int MxId = -1;
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                NV.Add(NI);
+                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
+                int Id = NI.GetId();
+                if (Id > MxId) {
+                    MxId = Id;
+                }
+            }
+
+            TFltV PRankV(MxId+1);
+            TIntV OutDegV(MxId+1);
+
+            for (int j = 0; j < NNodes; j++) {
+                typename PGraph::TObj::TNodeI NI = NV[j];
+                int Id = NI.GetId();
+                PRankV[Id] = 1.0/NNodes;
+                OutDegV[Id] = NI.GetOutDeg();
+            }
+
+            TFltV TmpV(NNodes);
+
+            for (int iter = 0; iter < MaxIter; iter++) {
+                for (int j = 0; j < NNodes; j++) {
+                    typename PGraph::TObj::TNodeI NI = NV[j];
+                    TFlt Tmp = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        const int InNId = NI.GetInNId(e);
+                        const int OutDeg = OutDegV[InNId];
+                        if (OutDeg > 0) {
+                            Tmp += PRankV[InNId] / OutDeg;
+                        }
+                    }
+                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
+                }
+                double sum = 0;
+                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
+                const double Leaked = (1.0-sum) / double(NNodes);
+
+                double diff = 0;
+                for (int i = 0; i < NNodes; i++) {
+                    typename PGraph::TObj::TNodeI NI = NV[i];
+                    double NewVal = TmpV[i] + Leaked; // Berkhin
+                    int Id = NI.GetId();
+                    diff += fabs(NewVal-PRankV[Id]);
+                    PRankV[Id] = NewVal;
+                }
+                if (diff < Eps) { break; }
+            }
+
+            for (int i = 0; i < NNodes; i++) {
+                typename PGraph::TObj::TNodeI NI = NV[i];
+                PRankH[i] = PRankV[NI.GetId()];
+            }
+        }
+
+    template<class PGraph>
+        void GetPageRank_stl(const PGraph& Graph, std::vector<double>& PRankH, const bool initPRankH, const double& C, const double& Eps, const int& MaxIter) {
+            const int64_t NNodes = Graph->GetNodes();
+            PRankH.resize(NNodes);
+            std::vector<uint64_t> OutDegV;
+            OutDegV.resize(NNodes);
+            GetPageRank_stl_raw<PGraph>(Graph, PRankH.data(), OutDegV.data(),
+                    initPRankH, C, Eps, MaxIter);
+        }
+
+    //Version with stl containers
+    template<class PGraph>
+        void GetPageRank_stl_raw(const PGraph& Graph, double *PRankH,
+                uint64_t *OutDegV,
+                const bool initPRankHAndWeights,
+                const double& C, const double& Eps,
+                const int& MaxIter) {
+            const int64_t NNodes = Graph->GetNodes();
+            if (initPRankHAndWeights) {
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    const int64_t Id = NI.GetId();
+                    PRankH[Id] = 1.0/NNodes;
+                    OutDegV[Id] = NI.GetOutDeg();
+                }
+            }
+            std::vector<double> TmpV(NNodes);
+
+            for (int iter = 0; iter < MaxIter; iter++) {
+                for (int64_t j = 0; j < NNodes; j++) {
+                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(j);
+                    double Tmp = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        const uint64_t InNId = NI.GetInNId(e);
+                        const uint64_t OutDeg = OutDegV[InNId];
+                        if (OutDeg > 0) {
+                            Tmp += PRankH[InNId] / OutDeg;
+                        } else {
+				std::cout << "How can it be zero or negative?" << OutDeg << std::endl;
+			}
+                    }
+		    assert(Tmp >= 0);
+                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
+                }
+
+                double sum = 0;
+                for (int64_t i = 0; i < TmpV.size(); i++) { sum += TmpV[i]; }
+                const double Leaked = (1.0-sum) / double(NNodes);
+
+                double diff = 0;
+                for (int64_t i = 0; i < NNodes; i++) {
+                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(i);
+                    double NewVal = TmpV[i] + Leaked; // Berkhin
+                    int64_t Id = NI.GetId();
+                    diff += fabs(NewVal-PRankH[Id]);
+                    PRankH[Id] = NewVal;
+                }
+                if (diff < Eps) { break; }
+            }
+        }
+
+#ifdef USE_OPENMP
+    // Page Rank -- there are two different implementations (uncomment the desired 2 lines):
+    //   Berkhin -- (the correct way) see Algorithm 1 of P. Berkhin, A Survey on PageRank Computing, Internet Mathematics, 2005
+    //   iGraph -- iGraph implementation(which treats leaked PageRank in a funny way)
+    // This is a parallel, optimized version.
+    template<class PGraph>
+        void GetPageRankMP(const PGraph& Graph, TIntFltH& PRankH, const double& C, const double& Eps, const int& MaxIter) {
+            const int NNodes = Graph->GetNodes();
+            TVec<typename PGraph::TObj::TNodeI> NV;
+            PRankH.Gen(NNodes);
+
+            int MxId = -1;
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                NV.Add(NI);
+                PRankH.AddDat(NI.GetId(), 1.0/NNodes);
+                int Id = NI.GetId();
+                if (Id > MxId) {
+                    MxId = Id;
+                }
+            }
+
+            TFltV PRankV(MxId+1);
+            TIntV OutDegV(MxId+1);
+
+#pragma omp parallel for schedule(dynamic,10000)
+            for (int j = 0; j < NNodes; j++) {
+                typename PGraph::TObj::TNodeI NI = NV[j];
+                int Id = NI.GetId();
+                PRankV[Id] = 1.0/NNodes;
+                OutDegV[Id] = NI.GetOutDeg();
+            }
+
+            TFltV TmpV(NNodes);
+            for (int iter = 0; iter < MaxIter; iter++) {
+#pragma omp parallel for schedule(dynamic,10000)
+                for (int j = 0; j < NNodes; j++) {
+                    typename PGraph::TObj::TNodeI NI = NV[j];
+                    TFlt Tmp = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        const int InNId = NI.GetInNId(e);
+                        const int OutDeg = OutDegV[InNId];
+                        if (OutDeg > 0) {
+                            Tmp += PRankV[InNId] / OutDeg;
+                        }
+                    }
+                    TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
+                }
+
+                double sum = 0;
+#pragma omp parallel for reduction(+:sum) schedule(dynamic,10000)
+                for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
+                const double Leaked = (1.0-sum) / double(NNodes);
+
+                double diff = 0;
+#pragma omp parallel for reduction(+:diff) schedule(dynamic,10000)
+                for (int i = 0; i < NNodes; i++) {
+                    double NewVal = TmpV[i] + Leaked; // Berkhin
+                    int Id = NV[i].GetId();
+                    diff += fabs(NewVal-PRankV[Id]);
+                    PRankV[Id] = NewVal;
+                }
+                if (diff < Eps) { break; }
+            }
+
+#pragma omp parallel for schedule(dynamic,10000)
+            for (int i = 0; i < NNodes; i++) {
+                typename PGraph::TObj::TNodeI NI = NV[i];
+                PRankH[i] = PRankV[NI.GetId()];
+            }
+        }
+#endif // USE_OPENMP
+
+    // Betweenness Centrality
+    template<class PGraph>
+        void GetBetweennessCentr(const PGraph& Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent) {
+            if (DoNodeCent) { NodeBtwH.Clr(); }
+            if (DoEdgeCent) { EdgeBtwH.Clr(); }
+            const int nodes = Graph->GetNodes();
+            TIntS S(nodes);
+            TIntQ Q(nodes);
+            TIntIntVH P(nodes); // one vector for every node
+            TIntFltH delta(nodes);
+            TIntH sigma(nodes), d(nodes);
+            // init
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                if (DoNodeCent) {
+                    NodeBtwH.AddDat(NI.GetId(), 0); }
+                if (DoEdgeCent) {
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        if (NI.GetId() < NI.GetOutNId(e)) {
+                            EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
+                        }
+                    }
+                }
+                sigma.AddDat(NI.GetId(), 0);
+                d.AddDat(NI.GetId(), -1);
+                P.AddDat(NI.GetId(), TIntV());
+                delta.AddDat(NI.GetId(), 0);
+            }
+            // calc betweeness
+            for (int k=0; k < BtwNIdV.Len(); k++) {
+                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
+                // reset
+                for (int i = 0; i < sigma.Len(); i++) {
+                    sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
+                }
+                S.Clr(false);
+                Q.Clr(false);
+                sigma.AddDat(NI.GetId(), 1);
+                d.AddDat(NI.GetId(), 0);
+                Q.Push(NI.GetId());
+                while (! Q.Empty()) {
+                    const int v = Q.Top();  Q.Pop();
+                    const typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(v);
+                    S.Push(v);
+                    const int VDat = d.GetDat(v);
+                    for (int e = 0; e < NI2.GetOutDeg(); e++) {
+                        const int w = NI2.GetOutNId(e);
+                        if (d.GetDat(w) < 0) { // find w for the first time
+                            Q.Push(w);
+                            d.AddDat(w, VDat+1);
+                        }
+                        //shortest path to w via v ?
+                        if (d.GetDat(w) == VDat+1) {
+                            sigma.AddDat(w) += sigma.GetDat(v);
+                            P.GetDat(w).Add(v);
+                        }
+                    }
+                }
+                while (! S.Empty()) {
+                    const int w = S.Top();
+                    const double SigmaW = sigma.GetDat(w);
+                    const double DeltaW = delta.GetDat(w);
+                    const TIntV NIdV = P.GetDat(w);
+                    S.Pop();
+                    for (int i = 0; i < NIdV.Len(); i++) {
+                        const int NId = NIdV[i];
+                        const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
+                        delta.AddDat(NId) += c;
+                        if (DoEdgeCent) {
+                            EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
+                    }
+                    double factor = (IsDir) ? 1.0 : 2.0;
+                    if (DoNodeCent && w != NI.GetId()) {
+                        NodeBtwH.AddDat(w) += delta.GetDat(w)/factor; }
+                }
+            }
+        }
+
+    template<class PGraph>
+        void GetBetweennessCentr_stl(const PGraph& Graph,
+                const std::vector< int64_t>& BtwNIdV,
+                std::vector<float>& NodeBtwH,
+                const bool& IsDir,
+                const bool& DoNodeCent,
+                TIntPrFltH& EdgeBtwH,
+                const bool& DoEdgeCent) {
+
+            if (DoNodeCent) { NodeBtwH.clear(); }
+            if (DoEdgeCent) { EdgeBtwH.Clr(); }
+            const  int64_t nodes = Graph->GetNodes();
+            TIntS S(nodes);
+            TIntQ Q(nodes);
+            TIntIntVH P(nodes); // one vector for every node
+            TIntFltH delta(nodes);
+            TIntH sigma(nodes);
+            TIntH d(nodes);
+            // init
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                if (DoNodeCent) {
+                    NodeBtwH.push_back(0); }
+                if (DoEdgeCent) {
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        if (NI.GetId() < NI.GetOutNId(e)) {
+                            EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
+                        }
+                    }
+                }
+                sigma.AddDat(NI.GetId(), 0);
+                d.AddDat(NI.GetId(), -1);
+                P.AddDat(NI.GetId(), TIntV());
+                delta.AddDat(NI.GetId(), 0);
+            }
+            // calc betweeness
+            for (int k=0; k < BtwNIdV.size(); k++) {
+                const typename PGraph::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
+                // reset
+                for (int i = 0; i < sigma.Len(); i++) {
+                    sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
+                }
+                S.Clr(false);
+                Q.Clr(false);
+                sigma.AddDat(NI.GetId(), 1);
+                d.AddDat(NI.GetId(), 0);
+                Q.Push(NI.GetId());
+                while (! Q.Empty()) {
+                    const int v = Q.Top();  Q.Pop();
+                    const typename PGraph::TObj::TNodeI NI2 = Graph->GetNI(v);
+                    S.Push(v);
+                    const int VDat = d.GetDat(v);
+                    for (int e = 0; e < NI2.GetOutDeg(); e++) {
+                        const int w = NI2.GetOutNId(e);
+                        if (d.GetDat(w) < 0) { // find w for the first time
+                            Q.Push(w);
+                            d.AddDat(w, VDat+1);
+                        }
+                        //shortest path to w via v ?
+                        if (d.GetDat(w) == VDat+1) {
+                            sigma.AddDat(w) += sigma.GetDat(v);
+                            P.GetDat(w).Add(v);
+                        }
+                    }
+                }
+                while (! S.Empty()) {
+                    const int w = S.Top();
+                    const double SigmaW = sigma.GetDat(w);
+                    const double DeltaW = delta.GetDat(w);
+                    const TIntV NIdV = P.GetDat(w);
+                    S.Pop();
+                    for (int i = 0; i < NIdV.Len(); i++) {
+                        const int NId = NIdV[i];
+                        const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
+                        delta.AddDat(NId) += c;
+                        if (DoEdgeCent) {
+                            EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
+                    }
+                    double factor = (IsDir) ? 1.0 : 2.0;
+                    if (DoNodeCent && w != NI.GetId()) {
+                        NodeBtwH[w] += delta.GetDat(w)/factor; }
+                }
+            }
+        }
+
+
+    template<class PGraph>
+        void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NodeBtwH, const bool& IsDir, const double& NodeFrac) {
+            TIntPrFltH EdgeBtwH;
+            TIntV NIdV;  Graph->GetNIdV(NIdV);
+            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+                NIdV.Shuffle(TInt::Rnd);
+                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                    NIdV.DelLast(); }
+            }
+            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false);
+        }
+
+    template<class PGraph>
+        void GetBetweennessCentr_stl(const PGraph& Graph, std::vector<float>& NodeBtwH, const bool& IsDir, const double& NodeFrac) {
+            TIntPrFltH EdgeBtwH;
+            std::vector< int64_t> NIdV;
+            Graph->GetNIdV(NIdV);
+            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+                const  int64_t nodesToConsider = std::max(( int64_t)1, ( int64_t)(NodeFrac * NIdV.size()));
+                std::vector< int64_t> randomsample;
+                std::set< int64_t> selectedids;
+
+                std::random_device rd;
+                std::mt19937 gen(rd());
+                std::uniform_int_distribution< int64_t> dis(0, NIdV.size());
+
+                for( int64_t i = 0; i < nodesToConsider; ++i) {
+                    int64_t idxRandomNode = dis(gen);
+                    while (selectedids.count(idxRandomNode)) {
+                        idxRandomNode = dis(gen);
+                    }
+                    selectedids.insert(idxRandomNode);
+                    randomsample.push_back(idxRandomNode);
+                }
+                std::sort(randomsample.begin(), randomsample.end());
+                int64_t j = 0;
+                for( int64_t i = 0; i < randomsample.size(); ++i) {
+                    if (randomsample[i] == j) {
+                        //do nothing
+                    } else {
+                        NIdV[j] = NIdV[randomsample[i]];
+                    }
+                    j++;
+                }
+            }
+            GetBetweennessCentr_stl<PGraph>(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false);
+        }
+
+    template<class PGraph>
+        void GetBetweennessCentr(const PGraph& Graph, TIntPrFltH& EdgeBtwH, const bool& IsDir, const double& NodeFrac) {
+            TIntFltH NodeBtwH;
+            TIntV NIdV;  Graph->GetNIdV(NIdV);
+            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+                NIdV.Shuffle(TInt::Rnd);
+                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                    NIdV.DelLast(); }
+            }
+            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, false, EdgeBtwH, true);
+        }
+
+    template<class PGraph>
+        void GetBetweennessCentr(const PGraph& Graph, TIntFltH& NodeBtwH, TIntPrFltH& EdgeBtwH, const bool& IsDir, const double& NodeFrac) {
+            TIntV NIdV;  Graph->GetNIdV(NIdV);
+            if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+                NIdV.Shuffle(TInt::Rnd);
+                for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                    NIdV.DelLast(); }
+            }
+            GetBetweennessCentr<PGraph> (Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, true);
+        }
+
+    template<class PGraph>
+        void GetHits(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter) {
+            const int NNodes = Graph->GetNodes();
+            NIdHubH.Gen(NNodes);
+            NIdAuthH.Gen(NNodes);
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                NIdHubH.AddDat(NI.GetId(), 1.0);
+                NIdAuthH.AddDat(NI.GetId(), 1.0);
+            }
+            double Norm=0;
+            for (int iter = 0; iter < MaxIter; iter++) {
+                // update authority scores
+                Norm = 0;
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    double& Auth = NIdAuthH.GetDat(NI.GetId()).Val;
+                    Auth = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        Auth +=  NIdHubH.GetDat(NI.GetInNId(e)); }
+                    Norm += Auth*Auth;
+                }
+                Norm = sqrt(Norm);
+                for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
+                // update hub scores
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    double& Hub = NIdHubH.GetDat(NI.GetId()).Val;
+                    Hub = 0;
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        Hub += NIdAuthH.GetDat(NI.GetOutNId(e)); }
+                    Norm += Hub*Hub;
+                }
+                Norm = sqrt(Norm);
+                for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
+            }
+            // make sure Hub and Authority scores normalize to L2 norm 1
+            Norm = 0.0;
+            for (int i = 0; i < NIdHubH.Len(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
+            Norm = sqrt(Norm);
+            for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
+            Norm = 0.0;
+            for (int i = 0; i < NIdAuthH.Len(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
+            Norm = sqrt(Norm);
+            for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
+        }
+
+    template<class PGraph>
+        void GetHits_stl(const PGraph& Graph,
+                std::vector<float>& NIdHubH,
+                std::vector<float>& NIdAuthH, const int& MaxIter) {
+
+            const  int64_t NNodes = Graph->GetNodes();
+            NIdHubH.resize(NNodes);
+            NIdAuthH.resize(NNodes);
+            int64_t j = 0;
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                NIdHubH[j] = 1.0;
+                NIdAuthH[j] = 1.0;
+                j++;
+            }
+            double Norm=0;
+            for ( int64_t iter = 0; iter < MaxIter; iter++) {
+                // update authority scores
+                Norm = 0;
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    float& Auth = NIdAuthH[NI.GetId()];
+                    Auth = 0;
+                    for ( int64_t e = 0; e < NI.GetInDeg(); e++) {
+                        Auth +=  NIdHubH[NI.GetInNId(e)]; }
+                    Norm += Auth*Auth;
+                }
+                Norm = sqrt(Norm);
+                for ( int64_t i = 0; i < NIdAuthH.size(); i++) { NIdAuthH[i] /= Norm; }
+                // update hub scores
+                for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                    float& Hub = NIdHubH[NI.GetId()];
+                    Hub = 0;
+                    for ( int64_t e = 0; e < NI.GetOutDeg(); e++) {
+                        Hub += NIdAuthH[NI.GetOutNId(e)]; }
+                    Norm += Hub*Hub;
+                }
+                Norm = sqrt(Norm);
+                for ( int64_t i = 0; i < NIdHubH.size(); i++) { NIdHubH[i] /= Norm; }
+            }
+            // make sure Hub and Authority scores normalize to L2 norm 1
+            Norm = 0.0;
+            for ( int64_t i = 0; i < NIdHubH.size(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
+            Norm = sqrt(Norm);
+            for ( int64_t i = 0; i < NIdHubH.size(); i++) { NIdHubH[i] /= Norm; }
+            Norm = 0.0;
+            for ( int64_t i = 0; i < NIdAuthH.size(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
+            Norm = sqrt(Norm);
+            for ( int64_t i = 0; i < NIdAuthH.size(); i++) { NIdAuthH[i] /= Norm; }
+        }
+
+
+#ifdef USE_OPENMP
+    template<class PGraph>
+        void GetHitsMP(const PGraph& Graph, TIntFltH& NIdHubH, TIntFltH& NIdAuthH, const int& MaxIter) {
+            const int NNodes = Graph->GetNodes();
+            TIntV NV;
+            NIdHubH.Gen(NNodes);
+            NIdAuthH.Gen(NNodes);
+            for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+                NV.Add(NI.GetId());
+                NIdHubH.AddDat(NI.GetId(), 1.0);
+                NIdAuthH.AddDat(NI.GetId(), 1.0);
+            }
+            double Norm=0;
+            for (int iter = 0; iter < MaxIter; iter++) {
+                // update authority scores
+                Norm = 0;
+#pragma omp parallel for reduction(+:Norm) schedule(dynamic,1000)
+                for (int i = 0; i < NNodes; i++) {
+                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NV[i]);
+                    double& Auth = NIdAuthH.GetDat(NI.GetId()).Val;
+                    Auth = 0;
+                    for (int e = 0; e < NI.GetInDeg(); e++) {
+                        Auth +=  NIdHubH.GetDat(NI.GetInNId(e)); }
+                    Norm = Norm + Auth*Auth;
+                }
+                Norm = sqrt(Norm);
+                for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
+                // update hub scores
+#pragma omp parallel for reduction(+:Norm) schedule(dynamic,1000)
+                for (int i = 0; i < NNodes; i++) {
+                    typename PGraph::TObj::TNodeI NI = Graph->GetNI(NV[i]);
+                    double& Hub = NIdHubH.GetDat(NI.GetId()).Val;
+                    Hub = 0;
+                    for (int e = 0; e < NI.GetOutDeg(); e++) {
+                        Hub += NIdAuthH.GetDat(NI.GetOutNId(e)); }
+                    Norm = Norm + Hub*Hub;
+                }
+                Norm = sqrt(Norm);
+                for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
+            }
+            // make sure Hub and Authority scores normalize to L2 norm 1
+            Norm = 0.0;
+            for (int i = 0; i < NIdHubH.Len(); i++) { Norm += TMath::Sqr(NIdHubH[i]); }
+            Norm = sqrt(Norm);
+            for (int i = 0; i < NIdHubH.Len(); i++) { NIdHubH[i] /= Norm; }
+            Norm = 0.0;
+            for (int i = 0; i < NIdAuthH.Len(); i++) { Norm += TMath::Sqr(NIdAuthH[i]); }
+            Norm = sqrt(Norm);
+            for (int i = 0; i < NIdAuthH.Len(); i++) { NIdAuthH[i] /= Norm; }
+        }
+#endif
+
+}; // namespace TSnap
-- 
2.43.0


From c14d8a439ae7137f4db6dab4a000fb4f9bbcccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 066/147] fix: GetWeightedPageRank takes the weight of one of
 several parallel edges for all of them

---
 snap/snap-core/centr.cpp | 1726 +++++++++++++++++++-------------------
 1 file changed, 863 insertions(+), 863 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 90f32b9..0b97d45 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -1,863 +1,863 @@
-namespace TSnap {
-
-    /////////////////////////////////////////////////
-    // Node centrality measures
-    double GetDegreeCentr(const PUNGraph& Graph, const int& NId) {
-        if (Graph->GetNodes() > 1) {
-            return double(Graph->GetNI(NId).GetDeg())/double(Graph->GetNodes()-1); }
-        else { return 0.0; }
-    }
-
-    void GetEigenVectorCentr(const PUNGraph& Graph, TIntFltH& NIdEigenH, const double& Eps, const int& MaxIter) {
-        const int NNodes = Graph->GetNodes();
-        NIdEigenH.Gen(NNodes);
-        // initialize vector values
-        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-            NIdEigenH.AddDat(NI.GetId(), 1.0/NNodes);
-            IAssert(NI.GetId() == NIdEigenH.GetKey(NIdEigenH.Len()-1));
-        }
-        TFltV TmpV(NNodes);
-        for (int iter = 0; iter < MaxIter; iter++) {
-            int j = 0;
-            // add neighbor values
-            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
-                TmpV[j] = 0;
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    TmpV[j] += NIdEigenH.GetDat(NI.GetOutNId(e)); }
-            }
-
-            // normalize
-            double sum = 0;
-            for (int i = 0; i < TmpV.Len(); i++) {
-                sum += (TmpV[i]*TmpV[i]);
-            }
-            sum = sqrt(sum);
-            for (int i = 0; i < TmpV.Len(); i++) {
-                TmpV[i] /= sum;
-            }
-
-            // compute difference
-            double diff = 0.0;
-            j = 0;
-            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
-                diff += fabs(NIdEigenH.GetDat(NI.GetId())-TmpV[j]);
-            }
-
-            // set new values
-            j = 0;
-            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
-                NIdEigenH.AddDat(NI.GetId(), TmpV[j]);
-            }
-
-            if (diff < Eps) {
-                break;
-            }
-        }
-    }
-
-    // Group centrality measures
-    double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group) {
-        int deg;
-        TIntH NN;
-        for (TUNGraph::TNodeI NI = Group->BegNI(); NI < Group->EndNI(); NI++) {
-            deg = Graph->GetNI(NI.GetId()).GetDeg();
-            for (int i=0; i<deg; i++) {
-                if (Group->IsNode(Graph->GetNI(NI.GetId()).GetNbrNId(i))==0)
-                    NN.AddDat(Graph->GetNI(NI.GetId()).GetNbrNId(i),NI.GetId());
-            }
-        }
-        return (double)NN.Len();
-    }
-
-    double GetGroupDegreeCentr0(const PUNGraph& Graph, const TIntH& GroupNodes) {
-        int deg;
-        TIntH NN;
-        for (int i = 0; i<GroupNodes.Len(); i++) {
-            deg = Graph->GetNI(GroupNodes.GetDat(i)).GetDeg();
-            for (int j = 0; j < deg; j++) {
-                if (GroupNodes.IsKey(Graph->GetNI(GroupNodes.GetDat(i)).GetNbrNId(j))==0)
-                    NN.AddDat(Graph->GetNI(GroupNodes.GetDat(i)).GetNbrNId(j),GroupNodes.GetDat(i));
-            }
-        }
-        return (double)NN.Len();
-    }
-
-    double GetGroupDegreeCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
-        int deg;
-        TIntH NN;
-        TIntH GroupNodes1;
-
-        for (THashKeyDatI<TInt,TInt> NI = GroupNodes.BegI(); NI < GroupNodes.EndI(); NI++)
-            GroupNodes1.AddDat(NI.GetDat(),NI.GetDat());
-
-        for (THashKeyDatI<TInt,TInt> NI = GroupNodes1.BegI(); NI < GroupNodes1.EndI(); NI++){
-            TUNGraph::TNodeI node = Graph->GetNI(NI.GetKey());
-            deg = node.GetDeg();
-            for (int j = 0; j < deg; j++){
-                if (GroupNodes1.IsKey(node.GetNbrNId(j))==0 && NN.IsKey(node.GetNbrNId(j))==0)
-                    NN.AddDat(node.GetNbrNId(j),NI.GetKey());
-            }
-        }
-
-        return (double)NN.Len();
-    }
-
-    double GetGroupFarnessCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
-        TIntH* NDistH = new TIntH[GroupNodes.Len()];
-
-        for (int i=0; i<GroupNodes.Len(); i++){
-            NDistH[i](Graph->GetNodes());
-            TSnap::GetShortPath<PUNGraph>(Graph, GroupNodes.GetDat(i), NDistH[i], true, TInt::Mx);
-        }
-
-        int min, dist, sum=0, len=0;
-        for (PUNGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            if(NDistH[0].IsKey(NI.GetId()))
-                min = NDistH[0].GetDat(NI.GetId());
-            else
-                min = -1;
-            for (int j=1; j<GroupNodes.Len(); j++){
-                if (NDistH[j].IsKey(NI.GetId()))
-                    dist = NDistH[j].GetDat(NI.GetId());
-                else
-                    dist = -1;
-                if ((dist < min && dist != -1) || (dist > min && min == -1))
-                    min = dist;
-            }
-            if (min>0){
-                sum += min;
-                len++;
-            }
-
-        }
-
-        if (len > 0) { return sum/double(len); }
-        else { return 0.0; }
-    }
-
-    PUNGraph *AllGraphsWithNNodes(int n){
-        PUNGraph* g = new PUNGraph[(((n*n)-n)/2)+1];
-        PUNGraph g0;
-        for(int i=0; i<n; i++)
-            g0->AddNode(i);
-
-        g[0] = g0;
-        int br=1;
-
-        for(int i=0; i<n; i++)
-            for(int j=i; j<n; j++){
-                g0->AddEdge(i,j);
-                g[br] = g0;
-                br++;
-            }
-
-        return g;
-    }
-
-    TIntH *AllCombinationsMN(int m, int n){
-        float N = 1;
-        for(int i=n; i>0; i--){
-            N *= (float)m/(float)n;
-            m--;
-            n--;
-        }
-
-        TIntH* C = new TIntH[(int)N];
-        return C;
-    }
-
-    double GetGroupClosenessCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
-        const double Farness = GetGroupFarnessCentr(Graph, GroupNodes);
-        if (Farness != 0.0) { return 1.0/Farness; }
-        else { return 0.0; }
-    }
-
-    TIntH MaxCPGreedyBetter(const PUNGraph& Graph, const int k) {
-        TIntH GroupNodes; // buildup cpntainer of group nodes
-        TIntH NNodes; // container of neighbouring nodes
-        TIntH Nodes; // nodes sorted by vd
-        double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
-
-        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-            Nodes.AddDat(NI.GetId(),NI.GetDeg());
-        }
-
-        Nodes.SortByDat(false);
-
-        int br = 0;
-        while (br < k) {
-            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++) {
-                if ((NI.GetDat() <= (int)gc0))
-                    break;
-                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
-                if (gc>gc0) {
-                    gc0 = gc;
-                    addId = NI.GetKey();
-                }
-            }
-
-            if (addId != addIdPrev){
-
-                GroupNodes.AddDat(br,addId);
-                br++;
-                gc0=0;
-
-                NNodes.AddDat(addId,0);
-                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
-                    NNodes.AddDat(Graph->GetNI(addId).GetNbrNId(i),0);
-                }
-                addIdPrev = addId;
-                Nodes.DelKey(addId);
-            } else {
-                br = k;
-            }
-            printf("%i,",br);
-        }
-
-        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
-        return GroupNodes;
-    }
-
-    // this is the variation of the first version that doesent stop after finding the optimal K
-    TIntH MaxCPGreedyBetter1(const PUNGraph& Graph, const int k) {
-        TIntH GroupNodes;
-        TIntH NNodes;
-        TIntH Nodes;
-        double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
-
-        // put nodes in the container and sort them by vertex degree
-        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            Nodes.AddDat(NI.GetId(),NI.GetDeg());
-        }
-        Nodes.SortByDat(false);
-
-        int br = 0;
-        while (br < k) {
-            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
-                if((NI.GetDat() < (int)gc0))
-                    break;
-                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
-                if (gc>gc0) {
-                    gc0 = gc;
-                    addId = NI.GetKey();
-                }
-            }
-
-            if (addId != addIdPrev){
-
-                GroupNodes.AddDat(br,addId);
-                br++;
-                gc0=-10000000;
-
-                NNodes.AddDat(addId,0);
-                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
-                    NNodes.AddDat(Graph->GetNI(addId).GetNbrNId(i),0);
-                }
-                addIdPrev = addId;
-                Nodes.DelKey(addId);
-            }
-        }
-
-        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
-        return GroupNodes;
-    }
-
-    // version with string type of container of group nodes - Fail (it is slower)
-    TIntH MaxCPGreedyBetter2(const PUNGraph& Graph, const int k) {
-        TIntH GroupNodes; // buildup cpntainer of group nodes
-        TStr NNodes; // container of neighbouring nodes
-        TIntH Nodes; // nodes sorted by vd
-        double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev=0;
-
-        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            Nodes.AddDat(NI.GetId(),NI.GetDeg());
-        }
-
-        Nodes.SortByDat(false);
-
-        int br=0;
-        while (br < k) {
-            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
-                if((NI.GetDat() <= (int)gc0))
-                    break;
-                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
-                if (gc>gc0) {
-                    gc0 = gc;
-                    addId = NI.GetKey();
-                }
-            }
-
-            if (addId != addIdPrev) {
-
-                GroupNodes.AddDat(br,addId);
-                br++;
-                gc0=0;
-
-                TInt digi = addId;
-                TStr buf = digi.GetStr();
-
-                NNodes += " "+buf;
-
-                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
-                    TInt digi = Graph->GetNI(addId).GetNbrNId(i);
-                    TStr buf = digi.GetStr();
-                    NNodes += " "+buf;
-                }
-                addIdPrev = addId;
-                Nodes.DelKey(addId);
-            } else {
-                br = k;
-            }
-            printf("%i,",br);
-        }
-
-        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
-        return GroupNodes;
-    }
-
-    // version with int array - the fastest
-    TIntH MaxCPGreedyBetter3(const PUNGraph& Graph, const int k) {
-        TIntH GroupNodes; // buildup cpntainer of group nodes
-        const int n = Graph->GetNodes();
-        int *NNodes = new int[n]; // container of neighbouring nodes
-        int NNodes_br = 0;
-        TIntH Nodes; // nodes sorted by vd
-        double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
-
-        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            Nodes.AddDat(NI.GetId(),NI.GetDeg());
-        }
-
-        Nodes.SortByDat(false);
-
-        int br = 0;
-        while (br < k) {
-            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
-                if((NI.GetDat() <= (int)gc0))
-                    break;
-                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes,NNodes_br);
-                if (gc>gc0){
-                    gc0 = gc;
-                    addId = NI.GetKey();
-                }
-            }
-
-            if (addId != addIdPrev) {
-
-                GroupNodes.AddDat(br,addId);
-                br++;
-                gc0=0;
-
-                int nn = addId;
-                bool nnnew = true;
-                for (int j=0; j<NNodes_br; j++)
-                    if (NNodes[j] == nn){
-                        nnnew = false;
-                        j = NNodes_br;
-                    }
-
-                if (nnnew){
-                    NNodes[NNodes_br] = nn;
-                    NNodes_br++;
-                }
-
-                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
-                    int nn = Graph->GetNI(addId).GetNbrNId(i);
-                    bool nnnew = true;
-                    for (int j=0; j<NNodes_br; j++) {
-                        if (NNodes[j] == nn){
-                            nnnew = false;
-                            j = NNodes_br;
-                        }
-                    }
-                    if (nnnew){
-                        NNodes[NNodes_br] = nn;
-                        NNodes_br++;
-                    }
-                }
-                addIdPrev = addId;
-                Nodes.DelKey(addId);
-            } else {
-                br = k;
-            }
-            printf("%i,",br);
-        }
-
-        delete[] NNodes;
-        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
-        return GroupNodes;
-    }
-
-    //Weighted PageRank
-    int GetWeightedPageRank(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C, const double& Eps, const int& MaxIter) {
-        if (!Graph->IsFltAttrE(Attr)) return -1;
-
-        TFltV Weights = Graph->GetFltAttrVecE(Attr);
-
-        int mxid = Graph->GetMxNId();
-        TFltV OutWeights(mxid);
-        Graph->GetWeightOutEdgesV(OutWeights, Weights);
-
-        const int NNodes = Graph->GetNodes();
-        //const double OneOver = 1.0/double(NNodes);
-        PRankH.Gen(NNodes);
-        for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-            PRankH.AddDat(NI.GetId(), 1.0/NNodes);
-            //IAssert(NI.GetId() == PRankH.GetKey(PRankH.Len()-1));
-        }
-        TFltV TmpV(NNodes);
-        for (int iter = 0; iter < MaxIter; iter++) {
-            int j = 0;
-            for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
-                TmpV[j] = 0;
-                for (int e = 0; e < NI.GetInDeg(); e++) {
-                    const int InNId = NI.GetInNId(e);
-                    const TFlt OutWeight = OutWeights[InNId];
-                    int EId = Graph->GetEId(InNId, NI.GetId());
-                    const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
-                    if (OutWeight > 0) {
-                        TmpV[j] += PRankH.GetDat(InNId) * Weight / OutWeight; }
-                }
-                TmpV[j] =  C*TmpV[j]; // Berkhin (the correct way of doing it)
-                //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
-            }
-            double diff=0, sum=0, NewVal;
-            for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
-            const double Leaked = (1.0-sum) / double(NNodes);
-            for (int i = 0; i < PRankH.Len(); i++) { // re-instert leaked PageRank
-                NewVal = TmpV[i] + Leaked; // Berkhin
-                //NewVal = TmpV[i] / sum;  // iGraph
-                diff += fabs(NewVal-PRankH[i]);
-                PRankH[i] = NewVal;
-            }
-            if (diff < Eps) { break; }
-        }
-        return 0;
-    }
-
-#ifdef USE_OPENMP
-    int GetWeightedPageRankMP(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C, const double& Eps, const int& MaxIter) {
-        if (!Graph->IsFltAttrE(Attr)) return -1;
-        const int NNodes = Graph->GetNodes();
-        TVec<TNEANet::TNodeI> NV;
-
-        //const double OneOver = 1.0/double(NNodes);
-        PRankH.Gen(NNodes);
-        int MxId = 0;
-
-        for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-            NV.Add(NI);
-            PRankH.AddDat(NI.GetId(), 1.0/NNodes);
-            int Id = NI.GetId();
-            if (Id > MxId) {
-                MxId = Id;
-            }
-        }
-
-        TFltV PRankV(MxId+1);
-        TFltV OutWeights(MxId+1);
-
-        TFltV Weights = Graph->GetFltAttrVecE(Attr);
-
-#pragma omp parallel for schedule(dynamic,10000)
-        for (int j = 0; j < NNodes; j++) {
-            TNEANet::TNodeI NI = NV[j];
-            int Id = NI.GetId();
-            OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
-            PRankV[Id] = 1/NNodes;
-        }
-
-        TFltV TmpV(NNodes);
-        for (int iter = 0; iter < MaxIter; iter++) {
-
-#pragma omp parallel for schedule(dynamic,10000)
-            for (int j = 0; j < NNodes; j++) {
-                TNEANet::TNodeI NI = NV[j];
-                TFlt Tmp = 0;
-                for (int e = 0; e < NI.GetInDeg(); e++) {
-                    const int InNId = NI.GetInNId(e);
-
-                    const TFlt OutWeight = OutWeights[InNId];
-
-                    int EId = Graph->GetEId(InNId, NI.GetId());
-                    const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
-
-                    if (OutWeight > 0) {
-                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
-                    }
-                }
-                TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-                //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
-            }
-
-            double sum = 0;
-#pragma omp parallel for reduction(+:sum) schedule(dynamic,10000)
-            for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
-            const double Leaked = (1.0-sum) / double(NNodes);
-
-            double diff = 0;
-#pragma omp parallel for reduction(+:diff) schedule(dynamic,10000)
-            for (int i = 0; i < NNodes; i++) {
-                TNEANet::TNodeI NI = NV[i];
-                double NewVal = TmpV[i] + Leaked; // Berkhin
-                //NewVal = TmpV[i] / sum;  // iGraph
-                int Id = NI.GetId();
-                diff += fabs(NewVal-PRankV[Id]);
-                PRankV[Id] = NewVal;
-            }
-            if (diff < Eps) { break; }
-        }
-
-#pragma omp parallel for schedule(dynamic,10000)
-        for (int i = 0; i < NNodes; i++) {
-            TNEANet::TNodeI NI = NV[i];
-            PRankH[i] = PRankV[NI.GetId()];
-        }
-
-        return 0;
-    }
-
-#endif // USE_OPENMP
-
-    //Event importance
-    TIntFltH EventImportance(const PNGraph& Graph, const int k) {
-        TIntFltH NodeList; // values for nodese
-
-        for (TNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            NodeList.AddDat(NI.GetId(),NI.GetOutDeg());
-        }
-
-
-        for (THashKeyDatI<TInt,TFlt> NI = NodeList.BegI(); NI < NodeList.EndI(); NI++){
-            int outdeg = Graph->GetNI(NI.GetKey()).GetOutDeg();
-            int indeg = Graph->GetNI(NI.GetKey()).GetInDeg();
-
-            if (outdeg>1 && indeg>0){
-                double val = (1-(1/(double)outdeg))/(double)indeg;
-                for(int i=0; i<(outdeg+indeg);i++){
-                    int NId = Graph->GetNI(NI.GetKey()).GetNbrNId(i);
-                    if (Graph->GetNI(NI.GetKey()).IsInNId(NId) == true){
-                        NodeList.AddDat(NId,NodeList.GetDat(NId)+val);
-                    }
-
-                }
-            }
-
-        }
-
-        return NodeList;
-    }
-
-    //Event importance 1
-    TIntFltH EventImportance1 (const PNGraph& Graph, const int k) {
-        TIntFltH NodeList; // values for nodese
-
-        for (TNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-            NodeList.AddDat(NI.GetId(),NI.GetOutDeg());
-        }
-
-
-        for (THashKeyDatI<TInt,TFlt> NI = NodeList.BegI(); NI < NodeList.EndI(); NI++){
-            int outdeg = Graph->GetNI(NI.GetKey()).GetOutDeg();
-            int indeg = Graph->GetNI(NI.GetKey()).GetInDeg();
-
-            if (outdeg>1 && indeg>0){
-                double val = (1-(1/(double)outdeg))/(double)indeg;
-                for(int i=0; i<(outdeg+indeg);i++){
-                    int NId = Graph->GetNI(NI.GetKey()).GetNbrNId(i);
-                    if (Graph->GetNI(NI.GetKey()).IsInNId(NId) == true){
-                        NodeList.AddDat(NId,NodeList.GetDat(NId)+val);
-                    }
-
-                }
-            }
-
-        }
-
-        return NodeList;
-    }
-
-    int Intersect(TUNGraph::TNodeI Node, TIntH NNodes){
-        int br=0;
-        for (int i=0; i<Node.GetDeg(); i++)
-        {
-            if (NNodes.IsKey(Node.GetNbrNId(i)))
-                br++;
-        }
-        if (NNodes.IsKey(Node.GetId()))
-            br++;
-
-        return br;
-    }
-
-    int Intersect(TUNGraph::TNodeI Node, TStr NNodes){
-        int br=0;
-
-        TInt digi = -1;
-        TStr buf = "";
-
-        for (int i=0; i<Node.GetDeg(); i++)
-        {
-            digi = Node.GetNbrNId(i);
-            TStr buf = digi.GetStr();
-
-            if (NNodes.IsStrIn(buf.CStr()))
-                br++;
-        }
-
-        digi = Node.GetId();
-        buf = digi.GetStr();
-
-        if (NNodes.IsStrIn(buf.CStr()))
-            br++;
-
-        return br;
-    }
-
-    int Intersect(TUNGraph::TNodeI Node, int *NNodes, int NNodes_br){
-        int br = 0;
-        int neig;
-        for (int i=0; i<Node.GetDeg(); i++)
-        {
-            neig = Node.GetNbrNId(i);
-            for (int j=0; j<NNodes_br; j++)
-            {
-                if (neig == NNodes[j])
-                {
-                    br++;
-                    j = NNodes_br;
-                }
-            }
-        }
-
-        neig = Node.GetId();
-        for (int j=0; j<NNodes_br; j++)
-        {
-            if (neig == NNodes[j])
-            {
-                br++;
-                j = NNodes_br;
-            }
-        }
-
-        return br;
-    }
-
-    int Intersect1(TUNGraph::TNodeI Node, TStr NNodes){
-        int br=0;
-        for (int i=0; i<Node.GetDeg(); i++)
-        {
-            TInt digi = Node.GetNbrNId(i);
-            TStr buf = "";
-            buf = digi.GetStr();
-
-            if (NNodes.SearchStr(buf.CStr())!=-1)
-                br++;
-        }
-
-        TInt digi = Node.GetId();
-        TStr buf = digi.GetStr();
-
-        if (NNodes.SearchStr(buf.CStr())!=-1)
-            br++;
-
-        return br;
-    }
-
-    TIntH LoadNodeList(TStr InFNmNodes){
-        TSsParser Ss(InFNmNodes, ssfWhiteSep, true, true, true);
-        TIntIntH Nodes;
-        int br = 0, NId;
-        while (Ss.Next()) {
-            if (Ss.GetInt(0, NId)) {
-                Nodes.AddDat(br,NId);
-                br++;
-            }
-        }
-        return Nodes;
-    }
-
-
-    int findMinimum(TIntV& Frontier, TIntFltH& NIdDistH) {
-        TFlt minimum = TInt::Mx;
-        int min_index = 0;
-        for (int i = 0; i < Frontier.Len(); i++) {
-            int NId = Frontier.GetVal(i);
-            if (NIdDistH[NId] < minimum) {
-                minimum = NIdDistH[NId];
-                min_index = i;
-            }
-        }
-        const int NId = Frontier.GetVal(min_index);
-        Frontier.Del(min_index);
-        return NId;
-    }
-
-    int GetWeightedShortestPath(
-            const PNEANet Graph, const int& SrcNId, TIntFltH& NIdDistH, const TFltV& Attr) {
-        TIntV frontier;
-
-        NIdDistH.Clr(false); NIdDistH.AddDat(SrcNId, 0);
-        frontier.Add(SrcNId);
-        while (! frontier.Empty()) {
-            const int NId = findMinimum(frontier, NIdDistH);
-            const PNEANet::TObj::TNodeI NodeI = Graph->GetNI(NId);
-            for (int v = 0; v < NodeI.GetOutDeg(); v++) {
-                int DstNId = NodeI.GetOutNId(v);
-                int EId = NodeI.GetOutEId(v);
-
-                if (! NIdDistH.IsKey(DstNId)) {
-                    NIdDistH.AddDat(DstNId, NIdDistH.GetDat(NId) + Attr[EId]);
-                    frontier.Add(DstNId);
-                } else {
-                    if (NIdDistH[DstNId] > NIdDistH.GetDat(NId) + Attr[EId]) {
-                        NIdDistH[DstNId] = NIdDistH.GetDat(NId) + Attr[EId];
-                    }
-                }
-            }
-        }
-        return 0;
-    }
-
-    double GetWeightedFarnessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized) {
-        TIntFltH NDistH(Graph->GetNodes());
-
-        GetWeightedShortestPath(Graph, NId, NDistH, Attr);
-
-        double sum = 0;
-        for (TIntFltH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
-            sum += I->Dat();
-        }
-        if (NDistH.Len() > 1) {
-            double centr = sum/double(NDistH.Len()-1);
-            if (Normalized) {
-                centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
-            }
-            return centr;
-        }
-        else { return 0.0; }
-    }
-
-    double GetWeightedClosenessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized) {
-        const double Farness = GetWeightedFarnessCentr(Graph, NId, IsDir, Attr, Normalized);
-        if (Farness != 0.0) { return 1.0/Farness; }
-        else { return 0.0; }
-        return 0.0;
-    }
-
-    void GetWeightedBetweennessCentr(const PNEANet Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent, const TFltV& Attr) {
-        if (DoNodeCent) { NodeBtwH.Clr(); }
-        if (DoEdgeCent) { EdgeBtwH.Clr(); }
-        const int nodes = Graph->GetNodes();
-        TIntS S(nodes);
-        TIntQ Q(nodes);
-        TIntIntVH P(nodes); // one vector for every node
-        TIntFltH delta(nodes);
-        TIntFltH sigma(nodes), d(nodes);
-        // init
-        for (PNEANet::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-            if (DoNodeCent) {
-                NodeBtwH.AddDat(NI.GetId(), 0); }
-            if (DoEdgeCent) {
-                for (int e = 0; e < NI.GetOutDeg(); e++) {
-                    if (NI.GetId() < NI.GetOutNId(e)) {
-                        EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
-                    }
-                }
-            }
-            sigma.AddDat(NI.GetId(), 0);
-            d.AddDat(NI.GetId(), -1);
-            P.AddDat(NI.GetId(), TIntV());
-            delta.AddDat(NI.GetId(), 0);
-        }
-        // calc betweeness
-        for (int k=0; k < BtwNIdV.Len(); k++) {
-            const PNEANet::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
-            // reset
-            for (int i = 0; i < sigma.Len(); i++) {
-                sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
-            }
-            S.Clr(false);
-            Q.Clr(false);
-            sigma.AddDat(NI.GetId(), 1);
-            d.AddDat(NI.GetId(), 0);
-            Q.Push(NI.GetId());
-            while (! Q.Empty()) {
-                const int v = Q.Top();  Q.Pop();
-                const PNEANet::TObj::TNodeI NI2 = Graph->GetNI(v);
-                S.Push(v);
-                const double VDat = d.GetDat(v);
-                for (int e = 0; e < NI2.GetOutDeg(); e++) {
-                    const int w = NI2.GetOutNId(e);
-                    const int eid = NI2.GetOutEId(e);
-
-                    if (d.GetDat(w) < 0) { // find w for the first time
-                        Q.Push(w);
-                        d.AddDat(w, VDat+Attr[eid]);
-                    }
-                    //shortest path to w via v ?
-                    if (d.GetDat(w) == VDat+Attr[eid]) {
-                        sigma.AddDat(w) += sigma.GetDat(v);
-                        P.GetDat(w).Add(v);
-                    }
-                }
-            }
-
-            while (! S.Empty()) {
-                const int w = S.Top();
-                const double SigmaW = sigma.GetDat(w);
-                const double DeltaW = delta.GetDat(w);
-                const TIntV NIdV = P.GetDat(w);
-                S.Pop();
-                for (int i = 0; i < NIdV.Len(); i++) {
-                    const int NId = NIdV[i];
-                    const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
-                    delta.AddDat(NId) += c;
-                    if (DoEdgeCent) {
-                        EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
-                }
-                double factor = (IsDir) ? 1.0 : 2.0;
-                if (DoNodeCent && w != NI.GetId()) {
-                    NodeBtwH.AddDat(w) += delta.GetDat(w)/factor; }
-            }
-        }
-    }
-
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NodeBtwH, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
-        TIntV NIdV;  Graph->GetNIdV(NIdV);
-        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-            NIdV.Shuffle(TInt::Rnd);
-            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                NIdV.DelLast(); }
-        }
-        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, true, Attr
-                );
-    }
-
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NodeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
-        TIntPrFltH EdgeBtwH;
-        TIntV NIdV;  Graph->GetNIdV(NIdV);
-        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-            NIdV.Shuffle(TInt::Rnd);
-            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                NIdV.DelLast(); }
-        }
-        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false, Attr);
-    }
-
-    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
-        TIntFltH NodeBtwH;
-        TIntV NIdV;  Graph->GetNIdV(NIdV);
-        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
-            NIdV.Shuffle(TInt::Rnd);
-            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
-                NIdV.DelLast(); }
-        }
-        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, false, EdgeBtwH, true, Attr);
-    }
-
-}; // namespace TSnap
+namespace TSnap {
+
+    /////////////////////////////////////////////////
+    // Node centrality measures
+    double GetDegreeCentr(const PUNGraph& Graph, const int& NId) {
+        if (Graph->GetNodes() > 1) {
+            return double(Graph->GetNI(NId).GetDeg())/double(Graph->GetNodes()-1); }
+        else { return 0.0; }
+    }
+
+    void GetEigenVectorCentr(const PUNGraph& Graph, TIntFltH& NIdEigenH, const double& Eps, const int& MaxIter) {
+        const int NNodes = Graph->GetNodes();
+        NIdEigenH.Gen(NNodes);
+        // initialize vector values
+        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+            NIdEigenH.AddDat(NI.GetId(), 1.0/NNodes);
+            IAssert(NI.GetId() == NIdEigenH.GetKey(NIdEigenH.Len()-1));
+        }
+        TFltV TmpV(NNodes);
+        for (int iter = 0; iter < MaxIter; iter++) {
+            int j = 0;
+            // add neighbor values
+            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
+                TmpV[j] = 0;
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    TmpV[j] += NIdEigenH.GetDat(NI.GetOutNId(e)); }
+            }
+
+            // normalize
+            double sum = 0;
+            for (int i = 0; i < TmpV.Len(); i++) {
+                sum += (TmpV[i]*TmpV[i]);
+            }
+            sum = sqrt(sum);
+            for (int i = 0; i < TmpV.Len(); i++) {
+                TmpV[i] /= sum;
+            }
+
+            // compute difference
+            double diff = 0.0;
+            j = 0;
+            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
+                diff += fabs(NIdEigenH.GetDat(NI.GetId())-TmpV[j]);
+            }
+
+            // set new values
+            j = 0;
+            for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
+                NIdEigenH.AddDat(NI.GetId(), TmpV[j]);
+            }
+
+            if (diff < Eps) {
+                break;
+            }
+        }
+    }
+
+    // Group centrality measures
+    double GetGroupDegreeCentr(const PUNGraph& Graph, const PUNGraph& Group) {
+        int deg;
+        TIntH NN;
+        for (TUNGraph::TNodeI NI = Group->BegNI(); NI < Group->EndNI(); NI++) {
+            deg = Graph->GetNI(NI.GetId()).GetDeg();
+            for (int i=0; i<deg; i++) {
+                if (Group->IsNode(Graph->GetNI(NI.GetId()).GetNbrNId(i))==0)
+                    NN.AddDat(Graph->GetNI(NI.GetId()).GetNbrNId(i),NI.GetId());
+            }
+        }
+        return (double)NN.Len();
+    }
+
+    double GetGroupDegreeCentr0(const PUNGraph& Graph, const TIntH& GroupNodes) {
+        int deg;
+        TIntH NN;
+        for (int i = 0; i<GroupNodes.Len(); i++) {
+            deg = Graph->GetNI(GroupNodes.GetDat(i)).GetDeg();
+            for (int j = 0; j < deg; j++) {
+                if (GroupNodes.IsKey(Graph->GetNI(GroupNodes.GetDat(i)).GetNbrNId(j))==0)
+                    NN.AddDat(Graph->GetNI(GroupNodes.GetDat(i)).GetNbrNId(j),GroupNodes.GetDat(i));
+            }
+        }
+        return (double)NN.Len();
+    }
+
+    double GetGroupDegreeCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
+        int deg;
+        TIntH NN;
+        TIntH GroupNodes1;
+
+        for (THashKeyDatI<TInt,TInt> NI = GroupNodes.BegI(); NI < GroupNodes.EndI(); NI++)
+            GroupNodes1.AddDat(NI.GetDat(),NI.GetDat());
+
+        for (THashKeyDatI<TInt,TInt> NI = GroupNodes1.BegI(); NI < GroupNodes1.EndI(); NI++){
+            TUNGraph::TNodeI node = Graph->GetNI(NI.GetKey());
+            deg = node.GetDeg();
+            for (int j = 0; j < deg; j++){
+                if (GroupNodes1.IsKey(node.GetNbrNId(j))==0 && NN.IsKey(node.GetNbrNId(j))==0)
+                    NN.AddDat(node.GetNbrNId(j),NI.GetKey());
+            }
+        }
+
+        return (double)NN.Len();
+    }
+
+    double GetGroupFarnessCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
+        TIntH* NDistH = new TIntH[GroupNodes.Len()];
+
+        for (int i=0; i<GroupNodes.Len(); i++){
+            NDistH[i](Graph->GetNodes());
+            TSnap::GetShortPath<PUNGraph>(Graph, GroupNodes.GetDat(i), NDistH[i], true, TInt::Mx);
+        }
+
+        int min, dist, sum=0, len=0;
+        for (PUNGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            if(NDistH[0].IsKey(NI.GetId()))
+                min = NDistH[0].GetDat(NI.GetId());
+            else
+                min = -1;
+            for (int j=1; j<GroupNodes.Len(); j++){
+                if (NDistH[j].IsKey(NI.GetId()))
+                    dist = NDistH[j].GetDat(NI.GetId());
+                else
+                    dist = -1;
+                if ((dist < min && dist != -1) || (dist > min && min == -1))
+                    min = dist;
+            }
+            if (min>0){
+                sum += min;
+                len++;
+            }
+
+        }
+
+        if (len > 0) { return sum/double(len); }
+        else { return 0.0; }
+    }
+
+    PUNGraph *AllGraphsWithNNodes(int n){
+        PUNGraph* g = new PUNGraph[(((n*n)-n)/2)+1];
+        PUNGraph g0;
+        for(int i=0; i<n; i++)
+            g0->AddNode(i);
+
+        g[0] = g0;
+        int br=1;
+
+        for(int i=0; i<n; i++)
+            for(int j=i; j<n; j++){
+                g0->AddEdge(i,j);
+                g[br] = g0;
+                br++;
+            }
+
+        return g;
+    }
+
+    TIntH *AllCombinationsMN(int m, int n){
+        float N = 1;
+        for(int i=n; i>0; i--){
+            N *= (float)m/(float)n;
+            m--;
+            n--;
+        }
+
+        TIntH* C = new TIntH[(int)N];
+        return C;
+    }
+
+    double GetGroupClosenessCentr(const PUNGraph& Graph, const TIntH& GroupNodes) {
+        const double Farness = GetGroupFarnessCentr(Graph, GroupNodes);
+        if (Farness != 0.0) { return 1.0/Farness; }
+        else { return 0.0; }
+    }
+
+    TIntH MaxCPGreedyBetter(const PUNGraph& Graph, const int k) {
+        TIntH GroupNodes; // buildup cpntainer of group nodes
+        TIntH NNodes; // container of neighbouring nodes
+        TIntH Nodes; // nodes sorted by vd
+        double gc = 0, gc0 = 0;
+        int addId = 0, addIdPrev = 0;
+
+        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+            Nodes.AddDat(NI.GetId(),NI.GetDeg());
+        }
+
+        Nodes.SortByDat(false);
+
+        int br = 0;
+        while (br < k) {
+            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++) {
+                if ((NI.GetDat() <= (int)gc0))
+                    break;
+                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
+                if (gc>gc0) {
+                    gc0 = gc;
+                    addId = NI.GetKey();
+                }
+            }
+
+            if (addId != addIdPrev){
+
+                GroupNodes.AddDat(br,addId);
+                br++;
+                gc0=0;
+
+                NNodes.AddDat(addId,0);
+                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
+                    NNodes.AddDat(Graph->GetNI(addId).GetNbrNId(i),0);
+                }
+                addIdPrev = addId;
+                Nodes.DelKey(addId);
+            } else {
+                br = k;
+            }
+            printf("%i,",br);
+        }
+
+        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
+        return GroupNodes;
+    }
+
+    // this is the variation of the first version that doesent stop after finding the optimal K
+    TIntH MaxCPGreedyBetter1(const PUNGraph& Graph, const int k) {
+        TIntH GroupNodes;
+        TIntH NNodes;
+        TIntH Nodes;
+        double gc = 0, gc0 = 0;
+        int addId = 0, addIdPrev = 0;
+
+        // put nodes in the container and sort them by vertex degree
+        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            Nodes.AddDat(NI.GetId(),NI.GetDeg());
+        }
+        Nodes.SortByDat(false);
+
+        int br = 0;
+        while (br < k) {
+            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
+                if((NI.GetDat() < (int)gc0))
+                    break;
+                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
+                if (gc>gc0) {
+                    gc0 = gc;
+                    addId = NI.GetKey();
+                }
+            }
+
+            if (addId != addIdPrev){
+
+                GroupNodes.AddDat(br,addId);
+                br++;
+                gc0=-10000000;
+
+                NNodes.AddDat(addId,0);
+                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
+                    NNodes.AddDat(Graph->GetNI(addId).GetNbrNId(i),0);
+                }
+                addIdPrev = addId;
+                Nodes.DelKey(addId);
+            }
+        }
+
+        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
+        return GroupNodes;
+    }
+
+    // version with string type of container of group nodes - Fail (it is slower)
+    TIntH MaxCPGreedyBetter2(const PUNGraph& Graph, const int k) {
+        TIntH GroupNodes; // buildup cpntainer of group nodes
+        TStr NNodes; // container of neighbouring nodes
+        TIntH Nodes; // nodes sorted by vd
+        double gc = 0, gc0 = 0;
+        int addId = 0, addIdPrev=0;
+
+        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            Nodes.AddDat(NI.GetId(),NI.GetDeg());
+        }
+
+        Nodes.SortByDat(false);
+
+        int br=0;
+        while (br < k) {
+            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
+                if((NI.GetDat() <= (int)gc0))
+                    break;
+                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes);
+                if (gc>gc0) {
+                    gc0 = gc;
+                    addId = NI.GetKey();
+                }
+            }
+
+            if (addId != addIdPrev) {
+
+                GroupNodes.AddDat(br,addId);
+                br++;
+                gc0=0;
+
+                TInt digi = addId;
+                TStr buf = digi.GetStr();
+
+                NNodes += " "+buf;
+
+                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
+                    TInt digi = Graph->GetNI(addId).GetNbrNId(i);
+                    TStr buf = digi.GetStr();
+                    NNodes += " "+buf;
+                }
+                addIdPrev = addId;
+                Nodes.DelKey(addId);
+            } else {
+                br = k;
+            }
+            printf("%i,",br);
+        }
+
+        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
+        return GroupNodes;
+    }
+
+    // version with int array - the fastest
+    TIntH MaxCPGreedyBetter3(const PUNGraph& Graph, const int k) {
+        TIntH GroupNodes; // buildup cpntainer of group nodes
+        const int n = Graph->GetNodes();
+        int *NNodes = new int[n]; // container of neighbouring nodes
+        int NNodes_br = 0;
+        TIntH Nodes; // nodes sorted by vd
+        double gc = 0, gc0 = 0;
+        int addId = 0, addIdPrev = 0;
+
+        for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            Nodes.AddDat(NI.GetId(),NI.GetDeg());
+        }
+
+        Nodes.SortByDat(false);
+
+        int br = 0;
+        while (br < k) {
+            for (THashKeyDatI<TInt,TInt> NI = Nodes.BegI(); NI < Nodes.EndI(); NI++){
+                if((NI.GetDat() <= (int)gc0))
+                    break;
+                gc = NI.GetDat()-Intersect(Graph->GetNI(NI.GetKey()),NNodes,NNodes_br);
+                if (gc>gc0){
+                    gc0 = gc;
+                    addId = NI.GetKey();
+                }
+            }
+
+            if (addId != addIdPrev) {
+
+                GroupNodes.AddDat(br,addId);
+                br++;
+                gc0=0;
+
+                int nn = addId;
+                bool nnnew = true;
+                for (int j=0; j<NNodes_br; j++)
+                    if (NNodes[j] == nn){
+                        nnnew = false;
+                        j = NNodes_br;
+                    }
+
+                if (nnnew){
+                    NNodes[NNodes_br] = nn;
+                    NNodes_br++;
+                }
+
+                for (int i=0; i<Graph->GetNI(addId).GetDeg(); i++) {
+                    int nn = Graph->GetNI(addId).GetNbrNId(i);
+                    bool nnnew = true;
+                    for (int j=0; j<NNodes_br; j++) {
+                        if (NNodes[j] == nn){
+                            nnnew = false;
+                            j = NNodes_br;
+                        }
+                    }
+                    if (nnnew){
+                        NNodes[NNodes_br] = nn;
+                        NNodes_br++;
+                    }
+                }
+                addIdPrev = addId;
+                Nodes.DelKey(addId);
+            } else {
+                br = k;
+            }
+            printf("%i,",br);
+        }
+
+        delete[] NNodes;
+        // gcFinal = GetGroupDegreeCentr(Graph, GroupNodes);
+        return GroupNodes;
+    }
+
+    //Weighted PageRank
+    int GetWeightedPageRank(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C, const double& Eps, const int& MaxIter) {
+        if (!Graph->IsFltAttrE(Attr)) return -1;
+
+        TFltV Weights = Graph->GetFltAttrVecE(Attr);
+
+        int mxid = Graph->GetMxNId();
+        TFltV OutWeights(mxid);
+        Graph->GetWeightOutEdgesV(OutWeights, Weights);
+
+        const int NNodes = Graph->GetNodes();
+        //const double OneOver = 1.0/double(NNodes);
+        PRankH.Gen(NNodes);
+        for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+            PRankH.AddDat(NI.GetId(), 1.0/NNodes);
+            //IAssert(NI.GetId() == PRankH.GetKey(PRankH.Len()-1));
+        }
+        TFltV TmpV(NNodes);
+        for (int iter = 0; iter < MaxIter; iter++) {
+            int j = 0;
+            for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++, j++) {
+                TmpV[j] = 0;
+                for (int e = 0; e < NI.GetInDeg(); e++) {
+                    const int InNId = NI.GetInNId(e);
+                    const TFlt OutWeight = OutWeights[InNId];
+                    int EId = NI.GetInEId(e);
+                    const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
+                    if (OutWeight > 0) {
+                        TmpV[j] += PRankH.GetDat(InNId) * Weight / OutWeight; }
+                }
+                TmpV[j] =  C*TmpV[j]; // Berkhin (the correct way of doing it)
+                //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
+            }
+            double diff=0, sum=0, NewVal;
+            for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
+            const double Leaked = (1.0-sum) / double(NNodes);
+            for (int i = 0; i < PRankH.Len(); i++) { // re-instert leaked PageRank
+                NewVal = TmpV[i] + Leaked; // Berkhin
+                //NewVal = TmpV[i] / sum;  // iGraph
+                diff += fabs(NewVal-PRankH[i]);
+                PRankH[i] = NewVal;
+            }
+            if (diff < Eps) { break; }
+        }
+        return 0;
+    }
+
+#ifdef USE_OPENMP
+    int GetWeightedPageRankMP(const PNEANet Graph, TIntFltH& PRankH, const TStr& Attr, const double& C, const double& Eps, const int& MaxIter) {
+        if (!Graph->IsFltAttrE(Attr)) return -1;
+        const int NNodes = Graph->GetNodes();
+        TVec<TNEANet::TNodeI> NV;
+
+        //const double OneOver = 1.0/double(NNodes);
+        PRankH.Gen(NNodes);
+        int MxId = 0;
+
+        for (TNEANet::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+            NV.Add(NI);
+            PRankH.AddDat(NI.GetId(), 1.0/NNodes);
+            int Id = NI.GetId();
+            if (Id > MxId) {
+                MxId = Id;
+            }
+        }
+
+        TFltV PRankV(MxId+1);
+        TFltV OutWeights(MxId+1);
+
+        TFltV Weights = Graph->GetFltAttrVecE(Attr);
+
+#pragma omp parallel for schedule(dynamic,10000)
+        for (int j = 0; j < NNodes; j++) {
+            TNEANet::TNodeI NI = NV[j];
+            int Id = NI.GetId();
+            OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
+            PRankV[Id] = 1/NNodes;
+        }
+
+        TFltV TmpV(NNodes);
+        for (int iter = 0; iter < MaxIter; iter++) {
+
+#pragma omp parallel for schedule(dynamic,10000)
+            for (int j = 0; j < NNodes; j++) {
+                TNEANet::TNodeI NI = NV[j];
+                TFlt Tmp = 0;
+                for (int e = 0; e < NI.GetInDeg(); e++) {
+                    const int InNId = NI.GetInNId(e);
+
+                    const TFlt OutWeight = OutWeights[InNId];
+
+                    int EId = NI.GetInEId(e);
+                    const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
+
+                    if (OutWeight > 0) {
+                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
+                    }
+                }
+                TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
+                //TmpV[j] =  C*TmpV[j] + (1.0-C)*OneOver; // iGraph
+            }
+
+            double sum = 0;
+#pragma omp parallel for reduction(+:sum) schedule(dynamic,10000)
+            for (int i = 0; i < TmpV.Len(); i++) { sum += TmpV[i]; }
+            const double Leaked = (1.0-sum) / double(NNodes);
+
+            double diff = 0;
+#pragma omp parallel for reduction(+:diff) schedule(dynamic,10000)
+            for (int i = 0; i < NNodes; i++) {
+                TNEANet::TNodeI NI = NV[i];
+                double NewVal = TmpV[i] + Leaked; // Berkhin
+                //NewVal = TmpV[i] / sum;  // iGraph
+                int Id = NI.GetId();
+                diff += fabs(NewVal-PRankV[Id]);
+                PRankV[Id] = NewVal;
+            }
+            if (diff < Eps) { break; }
+        }
+
+#pragma omp parallel for schedule(dynamic,10000)
+        for (int i = 0; i < NNodes; i++) {
+            TNEANet::TNodeI NI = NV[i];
+            PRankH[i] = PRankV[NI.GetId()];
+        }
+
+        return 0;
+    }
+
+#endif // USE_OPENMP
+
+    //Event importance
+    TIntFltH EventImportance(const PNGraph& Graph, const int k) {
+        TIntFltH NodeList; // values for nodese
+
+        for (TNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            NodeList.AddDat(NI.GetId(),NI.GetOutDeg());
+        }
+
+
+        for (THashKeyDatI<TInt,TFlt> NI = NodeList.BegI(); NI < NodeList.EndI(); NI++){
+            int outdeg = Graph->GetNI(NI.GetKey()).GetOutDeg();
+            int indeg = Graph->GetNI(NI.GetKey()).GetInDeg();
+
+            if (outdeg>1 && indeg>0){
+                double val = (1-(1/(double)outdeg))/(double)indeg;
+                for(int i=0; i<(outdeg+indeg);i++){
+                    int NId = Graph->GetNI(NI.GetKey()).GetNbrNId(i);
+                    if (Graph->GetNI(NI.GetKey()).IsInNId(NId) == true){
+                        NodeList.AddDat(NId,NodeList.GetDat(NId)+val);
+                    }
+
+                }
+            }
+
+        }
+
+        return NodeList;
+    }
+
+    //Event importance 1
+    TIntFltH EventImportance1 (const PNGraph& Graph, const int k) {
+        TIntFltH NodeList; // values for nodese
+
+        for (TNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+            NodeList.AddDat(NI.GetId(),NI.GetOutDeg());
+        }
+
+
+        for (THashKeyDatI<TInt,TFlt> NI = NodeList.BegI(); NI < NodeList.EndI(); NI++){
+            int outdeg = Graph->GetNI(NI.GetKey()).GetOutDeg();
+            int indeg = Graph->GetNI(NI.GetKey()).GetInDeg();
+
+            if (outdeg>1 && indeg>0){
+                double val = (1-(1/(double)outdeg))/(double)indeg;
+                for(int i=0; i<(outdeg+indeg);i++){
+                    int NId = Graph->GetNI(NI.GetKey()).GetNbrNId(i);
+                    if (Graph->GetNI(NI.GetKey()).IsInNId(NId) == true){
+                        NodeList.AddDat(NId,NodeList.GetDat(NId)+val);
+                    }
+
+                }
+            }
+
+        }
+
+        return NodeList;
+    }
+
+    int Intersect(TUNGraph::TNodeI Node, TIntH NNodes){
+        int br=0;
+        for (int i=0; i<Node.GetDeg(); i++)
+        {
+            if (NNodes.IsKey(Node.GetNbrNId(i)))
+                br++;
+        }
+        if (NNodes.IsKey(Node.GetId()))
+            br++;
+
+        return br;
+    }
+
+    int Intersect(TUNGraph::TNodeI Node, TStr NNodes){
+        int br=0;
+
+        TInt digi = -1;
+        TStr buf = "";
+
+        for (int i=0; i<Node.GetDeg(); i++)
+        {
+            digi = Node.GetNbrNId(i);
+            TStr buf = digi.GetStr();
+
+            if (NNodes.IsStrIn(buf.CStr()))
+                br++;
+        }
+
+        digi = Node.GetId();
+        buf = digi.GetStr();
+
+        if (NNodes.IsStrIn(buf.CStr()))
+            br++;
+
+        return br;
+    }
+
+    int Intersect(TUNGraph::TNodeI Node, int *NNodes, int NNodes_br){
+        int br = 0;
+        int neig;
+        for (int i=0; i<Node.GetDeg(); i++)
+        {
+            neig = Node.GetNbrNId(i);
+            for (int j=0; j<NNodes_br; j++)
+            {
+                if (neig == NNodes[j])
+                {
+                    br++;
+                    j = NNodes_br;
+                }
+            }
+        }
+
+        neig = Node.GetId();
+        for (int j=0; j<NNodes_br; j++)
+        {
+            if (neig == NNodes[j])
+            {
+                br++;
+                j = NNodes_br;
+            }
+        }
+
+        return br;
+    }
+
+    int Intersect1(TUNGraph::TNodeI Node, TStr NNodes){
+        int br=0;
+        for (int i=0; i<Node.GetDeg(); i++)
+        {
+            TInt digi = Node.GetNbrNId(i);
+            TStr buf = "";
+            buf = digi.GetStr();
+
+            if (NNodes.SearchStr(buf.CStr())!=-1)
+                br++;
+        }
+
+        TInt digi = Node.GetId();
+        TStr buf = digi.GetStr();
+
+        if (NNodes.SearchStr(buf.CStr())!=-1)
+            br++;
+
+        return br;
+    }
+
+    TIntH LoadNodeList(TStr InFNmNodes){
+        TSsParser Ss(InFNmNodes, ssfWhiteSep, true, true, true);
+        TIntIntH Nodes;
+        int br = 0, NId;
+        while (Ss.Next()) {
+            if (Ss.GetInt(0, NId)) {
+                Nodes.AddDat(br,NId);
+                br++;
+            }
+        }
+        return Nodes;
+    }
+
+
+    int findMinimum(TIntV& Frontier, TIntFltH& NIdDistH) {
+        TFlt minimum = TInt::Mx;
+        int min_index = 0;
+        for (int i = 0; i < Frontier.Len(); i++) {
+            int NId = Frontier.GetVal(i);
+            if (NIdDistH[NId] < minimum) {
+                minimum = NIdDistH[NId];
+                min_index = i;
+            }
+        }
+        const int NId = Frontier.GetVal(min_index);
+        Frontier.Del(min_index);
+        return NId;
+    }
+
+    int GetWeightedShortestPath(
+            const PNEANet Graph, const int& SrcNId, TIntFltH& NIdDistH, const TFltV& Attr) {
+        TIntV frontier;
+
+        NIdDistH.Clr(false); NIdDistH.AddDat(SrcNId, 0);
+        frontier.Add(SrcNId);
+        while (! frontier.Empty()) {
+            const int NId = findMinimum(frontier, NIdDistH);
+            const PNEANet::TObj::TNodeI NodeI = Graph->GetNI(NId);
+            for (int v = 0; v < NodeI.GetOutDeg(); v++) {
+                int DstNId = NodeI.GetOutNId(v);
+                int EId = NodeI.GetOutEId(v);
+
+                if (! NIdDistH.IsKey(DstNId)) {
+                    NIdDistH.AddDat(DstNId, NIdDistH.GetDat(NId) + Attr[EId]);
+                    frontier.Add(DstNId);
+                } else {
+                    if (NIdDistH[DstNId] > NIdDistH.GetDat(NId) + Attr[EId]) {
+                        NIdDistH[DstNId] = NIdDistH.GetDat(NId) + Attr[EId];
+                    }
+                }
+            }
+        }
+        return 0;
+    }
+
+    double GetWeightedFarnessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized) {
+        TIntFltH NDistH(Graph->GetNodes());
+
+        GetWeightedShortestPath(Graph, NId, NDistH, Attr);
+
+        double sum = 0;
+        for (TIntFltH::TIter I = NDistH.BegI(); I < NDistH.EndI(); I++) {
+            sum += I->Dat();
+        }
+        if (NDistH.Len() > 1) {
+            double centr = sum/double(NDistH.Len()-1);
+            if (Normalized) {
+                centr *= (Graph->GetNodes() - 1)/double(NDistH.Len()-1);
+            }
+            return centr;
+        }
+        else { return 0.0; }
+    }
+
+    double GetWeightedClosenessCentr(const PNEANet Graph, const int& NId, const bool& IsDir, const TFltV& Attr, const bool& Normalized) {
+        const double Farness = GetWeightedFarnessCentr(Graph, NId, IsDir, Attr, Normalized);
+        if (Farness != 0.0) { return 1.0/Farness; }
+        else { return 0.0; }
+        return 0.0;
+    }
+
+    void GetWeightedBetweennessCentr(const PNEANet Graph, const TIntV& BtwNIdV, TIntFltH& NodeBtwH, const bool& IsDir, const bool& DoNodeCent, TIntPrFltH& EdgeBtwH, const bool& DoEdgeCent, const TFltV& Attr) {
+        if (DoNodeCent) { NodeBtwH.Clr(); }
+        if (DoEdgeCent) { EdgeBtwH.Clr(); }
+        const int nodes = Graph->GetNodes();
+        TIntS S(nodes);
+        TIntQ Q(nodes);
+        TIntIntVH P(nodes); // one vector for every node
+        TIntFltH delta(nodes);
+        TIntFltH sigma(nodes), d(nodes);
+        // init
+        for (PNEANet::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+            if (DoNodeCent) {
+                NodeBtwH.AddDat(NI.GetId(), 0); }
+            if (DoEdgeCent) {
+                for (int e = 0; e < NI.GetOutDeg(); e++) {
+                    if (NI.GetId() < NI.GetOutNId(e)) {
+                        EdgeBtwH.AddDat(TIntPr(NI.GetId(), NI.GetOutNId(e)), 0);
+                    }
+                }
+            }
+            sigma.AddDat(NI.GetId(), 0);
+            d.AddDat(NI.GetId(), -1);
+            P.AddDat(NI.GetId(), TIntV());
+            delta.AddDat(NI.GetId(), 0);
+        }
+        // calc betweeness
+        for (int k=0; k < BtwNIdV.Len(); k++) {
+            const PNEANet::TObj::TNodeI NI = Graph->GetNI(BtwNIdV[k]);
+            // reset
+            for (int i = 0; i < sigma.Len(); i++) {
+                sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
+            }
+            S.Clr(false);
+            Q.Clr(false);
+            sigma.AddDat(NI.GetId(), 1);
+            d.AddDat(NI.GetId(), 0);
+            Q.Push(NI.GetId());
+            while (! Q.Empty()) {
+                const int v = Q.Top();  Q.Pop();
+                const PNEANet::TObj::TNodeI NI2 = Graph->GetNI(v);
+                S.Push(v);
+                const double VDat = d.GetDat(v);
+                for (int e = 0; e < NI2.GetOutDeg(); e++) {
+                    const int w = NI2.GetOutNId(e);
+                    const int eid = NI2.GetOutEId(e);
+
+                    if (d.GetDat(w) < 0) { // find w for the first time
+                        Q.Push(w);
+                        d.AddDat(w, VDat+Attr[eid]);
+                    }
+                    //shortest path to w via v ?
+                    if (d.GetDat(w) == VDat+Attr[eid]) {
+                        sigma.AddDat(w) += sigma.GetDat(v);
+                        P.GetDat(w).Add(v);
+                    }
+                }
+            }
+
+            while (! S.Empty()) {
+                const int w = S.Top();
+                const double SigmaW = sigma.GetDat(w);
+                const double DeltaW = delta.GetDat(w);
+                const TIntV NIdV = P.GetDat(w);
+                S.Pop();
+                for (int i = 0; i < NIdV.Len(); i++) {
+                    const int NId = NIdV[i];
+                    const double c = (sigma.GetDat(NId)*1.0/SigmaW) * (1+DeltaW);
+                    delta.AddDat(NId) += c;
+                    if (DoEdgeCent) {
+                        EdgeBtwH.AddDat(TIntPr(TMath::Mn(NId, w), TMath::Mx(NId, w))) += c; }
+                }
+                double factor = (IsDir) ? 1.0 : 2.0;
+                if (DoNodeCent && w != NI.GetId()) {
+                    NodeBtwH.AddDat(w) += delta.GetDat(w)/factor; }
+            }
+        }
+    }
+
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NodeBtwH, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
+        TIntV NIdV;  Graph->GetNIdV(NIdV);
+        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+            NIdV.Shuffle(TInt::Rnd);
+            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                NIdV.DelLast(); }
+        }
+        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, true, Attr
+                );
+    }
+
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntFltH& NodeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
+        TIntPrFltH EdgeBtwH;
+        TIntV NIdV;  Graph->GetNIdV(NIdV);
+        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+            NIdV.Shuffle(TInt::Rnd);
+            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                NIdV.DelLast(); }
+        }
+        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false, Attr);
+    }
+
+    void GetWeightedBetweennessCentr(const PNEANet Graph, TIntPrFltH& EdgeBtwH, const TFltV& Attr, const bool& IsDir, const double& NodeFrac) {
+        TIntFltH NodeBtwH;
+        TIntV NIdV;  Graph->GetNIdV(NIdV);
+        if (NodeFrac < 1.0) { // calculate beetweenness centrality for a subset of nodes
+            NIdV.Shuffle(TInt::Rnd);
+            for (int i = int((1.0-NodeFrac)*NIdV.Len()); i > 0; i--) {
+                NIdV.DelLast(); }
+        }
+        GetWeightedBetweennessCentr(Graph, NIdV, NodeBtwH, IsDir, false, EdgeBtwH, true, Attr);
+    }
+
+}; // namespace TSnap
-- 
2.43.0


From fbed496fbe6115a69fe072439a3f204ca3d8f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 067/147] fix: GetWeightedShortestPath takes node ids for
 positions in its distance table

---
 snap/snap-core/centr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 0b97d45..4f19f41 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -687,8 +687,8 @@ namespace TSnap {
         int min_index = 0;
         for (int i = 0; i < Frontier.Len(); i++) {
             int NId = Frontier.GetVal(i);
-            if (NIdDistH[NId] < minimum) {
-                minimum = NIdDistH[NId];
+            if (NIdDistH.GetDat(NId) < minimum) {
+                minimum = NIdDistH.GetDat(NId);
                 min_index = i;
             }
         }
@@ -714,8 +714,8 @@ namespace TSnap {
                     NIdDistH.AddDat(DstNId, NIdDistH.GetDat(NId) + Attr[EId]);
                     frontier.Add(DstNId);
                 } else {
-                    if (NIdDistH[DstNId] > NIdDistH.GetDat(NId) + Attr[EId]) {
-                        NIdDistH[DstNId] = NIdDistH.GetDat(NId) + Attr[EId];
+                    if (NIdDistH.GetDat(DstNId) > NIdDistH.GetDat(NId) + Attr[EId]) {
+                        NIdDistH.GetDat(DstNId) = NIdDistH.GetDat(NId) + Attr[EId];
                     }
                 }
             }
-- 
2.43.0


From e2f35b84cc11ecd0b718415e3ce0a1644c7e7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 068/147] fix: GetWeightedBetweennessCentr keeps the distance
 over the first path found, however long

---
 snap/snap-core/centr.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 4f19f41..6d4d224 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -754,7 +754,7 @@ namespace TSnap {
         if (DoEdgeCent) { EdgeBtwH.Clr(); }
         const int nodes = Graph->GetNodes();
         TIntS S(nodes);
-        TIntQ Q(nodes);
+        TIntV Q(nodes, 0);
         TIntIntVH P(nodes); // one vector for every node
         TIntFltH delta(nodes);
         TIntFltH sigma(nodes), d(nodes);
@@ -785,9 +785,9 @@ namespace TSnap {
             Q.Clr(false);
             sigma.AddDat(NI.GetId(), 1);
             d.AddDat(NI.GetId(), 0);
-            Q.Push(NI.GetId());
+            Q.Add(NI.GetId());
             while (! Q.Empty()) {
-                const int v = Q.Top();  Q.Pop();
+                const int v = findMinimum(Q, d); // edges have lengths: the nearest node is next
                 const PNEANet::TObj::TNodeI NI2 = Graph->GetNI(v);
                 S.Push(v);
                 const double VDat = d.GetDat(v);
@@ -796,8 +796,12 @@ namespace TSnap {
                     const int eid = NI2.GetOutEId(e);
 
                     if (d.GetDat(w) < 0) { // find w for the first time
-                        Q.Push(w);
+                        Q.Add(w);
                         d.AddDat(w, VDat+Attr[eid]);
+                    } else if (d.GetDat(w) > VDat+Attr[eid]) { // a shorter way to w
+                        d.AddDat(w, VDat+Attr[eid]);
+                        sigma.AddDat(w, 0);
+                        P.GetDat(w).Clr(false);
                     }
                     //shortest path to w via v ?
                     if (d.GetDat(w) == VDat+Attr[eid]) {
-- 
2.43.0


From 8802ed3787f9dcf6b858130ebc4be40fbc817722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 069/147] fix: GetMaxFlowIntPR loses the flow of parallel edges
 out of the source

---
 snap/snap-core/flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/flow.cpp b/snap/snap-core/flow.cpp
index 3c429b2..6ab12b2 100644
--- a/snap/snap-core/flow.cpp
+++ b/snap/snap-core/flow.cpp
@@ -398,7 +398,7 @@ int GetMaxFlowIntPR (PNEANet &Net, const int& SrcNId, const int& SnkNId) {
     if (OutNId != SrcNId) {
       int Capacity = PRM.Capacity(EId);
       PRM.Flow(EId) = Capacity;
-      PRM.Excess(OutNId) = Capacity;
+      PRM.Excess(OutNId) += Capacity;
     }
   }
   GlobalRelabel(Net, PRM, SrcNId, SnkNId);
-- 
2.43.0


From bc5e4df163b5ec216504aef9059649d585d9e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 070/147] fix: CommunityCNM merges on outdated modularity gains

---
 snap/snap-core/cmty.cpp | 2905 ++++++++++++++++++++-------------------
 1 file changed, 1454 insertions(+), 1451 deletions(-)

diff --git a/snap/snap-core/cmty.cpp b/snap/snap-core/cmty.cpp
index 8dbc9fc..d6a7937 100644
--- a/snap/snap-core/cmty.cpp
+++ b/snap/snap-core/cmty.cpp
@@ -1,1451 +1,1454 @@
-/////////////////////////////////////////////////
-// Community detection algorithms
-namespace TSnap {
-
-
-namespace TSnapDetail {
-
-// GIRVAN-NEWMAN algorithm
-//	1. The betweenness of all existing edges in the network is calculated first.
-//	2. The edge with the highest betweenness is removed.
-//	3. The betweenness of all edges affected by the removal is recalculated.
-//	4. Steps 2 and 3 are repeated until no edges remain.
-//  Girvan M. and Newman M. E. J., Community structure in social and biological networks, Proc. Natl. Acad. Sci. USA 99, 7821-7826 (2002)
-// Keep removing edges from Graph until one of the connected components of Graph splits into two.
-void CmtyGirvanNewmanStep(PUNGraph& Graph, TIntV& Cmty1, TIntV& Cmty2) {
-  TIntPrFltH BtwEH;
-  TBreathFS<PUNGraph> BFS(Graph);
-  Cmty1.Clr(false);  Cmty2.Clr(false);
-  while (true) {
-    TSnap::GetBetweennessCentr(Graph, BtwEH);
-    BtwEH.SortByDat(false);
-    if (BtwEH.Empty()) { return; }
-    const int NId1 = BtwEH.GetKey(0).Val1;
-    const int NId2 = BtwEH.GetKey(0).Val2;
-    Graph->DelEdge(NId1, NId2);
-    BFS.DoBfs(NId1, true, false, NId2, TInt::Mx);
-    if (BFS.GetHops(NId1, NId2) == -1) { // two components
-      TSnap::GetNodeWcc(Graph, NId1, Cmty1);
-      TSnap::GetNodeWcc(Graph, NId2, Cmty2);
-      return;
-    }
-  }
-}
-
-// Connected components of a graph define clusters
-// OutDegH and OrigEdges stores node degrees and number of edges in the original graph
-double _GirvanNewmanGetModularity(const PUNGraph& G, const TIntH& OutDegH, const int& OrigEdges, TCnComV& CnComV) {
-  TSnap::GetWccs(G, CnComV); // get communities
-  double Mod = 0;
-  for (int c = 0; c < CnComV.Len(); c++) {
-    const TIntV& NIdV = CnComV[c]();
-    double EIn = 0, EEIn = 0;
-    for (int i = 0; i < NIdV.Len(); i++) {
-      TUNGraph::TNodeI NI = G->GetNI(NIdV[i]);
-      EIn += NI.GetOutDeg();
-      EEIn += OutDegH.GetDat(NIdV[i]);
-    }
-    Mod += (EIn-EEIn*EEIn / (2.0*OrigEdges));
-  }
-  if (Mod == 0) { return 0; }
-  else { return Mod / (2.0*OrigEdges); }
-}
-
-void MapEquationNew2Modules(PUNGraph& Graph, TIntH& Module, TIntFltH& Qi, int a, int b) {
-  float InModule = 0.0, OutModule = 0.0, Val;
-  int Mds[2] = { a, b };
-  for (int i = 0; i<2; i++) {
-    InModule = 0.0, OutModule = 0.0;
-    if (Qi.IsKey(Mds[i])) {
-      int CentralModule = Mds[i];
-
-      //printf("central module: %i\n ",CentralModule);
-
-      TIntV newM;
-      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-        if (Module.GetDat(NI.GetId()) == CentralModule)
-          newM.Add(NI.GetId());
-        }
-
-      for (int j = 0; j<newM.Len(); j++) {
-        //int len1 = newM.Len();
-
-        //int c = CentralModule;
-        for (int k = 0; k<Graph->GetNI(newM[j]).GetDeg(); k++) {
-          //int len = Graph->GetNI(newM[j]).GetDeg();
-
-          int ids = Graph->GetNI(newM[j]).GetId();
-          int idd = Graph->GetNI(newM[j]).GetNbrNId(k);
-          int ms = Module.GetDat(ids);
-          int md = Module.GetDat(idd);
-          //int c = CentralModule;
-
-          if (ms == md) {
-            InModule += 1.0;
-            //printf("IN: \t%i - %i; moduls: %i - %i\n", ids, idd, ms, md);
-          } else {
-            OutModule += 1.0;
-            //printf("OUT: \t%i - %i; moduls: %i - %i\n", ids, idd, ms, md);
-          }
-        }
-      }
-      if (InModule >1) InModule = InModule / 2;
-
-      //printf("\n");
-
-      Val = 0.0;
-      if (InModule + OutModule > 0) {
-        Val = OutModule / (InModule + OutModule);
-      }
-      //int control = Mds[i];
-      Qi.AddDat(Mds[i], Val);
-    } else {
-      //int control = Mds[i];
-      Qi.AddDat(Mds[i], 0.0);
-    }
-  }
-}
-
-double Equation(TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi){
-  double SumPAlpha = 1.0, SumQi = 0.0, SumQiLogQi = 0.0;
-  double SumQiSumPAlphaLogQiSumPAlpha = 0.0, logqi = 0.0, qi = 0.0;
-  for (int i = 0; i<Qi.Len(); i++) {
-    SumQi += Qi[i];
-    qi = Qi[i];
-    if (qi != 0) {
-      logqi = log(qi);
-    } else {
-      logqi = 0;
-    }
-    SumQiLogQi += Qi[i] * logqi;
-    SumQiSumPAlphaLogQiSumPAlpha += (Qi[i] + SumPAlpha)*log(Qi[i] + SumPAlpha);
-  }
-  return (SumQi*log(SumQi) - 2 * SumQiLogQi - SumPAlphaLogPAlpha +
-          SumQiSumPAlphaLogQiSumPAlpha);
-}
-
-bool edgeIntersect(PNGraph& graph, TIntV& a, TIntV& b) {
-  for (int i = 0; i<a.Len(); i++) {
-    for (int j = 0; j<b.Len(); j++) {
-      if (graph->IsEdge(a[i], b[j]))
-        return true;
-    }
-  }
-
-  return false;
-}
-
-int vectorIntersect(TIntV& a, TIntV& b) {
-  int count = 0;
-  for (int i = 0; i<a.Len(); i++) {
-    for (int j = 0; j<b.Len(); j++) {
-      if (a[i] == b[j])
-        count++;
-    }
-  }
-
-  return count;
-}
-
-bool inComp(PNGraph& g1, PNGraph& Graph, TIntH& inCompCount, int id, int neigh) {
-  bool out = true;
-
-  int inCompN = 0;
-  int inComp = 0;
-
-  if (g1->IsNode(id) && g1->IsNode(neigh)) {
-    int deg = g1->GetNI(id).GetDeg();
-    int neighDeg = g1->GetNI(neigh).GetDeg();
-
-
-    if (inCompCount.IsKey(id)) {
-      inComp = inCompCount.GetDat(id);
-    }
-    if (inCompCount.IsKey(neigh)) {
-      inCompN = inCompCount.GetDat(neigh);
-    }
-
-    if (inCompN < neighDeg && inComp < deg && (!g1->IsNode(neigh) || Graph->GetNI(neigh).GetDeg() - neighDeg == 0)) {
-      inCompCount.AddDat(neigh, ++inCompN);
-      inCompCount.AddDat(id, ++inComp);
-      out = true;
-    } else {
-      out = false;
-    }
-  }
-  return out;
-}
-
-void transitiveTransform(TIntV& a, TIntV& b) {
-  for (int i = 0; i < a.Len(); i++) {
-    bool diff = false;
-    for (int j = 0; j < b.Len(); j++) {
-      if (a[i] == a[j]) {
-        diff = true;
-        break;
-      }
-    }
-    if (!diff) {
-      b.Add(a[i]);
-      break;
-    }
-  }
-}
-
-bool chekIfCrossing(TIntV& a, TIntH& t, int f, int l, int TP) {
-  bool after = false;
-  bool before = false;
-  for (int i = 0; i < a.Len(); i++) {
-    if (t.GetDat(a[i]) < TP)
-      before = true;
-    if (t.GetDat(a[i]) > TP)
-      after = true;
-  }
-
-  if (TP == f)
-    before = true;
-
-  if (TP == l)
-    after = true;
-
-  return (after && before);
-}
-
-double InfomapOnlineIncrement(PUNGraph& Graph, int n1, int n2, TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi, TIntH& Module, int& Br) {
-  // NOW NEW stuff add another additional iteration:
-
-  bool n1new = false;
-  bool n2new = false;
-
-  // add edge
-  if (!Graph->IsNode(n1)){
-    Graph->AddNode(n1);
-    n1new = true;
-  }
-
-  if (!Graph->IsNode(n2)) {
-    Graph->AddNode(n2);
-    n2new = true;
-  }
-
-  Graph->AddEdge(n1, n2);
-
-  int e = Graph->GetEdges();
-
-  // get previous alpha for 27 
-  double oldAlphaN1 = 0.0;
-  double oldAlphaN2 = 0.0;
-
-  if (!n1new)
-    oldAlphaN1 = PAlpha.GetDat(n1);
-
-  if (!n2new)
-    oldAlphaN2 = PAlpha.GetDat(n2);
-
-  // update alpha for 27
-  TUNGraph::TNodeI node = Graph->GetNI(n1);
-  int nodeDeg = node.GetDeg();
-  float d = ((float)nodeDeg / (float)(2 * e));
-  PAlpha.AddDat(n1, d);
-
-  //update alphasum
-  SumPAlphaLogPAlpha = SumPAlphaLogPAlpha - oldAlphaN1 + d*log(d);
-
-  if (n1new) {
-    Module.AddDat(n1, Br);
-    Qi.AddDat(Br, 1.0);
-    Br++;
-  }
-
-  // update alpha for 28
-  node = Graph->GetNI(n2);
-  nodeDeg = node.GetDeg();
-  d = ((float)nodeDeg / (float)(2 * e));
-  PAlpha.AddDat(n2, d);
-
-  //update alphasum
-  SumPAlphaLogPAlpha = SumPAlphaLogPAlpha - oldAlphaN2 + d*log(d);
-
-  //add module
-  if (n2new) {
-    Module.AddDat(n2, Br);
-    Qi.AddDat(Br, 1.0);
-    Br++;
-  }
-
-  // Start
-
-  double MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
-  double PrevIterationCodeLength = 0.0;
-
-  do {
-    PrevIterationCodeLength = MinCodeLength;
-    int id[2] = { n1, n2 };
-    for (int k = 0; k<2; k++) {
-      for (int i = 0; i<Graph->GetNI(id[k]).GetDeg(); i++) {
-
-        int OldModule = Module.GetDat(id[k]);
-        int NewModule = Module.GetDat(Graph->GetNI(id[k]).GetNbrNId(i));
-
-        Module.AddDat(id[k], NewModule);
-
-        TSnapDetail::MapEquationNew2Modules(Graph, Module, Qi, OldModule, NewModule);
-        double NewCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
-        if (NewCodeLength<MinCodeLength) {
-          MinCodeLength = NewCodeLength;
-          OldModule = NewModule;
-        }
-        else {
-          Module.AddDat(id[k], OldModule);
-        }
-      }
-    }
-  } while (MinCodeLength<PrevIterationCodeLength);
-
-  return MinCodeLength;
-}
-
-} // namespace TSnapDetail
-
-// Maximum modularity clustering by Girvan-Newman algorithm (slow)
-//  Girvan M. and Newman M. E. J., Community structure in social and biological networks, Proc. Natl. Acad. Sci. USA 99, 7821-7826 (2002)
-double CommunityGirvanNewman(PUNGraph& Graph, TCnComV& CmtyV) {
-  TIntH OutDegH;
-  const int NEdges = Graph->GetEdges();
-  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    OutDegH.AddDat(NI.GetId(), NI.GetOutDeg());
-  }
-  double BestQ = -1; // modularity
-  TCnComV CurCmtyV;
-  CmtyV.Clr();
-  TIntV Cmty1, Cmty2;
-  while (true) {
-    TSnapDetail::CmtyGirvanNewmanStep(Graph, Cmty1, Cmty2);
-    const double Q = TSnapDetail::_GirvanNewmanGetModularity(Graph, OutDegH, NEdges, CurCmtyV);
-    //printf("current modularity: %f\n", Q);
-    if (Q > BestQ) {
-      BestQ = Q; 
-      CmtyV.Swap(CurCmtyV);
-    }
-    if (Cmty1.Len() == 0 || Cmty2.Len() == 0) { break; }
-  }
-  return BestQ;
-}
-
-// Rosvall-Bergstrom community detection algorithm based on information theoretic approach.
-// See: Rosvall M., Bergstrom C. T., Maps of random walks on complex networks reveal community structure, Proc. Natl. Acad. Sci. USA 105, 1118-1123 (2008)
-double Infomap(PUNGraph& Graph, TCnComV& CmtyV){
-
-  TIntFltH PAlpha; // probability of visiting node alpha
-  TIntH Module; // module of each node
-  TIntFltH Qi; // probability of leaving each module
-
-  double SumPAlphaLogPAlpha = 0.0;
-  int Br = 0;
-  const int e = Graph->GetEdges();
-
-  // initial values
-  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-    int nodeId = NI.GetId();
-    int nodeDeg = NI.GetDeg();
-    float d = ((float)nodeDeg / (float)(2 * e));
-    PAlpha.AddDat(nodeId, d);
-    SumPAlphaLogPAlpha += d*log(d);
-    Module.AddDat(nodeId, Br);
-    Qi.AddDat(Br, 1.0);
-    Br += 1;
-  }
-
-  double MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
-  double NewCodeLength, PrevIterationCodeLength = 0.0;
-  int OldModule, NewModule;
-
-  TIntV nodes;
-  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)
-    nodes.Add(NI.GetId());
-
-  do {
-    PrevIterationCodeLength = MinCodeLength;
-    TRnd rnd;
-    rnd.Randomize();
-    nodes.Shuffle(rnd);
-    for (int ndcounter = 0; ndcounter<nodes.Len(); ndcounter++) {
-      MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
-      int nodeId = nodes[ndcounter];
-      TUNGraph::TNodeI NI = Graph->GetNI(nodeId);
-      for (int i = 0; i<NI.GetDeg(); i++) {
-
-        OldModule = Module.GetDat(nodeId);
-        NewModule = Module.GetDat(NI.GetNbrNId(i));
-
-        if (OldModule != NewModule){
-
-          Module.AddDat(nodeId, NewModule);
-
-          TSnapDetail::MapEquationNew2Modules(Graph, Module, Qi, OldModule, NewModule);
-          NewCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
-          if (NewCodeLength<MinCodeLength) {
-            MinCodeLength = NewCodeLength;
-            OldModule = NewModule;
-          }
-          else {
-            Module.AddDat(nodeId, OldModule);
-          }
-        }
-      }
-    }
-  } while (MinCodeLength<PrevIterationCodeLength);
-
-  Module.SortByDat(true);
-
-  int Mod = -1;
-  for (int i = 0; i<Module.Len(); i++) {
-    if (Module[i]>Mod){
-      Mod = Module[i];
-      TCnCom t;
-      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-        if (Module.GetDat(NI.GetId()) == Mod)
-          t.Add(NI.GetId());
-      }
-      CmtyV.Add(t);
-    }
-  }
-
-  return MinCodeLength;
-}
-
-double InfomapOnline(PUNGraph& Graph, int n1, int n2, TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi, TIntH& Module, int& Br, TCnComV& CmtyV) {
-
-  double MinCodeLength = TSnapDetail::InfomapOnlineIncrement(Graph, n1, n2, PAlpha, SumPAlphaLogPAlpha, Qi, Module, Br);
-
-  Module.SortByDat(true);
-
-  int Mod = -1;
-  for (int i = 0; i<Module.Len(); i++) {
-    if (Module[i]>Mod){
-      Mod = Module[i];
-      TCnCom t;
-      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
-        if (Module.GetDat(NI.GetId()) == Mod)
-          t.Add(NI.GetId());
-      }
-      CmtyV.Add(t);
-    }
-  }
-
-  return MinCodeLength;
-}
-
-void CmtyEvolutionFileBatchV(TStr InFNm, TIntIntVH& sizesContV, TIntIntVH& cContV, TIntIntVH& edges, double alpha, double beta, int CmtyAlg) {
-  TIntIntHH sizesCont;
-  TIntIntHH cCont;
-  CmtyEvolutionFileBatch(InFNm, sizesCont, cCont, edges, alpha, beta, CmtyAlg);
-
-  TIntV uniqueId;
-  for (int i = 0; i < cCont.Len(); i++){
-    for (THashKeyDatI<TInt, TInt> it = cCont[i].BegI(); !it.IsEnd(); it++){
-      if (!uniqueId.IsIn(it.GetKey()))
-        uniqueId.Add(it.GetKey());
-    }
-  }
-
-  for (int j = 0; j<uniqueId.Len(); j++)
-  {
-    TIntV cV;
-    for (int i = 0; i<cCont.Len(); i++)
-    {
-      if (cCont[i].IsKey(uniqueId[j]))
-        cV.Add(cCont[i].GetDat(uniqueId[j]));
-      else
-        cV.Add(-1);
-    }
-    cContV.AddDat(uniqueId[j], cV);
-  }
-
-  TIntV uniqueC;
-  for (int i = 0; i < sizesCont.Len(); i++){
-    for (THashKeyDatI<TInt, TInt> it = sizesCont[i].BegI(); !it.IsEnd(); it++){
-      if (!uniqueC.IsIn(it.GetKey()))
-        uniqueC.Add(it.GetKey());
-    }
-  }
-
-  for (int j = 0; j<uniqueC.Len(); j++)
-  {
-    TIntV cV;
-    for (int i = 0; i<sizesCont.Len(); i++)
-    {
-      if (sizesCont[i].IsKey(uniqueC[j]))
-        cV.Add(sizesCont[i].GetDat(uniqueC[j]));
-      else
-        cV.Add(0);
-    }
-    sizesContV.AddDat(uniqueC[j], cV);
-  }
-
-}
-
-void CmtyEvolutionFileBatch(TStr InFNm, TIntIntHH& sizesCont, TIntIntHH& cCont, TIntIntVH& edges, double alpha, double beta, int CmtyAlg) {
-
-
-  // reading folder with networks and calculating core/periphery
-  int br = 0;
-  TIntIntH prev;
-  TIntH prev_sizes;
-
-  TSsParser Ss(InFNm, ssfWhiteSep, true, false, true);
-  Ss.Next();
-  //int internal_year_counter = 0;
-  // variable for delimiter between networks
-  TStr Marker;
-  // defining variables for node ids and starting year
-  int SrcNId, DstNId; // , t = 1970;
-
-  // temporal container for edges
-  TIntIntVH edges_;
-
-  while (!Ss.Eof()) {
-
-    //printf("%i\n", t);
-    Marker = Ss.GetLnStr();
-    // get the year from the network seperator
-    //t = Marker.GetSubStr(1, 4).GetInt();
-
-    if (Marker.GetCh(0) == '#'){
-
-      Ss.Next();
-      PUNGraph Graph = PUNGraph::TObj::New();
-      do{
-        if (!Ss.GetInt(0, SrcNId) || !Ss.GetInt(1, DstNId)) {
-          if (!Ss.Eof()){
-            Ss.Next();
-            if (!Ss.Eof())
-              Marker = Ss.GetLnStr();
-          }
-          continue;
-        }
-        if (!Graph->IsNode(SrcNId)) { Graph->AddNode(SrcNId); }
-        if (!Graph->IsNode(DstNId)) { Graph->AddNode(DstNId); }
-        Graph->AddEdge(SrcNId, DstNId);
-        Ss.Next();
-        if (!Ss.Eof())
-          Marker = Ss.GetLnStr();
-      } while (Marker.GetCh(0) != '#' && !Ss.Eof());
-
-
-      if (Graph->GetNodes()>0) {
-        // WORK
-
-        TSnap::DelSelfEdges(Graph);
-        TCnComV CmtyV;
-        //double Q = 0.0;
-        TStr CmtyAlgStr;
-        if (CmtyAlg == 1) {
-          CmtyAlgStr = "Girvan-Newman";
-          //Q = TSnap::CommunityGirvanNewman(Graph, CmtyV);
-        }
-        else if (CmtyAlg == 2) {
-          CmtyAlgStr = "Clauset-Newman-Moore";
-          //Q = TSnap::CommunityCNM(Graph, CmtyV);
-        }
-        else if (CmtyAlg == 3) {
-          CmtyAlgStr = "Infomap";
-          //Q = TSnap::Infomap(Graph, CmtyV);
-        }
-        else { Fail; }
-
-        TIntIntHH distCont;
-
-        if (br == 0) {
-          prev.Clr();
-          //int size = 0;
-          for (int c = 0; c < CmtyV.Len(); c++) {
-            for (int i = 0; i < CmtyV[c].Len(); i++){
-              prev.AddDat(CmtyV[c][i].Val, c);
-            }
-            //int s = CmtyV[c].Len();
-            prev_sizes.AddDat(c, CmtyV[c].Len());
-          }
-        }
-        else {
-
-          // containers for statistics
-
-          //TIntFltHH stat1;
-          //TIntIntHH stat2;
-          TIntH dist;
-          TIntH map;
-
-          int first_new_c_id = -1;
-
-          // getting first free id for a new community
-          for (THashKeyDatI<TInt, TInt> it = prev_sizes.BegI(); !it.IsEnd(); it++)
-            if (it.GetKey() > first_new_c_id)
-              first_new_c_id = it.GetKey();
-          if (CmtyV.Len() - 1>first_new_c_id)
-            first_new_c_id = CmtyV.Len() - 1;
-          first_new_c_id++;
-
-          for (int c = 0; c < CmtyV.Len(); c++) {
-
-            TIntV stat;
-            TIntFltH statH1;
-            TIntFltH statH2;
-
-            // initialize distributions to 0
-            for (THashKeyDatI<TInt, TInt> it = prev_sizes.BegI(); !it.IsEnd(); it++)
-              dist.AddDat(it.GetKey(), 0);
-            //for new nodes
-            dist.AddDat(-1, 0);
-
-            for (int i = 0; i < CmtyV[c].Len(); i++) {
-              int id = CmtyV[c][i].Val;
-              int prev_comm = -1;
-              if (prev.IsKey(id))
-                prev_comm = prev.GetDat(CmtyV[c][i].Val);
-              stat.Add(prev_comm);
-              int pre_val = dist.GetDat(prev_comm);
-              dist.AddDat(prev_comm, pre_val + 1);
-            }
-
-            double sumstat2 = 0;
-            for (THashKeyDatI<TInt, TInt> it = dist.BegI(); !it.IsEnd(); it++) {
-
-              int k = it.GetKey();
-              int d = it.GetDat();
-              if (d > 0){
-                if (prev_sizes.IsKey(it.GetKey())){
-
-                  double stat1_ = (double)d / (double)prev_sizes.GetDat(k);
-                  statH1.AddDat(k, stat1_);
-                }
-                double stat2_ = (double)d / (double)CmtyV[c].Len();
-                statH2.AddDat(k, stat2_);
-                sumstat2 += stat2_;
-
-                TIntV edge;
-                edge.Add(k);
-                edge.Add(c);
-                edge.Add(d);
-                edge.Add(br - 1);
-                edge.Add(br);
-                edges_.AddDat(edges_.Len() + 1, edge);
-              }
-
-              // adding edges between two communities in two neighbouring time points;
-
-
-              if (sumstat2 > 0.98) break;
-            }
-
-            int n_of_c_greater_than_half = 0;
-            int id_of_c_greater_than_half = -1;
-            TIntV ids_of_c_greater_than_half;
-
-            for (THashKeyDatI<TInt, TFlt> it = statH1.BegI(); !it.IsEnd(); it++){
-              if (it.GetDat()>alpha){
-                id_of_c_greater_than_half = it.GetKey();
-                ids_of_c_greater_than_half.Add(it.GetKey());
-                n_of_c_greater_than_half++;
-              }
-            }
-
-            // if this community is build of majority of one previous community and the other parts of the community are fractions of other communities smaller than half, the new community gets its label 
-            if (n_of_c_greater_than_half == 1){
-              map.AddDat(c, id_of_c_greater_than_half);
-            }
-            else{
-              int h2part_id = -2;
-              for (int i = 0; i<ids_of_c_greater_than_half.Len(); i++){
-                double H2 = statH2.GetDat(ids_of_c_greater_than_half[i]);
-                if (H2>beta){
-                  h2part_id = ids_of_c_greater_than_half[i];
-                }
-              }
-              if (h2part_id != -2)
-                map.AddDat(c, h2part_id);
-              else{
-                map.AddDat(c, first_new_c_id);
-                first_new_c_id++;
-              }
-            }
-
-            distCont.AddDat(c, dist);
-
-            //stat1.AddDat(c,statH1);
-            //stat2.AddDat(c,statH2);
-
-          }
-
-
-          prev.Clr();
-          prev_sizes.Clr();
-          for (int c = 0; c < CmtyV.Len(); c++){
-            for (int i = 0; i < CmtyV[c].Len(); i++){
-              prev.AddDat(CmtyV[c][i].Val, map.GetDat(c));
-            }
-            //int s = CmtyV[c].Len();
-            prev_sizes.AddDat(map.GetDat(c), CmtyV[c].Len());
-          }
-
-          // filing the edges container - the key thing is the map(c)
-          for (THashKeyDatI<TInt, TIntV> it = edges_.BegI(); !it.IsEnd(); it++){
-            TIntV edgesV;
-            int a = it.GetDat()[0];
-            int b = it.GetDat()[1];
-            int v = it.GetDat()[2];
-            int d = it.GetDat()[3];
-            int e = it.GetDat()[4];
-            edgesV.Add(map.GetDat(b));
-            edgesV.Add(a);
-            edgesV.Add(v);
-            edgesV.Add(d);
-            edgesV.Add(e);
-            if (a != -1)
-              edges.AddDat(edges.Len(), edgesV);
-          }
-          edges_.Clr();
-
-
-        }
-
-        sizesCont.AddDat(br, prev_sizes);
-        cCont.AddDat(br, prev);
-        br++;
-        // WORK - END
-      }
-    }
-    else Ss.Next();
-  }
-
-}
-
-void CmtyEvolutionJson(TStr& Json, TIntIntVH& sizesContV, TIntIntVH& cContV, TIntIntVH& edges){
-  ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  // This function creates a JSON string with communities and edges for community evolution visualization using D3.js
-  ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-
-  // writing json label for edges
-  Json.InsStr(Json.Len(), "{\n\"edges\":[\n");
-
-  TInt br = 0;
-  // iterating hash of vector of edges and writing into string 
-  for (THashKeyDatI<TInt, TIntV> it = edges.BegI(); !it.IsEnd(); it++)
-  {
-    // first node
-    TInt n1 = it.GetDat()[1];
-    // second node
-    TInt n2 = it.GetDat()[0];
-    // edge weight
-    TInt w = it.GetDat()[2];
-    // start time point
-    TInt t0 = it.GetDat()[3];
-    // end time point
-    TInt t1 = it.GetDat()[4];
-
-    if (br>0)
-      Json.InsStr(Json.Len(), ",");
-
-    // writing to string
-    Json.InsStr(Json.Len(), "{\"n1\":"); Json.InsStr(Json.Len(), n1.GetStr());
-    Json.InsStr(Json.Len(), ", \"n2\":"); Json.InsStr(Json.Len(), n2.GetStr());
-    Json.InsStr(Json.Len(), ", \"w\":"); Json.InsStr(Json.Len(), w.GetStr());
-    Json.InsStr(Json.Len(), ", \"t0\":"); Json.InsStr(Json.Len(), t0.GetStr());
-    Json.InsStr(Json.Len(), ", \"t1\":"); Json.InsStr(Json.Len(), t1.GetStr());
-    Json.InsStr(Json.Len(), " }\n");
-    br++;
-  }
-
-  // json label for communities
-  Json.InsStr(Json.Len(), "],\n\"communities\":[\n");
-
-  br = 0;
-  // printing communities into json file 
-  for (int i = 0; i < sizesContV[0].Len(); i++)
-  {
-    for (THashKeyDatI<TInt, TIntV> it = sizesContV.BegI(); !it.IsEnd(); it++)
-    {
-      // id of community
-      TInt id = it.GetKey();
-      // community size
-      TInt size = it.GetDat()[i];
-      // time
-      TInt j = i;
-
-      // if the community has size greater than 0, output it to json string
-      if (size > 0) {
-        if (br>0)
-          Json.InsStr(Json.Len(), ",");
-
-        TInt size = it.GetDat()[i];
-        Json.InsStr(Json.Len(), "{\"id\":"); Json.InsStr(Json.Len(), id.GetStr());
-        Json.InsStr(Json.Len(), ", \"size\":"); Json.InsStr(Json.Len(), size.GetStr());
-        Json.InsStr(Json.Len(), ", \"t\":"); Json.InsStr(Json.Len(), j.GetStr());
-        Json.InsStr(Json.Len(), " }\n");
-
-        br++;
-      }
-    }
-  }
-
-  // printing communities into json file - alternative ordering
-  /*
-  for (THashKeyDatI<TInt, TIntV> it = sizesContV.BegI();  !it.IsEnd(); it++)
-  {
-  TInt id = it.GetKey();
-  int len = it.GetDat().Len();
-  for (int i=0; i < it.GetDat().Len(); i++)
-  {
-  TInt size = it.GetDat()[i];
-  TInt j = i;
-  if (size > 0) {
-
-  if(br>0)
-  Json.InsStr(Json.Len(),",");
-
-  TInt size = it.GetDat()[i];
-
-  Json.InsStr(Json.Len(),"{\"id\":"); Json.InsStr(Json.Len(),id.GetStr());
-  Json.InsStr(Json.Len(),", \"size\":"); Json.InsStr(Json.Len(),size.GetStr());
-  Json.InsStr(Json.Len(),", \"t\":"); Json.InsStr(Json.Len(),j.GetStr());
-  Json.InsStr(Json.Len()," }\n");
-
-  br++;
-
-  }
-
-  }
-  }
-  */
-
-  Json.InsStr(Json.Len(), "]\n}");
-
-}
-
-TStr CmtyTest(TStr InFNm, int CmtyAlg){
-
-  TIntIntVH sizesContV;
-  TIntIntVH cContV;
-  TIntIntVH edges;
-  double alpha = 0.5;
-  double beta = 0.75;
-  CmtyEvolutionFileBatchV(InFNm, sizesContV, cContV, edges, alpha, beta, CmtyAlg);
-  TStr out;
-  //int a = sizesContV.Len();
-  //int b = cContV.Len();
-  //int c = edges.Len();
-  CmtyEvolutionJson(out, sizesContV, cContV, edges);
-
-  return out;
-}
-
-void ReebSimplify(PNGraph& Graph, TIntH& t, int e, PNGraph& gFinal, TIntH& tFinal, bool collapse) {
-  TIntIntVH components;
-  TIntIntVH ct;
-
-  int newId = 0; //get first new free id;
-
-  // gett first and last t
-  int first = 429496729;
-  int last = -1;
-
-  // smarter way of determining focus time points
-  TIntV timePoints;
-
-  // get first and last time point
-  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-    if (it.GetDat()<first)
-      first = it.GetDat();
-    if (it.GetDat()>last)
-      last = it.GetDat();
-  }
-
-  // adding focus timepoints
-  // this can be put in the previous (first, last time point detection) iteration if breaking borders is not an issue
-  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-    if (it.GetDat() - (e / 2) >= first)
-      timePoints.Add(it.GetDat() - (e / 2) /*- 0.1*/);
-    timePoints.Add(it.GetDat());
-    if (it.GetDat() + (e / 2) <= last)
-      timePoints.Add(it.GetDat() + (e / 2) /*+ 0.1*/);
-  }
-  
-
-  //iterate each time point
-  for (int i = 0; i<timePoints.Len(); i++) {
-
-    int focusTimePoint = timePoints[i];
-
-    TIntV fnodes; // all the nodes int the focus in that step
-
-    // getting nodes in focus -- in epsilon
-    for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-      if ((it.GetDat() <= focusTimePoint + (e / 2)) && (it.GetDat() >= focusTimePoint - (e / 2)))
-        fnodes.Add(it.GetKey());
-    }
-
-    // create graph from nodes in focus
-    PNGraph g1 = TNGraph::New();
-    for (int i = 0; i<fnodes.Len(); i++) {
-      if (!g1->IsNode(fnodes[i]))
-        g1->AddNode(fnodes[i]);
-      // lower star
-      for (int j = 0; j<Graph->GetNI(fnodes[i]).GetInDeg(); j++) {
-        int NeighId = Graph->GetNI(fnodes[i]).GetInNId(j);
-        if (t.GetDat(NeighId)<focusTimePoint - (e / 2)) {
-
-        }
-        else {
-          if (!g1->IsNode(NeighId))
-            g1->AddNode(NeighId);
-          g1->AddEdge(NeighId, fnodes[i]);
-        }
-      }
-      // upper star
-      for (int j = 0; j<Graph->GetNI(fnodes[i]).GetOutDeg(); j++) {
-        int NeighId = Graph->GetNI(fnodes[i]).GetOutNId(j);
-        if (t.GetDat(NeighId)>focusTimePoint + (e / 2)) {
-
-        }
-        else {
-          if (!g1->IsNode(NeighId))
-            g1->AddNode(NeighId);
-          g1->AddEdge(fnodes[i], NeighId);
-        }
-      }
-    }
-
-    // getting results from commponents detection and recording elements of components and timestamps of components
-    TCnComV CnComV;
-    GetWccs(g1, CnComV);
-    TIntV communitiesAtT;
-    for (int cc = 0; cc < CnComV.Len(); cc++) {
-      components.AddDat(newId, CnComV[cc].NIdV);
-      communitiesAtT.Add(newId);
-      newId++;
-    }
-    if (CnComV.Len() > 0)
-      ct.AddDat(focusTimePoint, communitiesAtT);
-  } // end iterate each node
-
-  // connecting neighbouring components
-  THashKeyDatI<TInt, TIntV> it = ct.BegI();
-  THashKeyDatI<TInt, TIntV> prelast = ct.EndI()--;
-  prelast--;
-  while (it < prelast) {
-    TIntV cms0;
-    TIntV cms1;
-    int focusTimePoint;
-    int focusTimePoint1;
-    focusTimePoint = it.GetKey();
-    cms0 = it.GetDat();
-    it++;
-    focusTimePoint1 = it.GetKey();
-    cms1 = it.GetDat();
-    if (cms0.Len()>0 && cms1.Len() > 0) {
-      for (int i = 0; i < cms0.Len(); i++) {
-        for (int j = 0; j < cms1.Len(); j++) {
-          TIntV ids0 = components.GetDat(cms0[i]);
-          TIntV ids1 = components.GetDat(cms1[j]);
-          if (ids0.IntrsLen(ids1) > 0 || TSnapDetail::edgeIntersect(Graph, ids0, ids1)) {
-            if (!gFinal->IsNode(cms0[i])) {
-              gFinal->AddNode(cms0[i]);
-              tFinal.AddDat(cms0[i], focusTimePoint);
-            }
-            if (!gFinal->IsNode(cms1[j])) {
-              gFinal->AddNode(cms1[j]);
-              tFinal.AddDat(cms1[j], focusTimePoint1);
-            }
-            gFinal->AddEdge(cms0[i], cms1[j]);
-          }
-        }
-      }
-    }
-  }// end connecting components 
-
-  // collapsing chains
-  if (collapse) {
-    for (TNGraph::TNodeI NI = gFinal->BegNI(); NI < gFinal->EndNI(); NI++) {
-      if (NI.GetInDeg() == 1 && NI.GetOutDeg() == 1)
-        if (gFinal->GetNI(NI.GetInNId(0)).GetOutDeg() == 1 && gFinal->GetNI(NI.GetOutNId(0)).GetInDeg() == 1)
-        {
-        gFinal->AddEdge(NI.GetInNId(0), NI.GetOutNId(0));
-        gFinal->DelEdge(NI.GetInNId(0), NI.GetId());
-        tFinal.DelKey(NI.GetId());
-        gFinal->DelNode(NI.GetId());
-        }
-    }
-  }// end collapsing
-
-}
-
-void ReebRefine(PNGraph& Graph, TIntH& t, int e, PNGraph& gFinal, TIntH& tFinal, bool collapse) {
-  TIntIntVH components;
-  TIntIntVH ct;
-
-  int newId = 0; //get first new free id;
-
-  // gett first and last t
-  int first = 429496729;
-  int last = -1;
-
-  // smarter way of determining focus time points
-  TIntV timePoints;
-
-  // get first and last time point
-  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-    if (it.GetDat() < first)
-      first = it.GetDat();
-    if (it.GetDat() > last)
-      last = it.GetDat();
-  }
-
-  // adding focus timepoints
-  // this can be put in the previous (first, last time point detection) iteration if breaking borders is not an issue
-  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-    if (it.GetDat() - (e / 2) >= first)
-      timePoints.Add(it.GetDat() - (e / 2) /*- 0.1*/);
-    timePoints.Add(it.GetDat());
-    if (it.GetDat() + (e / 2) <= last)
-      timePoints.Add(it.GetDat() + (e / 2) /*+ 0.1*/);
-  }
-
-  TIntV timePointsUnique;
-  int prevtp = -1;
-  //get unique time points
-  for (int i = 0; i < timePoints.Len(); i++){
-    if (timePoints[i] > prevtp)
-      timePointsUnique.Add(timePoints[i]);
-    prevtp = timePoints[i];
-  }
-
-  timePoints.Clr();
-  timePoints = timePointsUnique;
-
-  //iterate each time point
-  for (int i = 0; i < timePoints.Len(); i++) {
-
-    int focusTimePoint = timePoints[i];
-
-    TIntV fnodes; // all the nodes int the focus in that step
-
-    // getting nodes in focus -- in epsilon
-    for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
-      if ((it.GetDat() <= focusTimePoint + (e / 2)) && (it.GetDat() >= focusTimePoint - (e / 2)))
-        fnodes.Add(it.GetKey());
-    }
-
-    // create graph from nodes in focus
-    PNGraph g1 = TNGraph::New();
-    for (int i = 0; i < fnodes.Len(); i++) {
-      if (!g1->IsNode(fnodes[i]))
-        g1->AddNode(fnodes[i]);
-      // lower star
-      for (int j = 0; j < Graph->GetNI(fnodes[i]).GetInDeg(); j++) {
-        int NeighId = Graph->GetNI(fnodes[i]).GetInNId(j);
-        if (t.GetDat(NeighId) < focusTimePoint - (e / 2)) {
-
-        }
-        else {
-          if (!g1->IsNode(NeighId))
-            g1->AddNode(NeighId);
-          g1->AddEdge(NeighId, fnodes[i]);
-        }
-      }
-      // upper star
-      for (int j = 0; j < Graph->GetNI(fnodes[i]).GetOutDeg(); j++) {
-        int NeighId = Graph->GetNI(fnodes[i]).GetOutNId(j);
-        if (t.GetDat(NeighId) > focusTimePoint + (e / 2)) {
-
-        }
-        else {
-          if (!g1->IsNode(NeighId))
-            g1->AddNode(NeighId);
-          g1->AddEdge(fnodes[i], NeighId);
-        }
-      }
-    }
-
-    // getting results from commponents detection and recording elements of components and timestamps of components
-    TIntH inCompCount;
-    TIntIntVH comps;
-    int compBr = 0;
-    TIntH nn_nodes;
-
-    int FTP = focusTimePoint;
-    TIntH TEdges;
-
-    for (TNGraph::TNodeI NI = g1->BegNI(); NI < g1->EndNI(); NI++) {
-
-      
-      int FTPNode = NI.GetId();
-      TNGraph::TNodeI GNI = Graph->GetNI(FTPNode);
-      int FI, FO, RI, RO, I, O;
-
-      RI = NI.GetInDeg();
-      RO = NI.GetOutDeg();
-
-      FI = Graph->GetNI(FTPNode).GetInDeg() - RI;
-      FO = Graph->GetNI(FTPNode).GetOutDeg() - RO;
-
-      if (focusTimePoint + (e / 2) == t.GetDat(NI.GetId())) { // if its on the right edge only in degree is observed
-        RO = FO = 0;
-      }
-      if (focusTimePoint - (e / 2) == t.GetDat(NI.GetId())) { // if its on the left edge only out degree is observed
-        RI = FI = 0;
-      }
-
-      I = RI + FI;
-      O = RO + FO;
-
-      // counting edges imidiately after time point
-      int temp = 0;
-      if (TEdges.IsKey(FTP))
-        temp = TEdges.GetDat(FTP);
-      TEdges.AddDat(FTP, O + temp);
-
-      // FIND ELEMENTS
-
-      // n - n,
-      if (I > 1 && O > 1) {
-        // number of nodes is in our out degree
-        int nn = I;
-        if (O > I)
-          nn = O;
-
-        TIntV nds;
-        nds.Add(FTPNode);
-        for (int i = 0; i < I; i++) {
-          nds.Add(GNI.GetInNId(i));
-        }
-
-        for (int i = 0; i < O; i++) {
-          nds.Add(GNI.GetOutNId(i));
-        }
-
-        for (int j = 0; j < nn; j++) {
-          nn_nodes.AddDat(compBr);
-          comps.AddDat(compBr, nds);
-          compBr++;
-        }
-      }
-      
-      // 1 - n
-      else if (I == 1 && O > 1) {
-        for (int i = 0; i < O; i++) {
-          TIntV nds;
-          nds.Add(FTPNode);
-          nds.Add(GNI.GetInNId(0));
-          nds.Add(GNI.GetOutNId(i));
-          comps.AddDat(compBr, nds);
-          compBr++;
-        }
-      }
-
-      // n - 1
-      else if (I > 1 && O == 1) {
-        for (int i = 0; i < I; i++) {
-          TIntV nds;
-          nds.Add(FTPNode);
-          nds.Add(GNI.GetOutNId(0));
-          nds.Add(GNI.GetInNId(i));
-          comps.AddDat(compBr, nds);
-          compBr++;
-        }
-      }
-
-      // 0 - n
-      else if (I == 0 && O > 1) {
-        for (int i = 0; i < O; i++) {
-          TIntV nds;
-          nds.Add(FTPNode);
-          nds.Add(GNI.GetOutNId(i));
-          comps.AddDat(compBr, nds);
-          compBr++;
-        }
-      }
-
-      // n - 0
-      else if (I > 1 && O == 0) {
-        for (int i = 0; i < I; i++) {
-          TIntV nds;
-          nds.Add(FTPNode);
-          nds.Add(GNI.GetInNId(i));
-          comps.AddDat(compBr, nds);
-          compBr++;
-        }
-      }
-
-      // 1 - 1
-      else if (I == 1 && O == 1) {
-        TIntV nds;
-        nds.Add(FTPNode);
-        nds.Add(GNI.GetOutNId(0));
-        nds.Add(GNI.GetInNId(0));
-        comps.AddDat(compBr, nds);
-        compBr++;
-      }
-
-      // 0 - 1
-      else if (I == 0 && O == 1) {
-        TIntV nds;
-        nds.Add(FTPNode);
-        nds.Add(GNI.GetOutNId(0));
-        comps.AddDat(compBr, nds);
-        compBr++;
-      }
-
-      // 1 - 0
-      else if (I == 1 && O == 0) {
-        TIntV nds;
-        nds.Add(FTPNode);
-        nds.Add(GNI.GetInNId(0));
-        comps.AddDat(compBr, nds);
-        compBr++;
-      }
-
-      
-
-    } // end iterate each node
-
-    // connecting inside of epsilon
-
-    TIntIntVH elements;
-    TIntH banned;
-    for (int cc0 = 0; cc0 < comps.Len(); cc0++) {
-      for (int cc1 = cc0; cc1 < comps.Len(); cc1++) {
-        int smaller = comps[cc0].Len();
-        int smaller_id = cc0;
-        if (cc0 != cc1) {
-          if (comps[cc1].Len() < smaller) {
-            smaller = comps[cc1].Len();
-            smaller_id = cc1;
-          }
-          int vi = TSnapDetail::vectorIntersect(comps[cc0], comps[cc1]);
-          if (vi == smaller && !nn_nodes.IsKey(smaller_id)){
-            banned.AddDat(smaller_id);
-          }
-          /*else if (smaller > 2 && vi == smaller - 1 && !nn_nodes.IsKey(smaller_id)) {
-            TSnapDetail::transitiveTransform(comps[cc0], comps[cc1]);
-            banned.AddDat(cc0);
-          }*/
-        }
-      }
-    }
-
-    // add transitivity connection
-
-    /*
-    int max_out_tp = -1;
-    int max_out = -1;
-    for (THashKeyDatI<TInt, TInt> it = TEdges.BegI(); !it.IsEnd(); it++) {
-      if (it.GetDat() > max_out) {
-        max_out = it.GetDat();
-        max_out_tp = it.GetKey();
-      }
-    }
-    */
-    for (int cc0 = 0; cc0 < comps.Len(); cc0++) {
-      if (!banned.IsKey(cc0) /*&& TSnapDetail::chekIfCrossing(comps[cc0], t, first, last, max_out_tp)*/)
-        elements.AddDat(cc0, comps[cc0]);
-    }
-    
-
-    TIntV communitiesAtT;
-    for (int cc = 0; cc < elements.Len(); cc++) {
-      components.AddDat(newId, elements[cc]);
-    communitiesAtT.Add(newId);
-    newId++;
-    }
-    if (elements.Len() > 0)
-      ct.AddDat(focusTimePoint, communitiesAtT);
-    
-  } // FOR
-
-  // connecting neighbouring components
-  THashKeyDatI<TInt, TIntV> it = ct.BegI();
-  THashKeyDatI<TInt, TIntV> prelast = ct.EndI()--;
-  prelast--;
-  while (it < prelast) {
-    TIntV cms0;
-    TIntV cms1;
-    int focusTimePoint;
-    int focusTimePoint1;
-    focusTimePoint = it.GetKey();
-    cms0 = it.GetDat();
-    it++;
-    focusTimePoint1 = it.GetKey();
-    cms1 = it.GetDat();
-    if (cms0.Len() > 0 && cms1.Len() > 0) {
-      for (int i = 0; i < cms0.Len(); i++) {
-        for (int j = 0; j < cms1.Len(); j++) {
-          TIntV ids0 = components.GetDat(cms0[i]);
-          TIntV ids1 = components.GetDat(cms1[j]);
-          int smaller = ids0.Len();
-          if (ids1.Len() < smaller)
-            smaller = ids1.Len();
-
-          if (TSnapDetail::vectorIntersect(ids0, ids1) == smaller || (smaller > 2 && TSnapDetail::vectorIntersect(ids0, ids1) == (smaller -1 ))) {
-            if (!gFinal->IsNode(cms0[i])) {
-              gFinal->AddNode(cms0[i]);
-              tFinal.AddDat(cms0[i], focusTimePoint);
-            }
-            if (!gFinal->IsNode(cms1[j])) {
-              gFinal->AddNode(cms1[j]);
-              tFinal.AddDat(cms1[j], focusTimePoint1);
-            }
-            gFinal->AddEdge(cms0[i], cms1[j]);
-          }
-        }
-      }
-    }
-  }// end connecting components 
-
-  // collapsing chains
-  if (collapse) {
-    for (TNGraph::TNodeI NI = gFinal->BegNI(); NI < gFinal->EndNI(); NI++) {
-      if (NI.GetInDeg() == 1 && NI.GetOutDeg() == 1)
-        if (gFinal->GetNI(NI.GetInNId(0)).GetOutDeg() == 1 && gFinal->GetNI(NI.GetOutNId(0)).GetInDeg() == 1)
-        {
-        gFinal->AddEdge(NI.GetInNId(0), NI.GetOutNId(0));
-        gFinal->DelEdge(NI.GetInNId(0), NI.GetId());
-        tFinal.DelKey(NI.GetId());
-        gFinal->DelNode(NI.GetId());
-        }
-    }
-  }// end collapsing
-
-}
-
-namespace TSnapDetail {
-/// Clauset-Newman-Moore community detection method.
-/// At every step two communities that contribute maximum positive value to global modularity are merged.
-/// See: Finding community structure in very large networks, A. Clauset, M.E.J. Newman, C. Moore, 2004
-class TCNMQMatrix {
-private:
-  struct TCmtyDat {
-    double DegFrac;
-    TIntFltH NIdQH;
-    int MxQId;
-    TCmtyDat() : MxQId(-1) { }
-    TCmtyDat(const double& NodeDegFrac, const int& OutDeg) : 
-      DegFrac(NodeDegFrac), NIdQH(OutDeg), MxQId(-1) { }
-    void AddQ(const int& NId, const double& Q) {
-      NIdQH.AddDat(NId, Q);
-      if (MxQId == -1 || NIdQH[MxQId]<Q) { MxQId = NIdQH.GetKeyId(NId); }
-    }
-    void UpdateMaxQ() {
-      MxQId = -1;
-      for (int i = -1; NIdQH.FNextKeyId(i);) {
-        if (MxQId == -1 || NIdQH[MxQId]< NIdQH[i]) { MxQId = i; }
-      }
-    }
-    void DelLink(const int& K) {
-      const int NId = GetMxQNId();
-      NIdQH.DelKey(K); if (NId == K) { UpdateMaxQ(); }
-    }
-    int GetMxQNId() const { return NIdQH.GetKey(MxQId); }
-    double GetMxQ() const { return NIdQH[MxQId]; }
-  };
-private:
-  THash<TInt, TCmtyDat> CmtyQH;
-  THeap<TFltIntIntTr> MxQHeap;
-  TUnionFind CmtyIdUF;
-  double Q;
-public:
-  TCNMQMatrix(const PUNGraph& Graph) : CmtyQH(Graph->GetNodes()), 
-    MxQHeap(Graph->GetNodes()), CmtyIdUF(Graph->GetNodes()) {
-    Init(Graph);
-  }
-  void Init(const PUNGraph& Graph) {
-    const double M = 0.5 / Graph->GetEdges(); // 1/2m
-    Q = 0.0;
-    for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-      CmtyIdUF.Add(NI.GetId());
-      const int OutDeg = NI.GetOutDeg();
-      if (OutDeg == 0) { continue; }
-      TCmtyDat& Dat = CmtyQH.AddDat(NI.GetId(), TCmtyDat(M * OutDeg, OutDeg));
-      for (int e = 0; e < NI.GetOutDeg(); e++) {
-        const int DstNId = NI.GetOutNId(e);
-        const double DstMod = 2 * M * (1.0 - OutDeg * Graph->GetNI(DstNId).GetOutDeg() * M);
-        Dat.AddQ(DstNId, DstMod);
-      }
-      Q += -1.0*TMath::Sqr(OutDeg*M);
-      if (NI.GetId() < Dat.GetMxQNId()) {
-        MxQHeap.Add(TFltIntIntTr(Dat.GetMxQ(), NI.GetId(), Dat.GetMxQNId()));
-      }
-    }
-    MxQHeap.MakeHeap();
-  }
-  TFltIntIntTr FindMxQEdge() {
-    while (true) {
-      if (MxQHeap.Empty()) { break; }
-      const TFltIntIntTr TopQ = MxQHeap.PopHeap();
-      if (!CmtyQH.IsKey(TopQ.Val2) || !CmtyQH.IsKey(TopQ.Val3)) { continue; }
-      if (TopQ.Val1 != CmtyQH.GetDat(TopQ.Val2).GetMxQ() && TopQ.Val1 != CmtyQH.GetDat(TopQ.Val3).GetMxQ()) { continue; }
-      return TopQ;
-    }
-    return TFltIntIntTr(-1, -1, -1);
-  }
-
-  bool MergeBestQ() {
-    const TFltIntIntTr TopQ = FindMxQEdge();
-    if (TopQ.Val1 <= 0.0) { return false; }
-    // joint communities
-    const int I = TopQ.Val3;
-    const int J = TopQ.Val2;
-    CmtyIdUF.Union(I, J); // join
-    Q += TopQ.Val1;
-    TCmtyDat& DatJ = CmtyQH.GetDat(J);
-    { TCmtyDat& DatI = CmtyQH.GetDat(I);
-    DatI.DelLink(J);  DatJ.DelLink(I);
-    for (int i = -1; DatJ.NIdQH.FNextKeyId(i); ) {
-      const int K = DatJ.NIdQH.GetKey(i);
-      TCmtyDat& DatK = CmtyQH.GetDat(K);
-      double NewQ = DatJ.NIdQH[i];
-      if (DatI.NIdQH.IsKey(K)) { NewQ = NewQ + DatI.NIdQH.GetDat(K);  DatK.DelLink(I); }     // K connected to I and J
-      else { NewQ = NewQ - 2 * DatI.DegFrac*DatK.DegFrac; }  // K connected to J not I
-      DatJ.AddQ(K, NewQ);
-      DatK.AddQ(J, NewQ);
-      MxQHeap.PushHeap(TFltIntIntTr(NewQ, TMath::Mn(J, K), TMath::Mx(J, K)));
-    }
-    for (int i = -1; DatI.NIdQH.FNextKeyId(i); ) {
-      const int K = DatI.NIdQH.GetKey(i);
-      if (!DatJ.NIdQH.IsKey(K)) { // K connected to I not J
-        TCmtyDat& DatK = CmtyQH.GetDat(K);
-        const double NewQ = DatI.NIdQH[i] - 2 * DatJ.DegFrac*DatK.DegFrac; 
-        DatJ.AddQ(K, NewQ);
-        DatK.DelLink(I);
-        DatK.AddQ(J, NewQ);
-        MxQHeap.PushHeap(TFltIntIntTr(NewQ, TMath::Mn(J, K), TMath::Mx(J, K)));
-      }
-    }
-    DatJ.DegFrac += DatI.DegFrac; }
-    if (DatJ.NIdQH.Empty()) { CmtyQH.DelKey(J); } // isolated community (done)
-    CmtyQH.DelKey(I);
-    return true;
-  }
-  static double CmtyCMN(const PUNGraph& Graph, TCnComV& CmtyV) {
-    TCNMQMatrix QMatrix(Graph);
-    // maximize modularity
-    while (QMatrix.MergeBestQ()) {}
-    // reconstruct communities
-    THash<TInt, TIntV> IdCmtyH;
-    for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
-      IdCmtyH.AddDat(QMatrix.CmtyIdUF.Find(NI.GetId())).Add(NI.GetId());
-    }
-    CmtyV.Gen(IdCmtyH.Len());
-    for (int j = 0; j < IdCmtyH.Len(); j++) {
-      CmtyV[j].NIdV.Swap(IdCmtyH[j]);
-    }
-    return QMatrix.Q;
-  }
-};
-
-} // namespace TSnapDetail
-
-double CommunityCNM(const PUNGraph& Graph, TCnComV& CmtyV) {
-  return TSnapDetail::TCNMQMatrix::CmtyCMN(Graph, CmtyV);
-}
-
-}; //namespace TSnap
+/////////////////////////////////////////////////
+// Community detection algorithms
+namespace TSnap {
+
+
+namespace TSnapDetail {
+
+// GIRVAN-NEWMAN algorithm
+//	1. The betweenness of all existing edges in the network is calculated first.
+//	2. The edge with the highest betweenness is removed.
+//	3. The betweenness of all edges affected by the removal is recalculated.
+//	4. Steps 2 and 3 are repeated until no edges remain.
+//  Girvan M. and Newman M. E. J., Community structure in social and biological networks, Proc. Natl. Acad. Sci. USA 99, 7821-7826 (2002)
+// Keep removing edges from Graph until one of the connected components of Graph splits into two.
+void CmtyGirvanNewmanStep(PUNGraph& Graph, TIntV& Cmty1, TIntV& Cmty2) {
+  TIntPrFltH BtwEH;
+  TBreathFS<PUNGraph> BFS(Graph);
+  Cmty1.Clr(false);  Cmty2.Clr(false);
+  while (true) {
+    TSnap::GetBetweennessCentr(Graph, BtwEH);
+    BtwEH.SortByDat(false);
+    if (BtwEH.Empty()) { return; }
+    const int NId1 = BtwEH.GetKey(0).Val1;
+    const int NId2 = BtwEH.GetKey(0).Val2;
+    Graph->DelEdge(NId1, NId2);
+    BFS.DoBfs(NId1, true, false, NId2, TInt::Mx);
+    if (BFS.GetHops(NId1, NId2) == -1) { // two components
+      TSnap::GetNodeWcc(Graph, NId1, Cmty1);
+      TSnap::GetNodeWcc(Graph, NId2, Cmty2);
+      return;
+    }
+  }
+}
+
+// Connected components of a graph define clusters
+// OutDegH and OrigEdges stores node degrees and number of edges in the original graph
+double _GirvanNewmanGetModularity(const PUNGraph& G, const TIntH& OutDegH, const int& OrigEdges, TCnComV& CnComV) {
+  TSnap::GetWccs(G, CnComV); // get communities
+  double Mod = 0;
+  for (int c = 0; c < CnComV.Len(); c++) {
+    const TIntV& NIdV = CnComV[c]();
+    double EIn = 0, EEIn = 0;
+    for (int i = 0; i < NIdV.Len(); i++) {
+      TUNGraph::TNodeI NI = G->GetNI(NIdV[i]);
+      EIn += NI.GetOutDeg();
+      EEIn += OutDegH.GetDat(NIdV[i]);
+    }
+    Mod += (EIn-EEIn*EEIn / (2.0*OrigEdges));
+  }
+  if (Mod == 0) { return 0; }
+  else { return Mod / (2.0*OrigEdges); }
+}
+
+void MapEquationNew2Modules(PUNGraph& Graph, TIntH& Module, TIntFltH& Qi, int a, int b) {
+  float InModule = 0.0, OutModule = 0.0, Val;
+  int Mds[2] = { a, b };
+  for (int i = 0; i<2; i++) {
+    InModule = 0.0, OutModule = 0.0;
+    if (Qi.IsKey(Mds[i])) {
+      int CentralModule = Mds[i];
+
+      //printf("central module: %i\n ",CentralModule);
+
+      TIntV newM;
+      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+        if (Module.GetDat(NI.GetId()) == CentralModule)
+          newM.Add(NI.GetId());
+        }
+
+      for (int j = 0; j<newM.Len(); j++) {
+        //int len1 = newM.Len();
+
+        //int c = CentralModule;
+        for (int k = 0; k<Graph->GetNI(newM[j]).GetDeg(); k++) {
+          //int len = Graph->GetNI(newM[j]).GetDeg();
+
+          int ids = Graph->GetNI(newM[j]).GetId();
+          int idd = Graph->GetNI(newM[j]).GetNbrNId(k);
+          int ms = Module.GetDat(ids);
+          int md = Module.GetDat(idd);
+          //int c = CentralModule;
+
+          if (ms == md) {
+            InModule += 1.0;
+            //printf("IN: \t%i - %i; moduls: %i - %i\n", ids, idd, ms, md);
+          } else {
+            OutModule += 1.0;
+            //printf("OUT: \t%i - %i; moduls: %i - %i\n", ids, idd, ms, md);
+          }
+        }
+      }
+      if (InModule >1) InModule = InModule / 2;
+
+      //printf("\n");
+
+      Val = 0.0;
+      if (InModule + OutModule > 0) {
+        Val = OutModule / (InModule + OutModule);
+      }
+      //int control = Mds[i];
+      Qi.AddDat(Mds[i], Val);
+    } else {
+      //int control = Mds[i];
+      Qi.AddDat(Mds[i], 0.0);
+    }
+  }
+}
+
+double Equation(TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi){
+  double SumPAlpha = 1.0, SumQi = 0.0, SumQiLogQi = 0.0;
+  double SumQiSumPAlphaLogQiSumPAlpha = 0.0, logqi = 0.0, qi = 0.0;
+  for (int i = 0; i<Qi.Len(); i++) {
+    SumQi += Qi[i];
+    qi = Qi[i];
+    if (qi != 0) {
+      logqi = log(qi);
+    } else {
+      logqi = 0;
+    }
+    SumQiLogQi += Qi[i] * logqi;
+    SumQiSumPAlphaLogQiSumPAlpha += (Qi[i] + SumPAlpha)*log(Qi[i] + SumPAlpha);
+  }
+  return (SumQi*log(SumQi) - 2 * SumQiLogQi - SumPAlphaLogPAlpha +
+          SumQiSumPAlphaLogQiSumPAlpha);
+}
+
+bool edgeIntersect(PNGraph& graph, TIntV& a, TIntV& b) {
+  for (int i = 0; i<a.Len(); i++) {
+    for (int j = 0; j<b.Len(); j++) {
+      if (graph->IsEdge(a[i], b[j]))
+        return true;
+    }
+  }
+
+  return false;
+}
+
+int vectorIntersect(TIntV& a, TIntV& b) {
+  int count = 0;
+  for (int i = 0; i<a.Len(); i++) {
+    for (int j = 0; j<b.Len(); j++) {
+      if (a[i] == b[j])
+        count++;
+    }
+  }
+
+  return count;
+}
+
+bool inComp(PNGraph& g1, PNGraph& Graph, TIntH& inCompCount, int id, int neigh) {
+  bool out = true;
+
+  int inCompN = 0;
+  int inComp = 0;
+
+  if (g1->IsNode(id) && g1->IsNode(neigh)) {
+    int deg = g1->GetNI(id).GetDeg();
+    int neighDeg = g1->GetNI(neigh).GetDeg();
+
+
+    if (inCompCount.IsKey(id)) {
+      inComp = inCompCount.GetDat(id);
+    }
+    if (inCompCount.IsKey(neigh)) {
+      inCompN = inCompCount.GetDat(neigh);
+    }
+
+    if (inCompN < neighDeg && inComp < deg && (!g1->IsNode(neigh) || Graph->GetNI(neigh).GetDeg() - neighDeg == 0)) {
+      inCompCount.AddDat(neigh, ++inCompN);
+      inCompCount.AddDat(id, ++inComp);
+      out = true;
+    } else {
+      out = false;
+    }
+  }
+  return out;
+}
+
+void transitiveTransform(TIntV& a, TIntV& b) {
+  for (int i = 0; i < a.Len(); i++) {
+    bool diff = false;
+    for (int j = 0; j < b.Len(); j++) {
+      if (a[i] == a[j]) {
+        diff = true;
+        break;
+      }
+    }
+    if (!diff) {
+      b.Add(a[i]);
+      break;
+    }
+  }
+}
+
+bool chekIfCrossing(TIntV& a, TIntH& t, int f, int l, int TP) {
+  bool after = false;
+  bool before = false;
+  for (int i = 0; i < a.Len(); i++) {
+    if (t.GetDat(a[i]) < TP)
+      before = true;
+    if (t.GetDat(a[i]) > TP)
+      after = true;
+  }
+
+  if (TP == f)
+    before = true;
+
+  if (TP == l)
+    after = true;
+
+  return (after && before);
+}
+
+double InfomapOnlineIncrement(PUNGraph& Graph, int n1, int n2, TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi, TIntH& Module, int& Br) {
+  // NOW NEW stuff add another additional iteration:
+
+  bool n1new = false;
+  bool n2new = false;
+
+  // add edge
+  if (!Graph->IsNode(n1)){
+    Graph->AddNode(n1);
+    n1new = true;
+  }
+
+  if (!Graph->IsNode(n2)) {
+    Graph->AddNode(n2);
+    n2new = true;
+  }
+
+  Graph->AddEdge(n1, n2);
+
+  int e = Graph->GetEdges();
+
+  // get previous alpha for 27 
+  double oldAlphaN1 = 0.0;
+  double oldAlphaN2 = 0.0;
+
+  if (!n1new)
+    oldAlphaN1 = PAlpha.GetDat(n1);
+
+  if (!n2new)
+    oldAlphaN2 = PAlpha.GetDat(n2);
+
+  // update alpha for 27
+  TUNGraph::TNodeI node = Graph->GetNI(n1);
+  int nodeDeg = node.GetDeg();
+  float d = ((float)nodeDeg / (float)(2 * e));
+  PAlpha.AddDat(n1, d);
+
+  //update alphasum
+  SumPAlphaLogPAlpha = SumPAlphaLogPAlpha - oldAlphaN1 + d*log(d);
+
+  if (n1new) {
+    Module.AddDat(n1, Br);
+    Qi.AddDat(Br, 1.0);
+    Br++;
+  }
+
+  // update alpha for 28
+  node = Graph->GetNI(n2);
+  nodeDeg = node.GetDeg();
+  d = ((float)nodeDeg / (float)(2 * e));
+  PAlpha.AddDat(n2, d);
+
+  //update alphasum
+  SumPAlphaLogPAlpha = SumPAlphaLogPAlpha - oldAlphaN2 + d*log(d);
+
+  //add module
+  if (n2new) {
+    Module.AddDat(n2, Br);
+    Qi.AddDat(Br, 1.0);
+    Br++;
+  }
+
+  // Start
+
+  double MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
+  double PrevIterationCodeLength = 0.0;
+
+  do {
+    PrevIterationCodeLength = MinCodeLength;
+    int id[2] = { n1, n2 };
+    for (int k = 0; k<2; k++) {
+      for (int i = 0; i<Graph->GetNI(id[k]).GetDeg(); i++) {
+
+        int OldModule = Module.GetDat(id[k]);
+        int NewModule = Module.GetDat(Graph->GetNI(id[k]).GetNbrNId(i));
+
+        Module.AddDat(id[k], NewModule);
+
+        TSnapDetail::MapEquationNew2Modules(Graph, Module, Qi, OldModule, NewModule);
+        double NewCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
+        if (NewCodeLength<MinCodeLength) {
+          MinCodeLength = NewCodeLength;
+          OldModule = NewModule;
+        }
+        else {
+          Module.AddDat(id[k], OldModule);
+        }
+      }
+    }
+  } while (MinCodeLength<PrevIterationCodeLength);
+
+  return MinCodeLength;
+}
+
+} // namespace TSnapDetail
+
+// Maximum modularity clustering by Girvan-Newman algorithm (slow)
+//  Girvan M. and Newman M. E. J., Community structure in social and biological networks, Proc. Natl. Acad. Sci. USA 99, 7821-7826 (2002)
+double CommunityGirvanNewman(PUNGraph& Graph, TCnComV& CmtyV) {
+  TIntH OutDegH;
+  const int NEdges = Graph->GetEdges();
+  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    OutDegH.AddDat(NI.GetId(), NI.GetOutDeg());
+  }
+  double BestQ = -1; // modularity
+  TCnComV CurCmtyV;
+  CmtyV.Clr();
+  TIntV Cmty1, Cmty2;
+  while (true) {
+    TSnapDetail::CmtyGirvanNewmanStep(Graph, Cmty1, Cmty2);
+    const double Q = TSnapDetail::_GirvanNewmanGetModularity(Graph, OutDegH, NEdges, CurCmtyV);
+    //printf("current modularity: %f\n", Q);
+    if (Q > BestQ) {
+      BestQ = Q; 
+      CmtyV.Swap(CurCmtyV);
+    }
+    if (Cmty1.Len() == 0 || Cmty2.Len() == 0) { break; }
+  }
+  return BestQ;
+}
+
+// Rosvall-Bergstrom community detection algorithm based on information theoretic approach.
+// See: Rosvall M., Bergstrom C. T., Maps of random walks on complex networks reveal community structure, Proc. Natl. Acad. Sci. USA 105, 1118-1123 (2008)
+double Infomap(PUNGraph& Graph, TCnComV& CmtyV){
+
+  TIntFltH PAlpha; // probability of visiting node alpha
+  TIntH Module; // module of each node
+  TIntFltH Qi; // probability of leaving each module
+
+  double SumPAlphaLogPAlpha = 0.0;
+  int Br = 0;
+  const int e = Graph->GetEdges();
+
+  // initial values
+  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+    int nodeId = NI.GetId();
+    int nodeDeg = NI.GetDeg();
+    float d = ((float)nodeDeg / (float)(2 * e));
+    PAlpha.AddDat(nodeId, d);
+    SumPAlphaLogPAlpha += d*log(d);
+    Module.AddDat(nodeId, Br);
+    Qi.AddDat(Br, 1.0);
+    Br += 1;
+  }
+
+  double MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
+  double NewCodeLength, PrevIterationCodeLength = 0.0;
+  int OldModule, NewModule;
+
+  TIntV nodes;
+  for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++)
+    nodes.Add(NI.GetId());
+
+  do {
+    PrevIterationCodeLength = MinCodeLength;
+    TRnd rnd;
+    rnd.Randomize();
+    nodes.Shuffle(rnd);
+    for (int ndcounter = 0; ndcounter<nodes.Len(); ndcounter++) {
+      MinCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
+      int nodeId = nodes[ndcounter];
+      TUNGraph::TNodeI NI = Graph->GetNI(nodeId);
+      for (int i = 0; i<NI.GetDeg(); i++) {
+
+        OldModule = Module.GetDat(nodeId);
+        NewModule = Module.GetDat(NI.GetNbrNId(i));
+
+        if (OldModule != NewModule){
+
+          Module.AddDat(nodeId, NewModule);
+
+          TSnapDetail::MapEquationNew2Modules(Graph, Module, Qi, OldModule, NewModule);
+          NewCodeLength = TSnapDetail::Equation(PAlpha, SumPAlphaLogPAlpha, Qi);
+          if (NewCodeLength<MinCodeLength) {
+            MinCodeLength = NewCodeLength;
+            OldModule = NewModule;
+          }
+          else {
+            Module.AddDat(nodeId, OldModule);
+          }
+        }
+      }
+    }
+  } while (MinCodeLength<PrevIterationCodeLength);
+
+  Module.SortByDat(true);
+
+  int Mod = -1;
+  for (int i = 0; i<Module.Len(); i++) {
+    if (Module[i]>Mod){
+      Mod = Module[i];
+      TCnCom t;
+      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+        if (Module.GetDat(NI.GetId()) == Mod)
+          t.Add(NI.GetId());
+      }
+      CmtyV.Add(t);
+    }
+  }
+
+  return MinCodeLength;
+}
+
+double InfomapOnline(PUNGraph& Graph, int n1, int n2, TIntFltH& PAlpha, double& SumPAlphaLogPAlpha, TIntFltH& Qi, TIntH& Module, int& Br, TCnComV& CmtyV) {
+
+  double MinCodeLength = TSnapDetail::InfomapOnlineIncrement(Graph, n1, n2, PAlpha, SumPAlphaLogPAlpha, Qi, Module, Br);
+
+  Module.SortByDat(true);
+
+  int Mod = -1;
+  for (int i = 0; i<Module.Len(); i++) {
+    if (Module[i]>Mod){
+      Mod = Module[i];
+      TCnCom t;
+      for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
+        if (Module.GetDat(NI.GetId()) == Mod)
+          t.Add(NI.GetId());
+      }
+      CmtyV.Add(t);
+    }
+  }
+
+  return MinCodeLength;
+}
+
+void CmtyEvolutionFileBatchV(TStr InFNm, TIntIntVH& sizesContV, TIntIntVH& cContV, TIntIntVH& edges, double alpha, double beta, int CmtyAlg) {
+  TIntIntHH sizesCont;
+  TIntIntHH cCont;
+  CmtyEvolutionFileBatch(InFNm, sizesCont, cCont, edges, alpha, beta, CmtyAlg);
+
+  TIntV uniqueId;
+  for (int i = 0; i < cCont.Len(); i++){
+    for (THashKeyDatI<TInt, TInt> it = cCont[i].BegI(); !it.IsEnd(); it++){
+      if (!uniqueId.IsIn(it.GetKey()))
+        uniqueId.Add(it.GetKey());
+    }
+  }
+
+  for (int j = 0; j<uniqueId.Len(); j++)
+  {
+    TIntV cV;
+    for (int i = 0; i<cCont.Len(); i++)
+    {
+      if (cCont[i].IsKey(uniqueId[j]))
+        cV.Add(cCont[i].GetDat(uniqueId[j]));
+      else
+        cV.Add(-1);
+    }
+    cContV.AddDat(uniqueId[j], cV);
+  }
+
+  TIntV uniqueC;
+  for (int i = 0; i < sizesCont.Len(); i++){
+    for (THashKeyDatI<TInt, TInt> it = sizesCont[i].BegI(); !it.IsEnd(); it++){
+      if (!uniqueC.IsIn(it.GetKey()))
+        uniqueC.Add(it.GetKey());
+    }
+  }
+
+  for (int j = 0; j<uniqueC.Len(); j++)
+  {
+    TIntV cV;
+    for (int i = 0; i<sizesCont.Len(); i++)
+    {
+      if (sizesCont[i].IsKey(uniqueC[j]))
+        cV.Add(sizesCont[i].GetDat(uniqueC[j]));
+      else
+        cV.Add(0);
+    }
+    sizesContV.AddDat(uniqueC[j], cV);
+  }
+
+}
+
+void CmtyEvolutionFileBatch(TStr InFNm, TIntIntHH& sizesCont, TIntIntHH& cCont, TIntIntVH& edges, double alpha, double beta, int CmtyAlg) {
+
+
+  // reading folder with networks and calculating core/periphery
+  int br = 0;
+  TIntIntH prev;
+  TIntH prev_sizes;
+
+  TSsParser Ss(InFNm, ssfWhiteSep, true, false, true);
+  Ss.Next();
+  //int internal_year_counter = 0;
+  // variable for delimiter between networks
+  TStr Marker;
+  // defining variables for node ids and starting year
+  int SrcNId, DstNId; // , t = 1970;
+
+  // temporal container for edges
+  TIntIntVH edges_;
+
+  while (!Ss.Eof()) {
+
+    //printf("%i\n", t);
+    Marker = Ss.GetLnStr();
+    // get the year from the network seperator
+    //t = Marker.GetSubStr(1, 4).GetInt();
+
+    if (Marker.GetCh(0) == '#'){
+
+      Ss.Next();
+      PUNGraph Graph = PUNGraph::TObj::New();
+      do{
+        if (!Ss.GetInt(0, SrcNId) || !Ss.GetInt(1, DstNId)) {
+          if (!Ss.Eof()){
+            Ss.Next();
+            if (!Ss.Eof())
+              Marker = Ss.GetLnStr();
+          }
+          continue;
+        }
+        if (!Graph->IsNode(SrcNId)) { Graph->AddNode(SrcNId); }
+        if (!Graph->IsNode(DstNId)) { Graph->AddNode(DstNId); }
+        Graph->AddEdge(SrcNId, DstNId);
+        Ss.Next();
+        if (!Ss.Eof())
+          Marker = Ss.GetLnStr();
+      } while (Marker.GetCh(0) != '#' && !Ss.Eof());
+
+
+      if (Graph->GetNodes()>0) {
+        // WORK
+
+        TSnap::DelSelfEdges(Graph);
+        TCnComV CmtyV;
+        //double Q = 0.0;
+        TStr CmtyAlgStr;
+        if (CmtyAlg == 1) {
+          CmtyAlgStr = "Girvan-Newman";
+          //Q = TSnap::CommunityGirvanNewman(Graph, CmtyV);
+        }
+        else if (CmtyAlg == 2) {
+          CmtyAlgStr = "Clauset-Newman-Moore";
+          //Q = TSnap::CommunityCNM(Graph, CmtyV);
+        }
+        else if (CmtyAlg == 3) {
+          CmtyAlgStr = "Infomap";
+          //Q = TSnap::Infomap(Graph, CmtyV);
+        }
+        else { Fail; }
+
+        TIntIntHH distCont;
+
+        if (br == 0) {
+          prev.Clr();
+          //int size = 0;
+          for (int c = 0; c < CmtyV.Len(); c++) {
+            for (int i = 0; i < CmtyV[c].Len(); i++){
+              prev.AddDat(CmtyV[c][i].Val, c);
+            }
+            //int s = CmtyV[c].Len();
+            prev_sizes.AddDat(c, CmtyV[c].Len());
+          }
+        }
+        else {
+
+          // containers for statistics
+
+          //TIntFltHH stat1;
+          //TIntIntHH stat2;
+          TIntH dist;
+          TIntH map;
+
+          int first_new_c_id = -1;
+
+          // getting first free id for a new community
+          for (THashKeyDatI<TInt, TInt> it = prev_sizes.BegI(); !it.IsEnd(); it++)
+            if (it.GetKey() > first_new_c_id)
+              first_new_c_id = it.GetKey();
+          if (CmtyV.Len() - 1>first_new_c_id)
+            first_new_c_id = CmtyV.Len() - 1;
+          first_new_c_id++;
+
+          for (int c = 0; c < CmtyV.Len(); c++) {
+
+            TIntV stat;
+            TIntFltH statH1;
+            TIntFltH statH2;
+
+            // initialize distributions to 0
+            for (THashKeyDatI<TInt, TInt> it = prev_sizes.BegI(); !it.IsEnd(); it++)
+              dist.AddDat(it.GetKey(), 0);
+            //for new nodes
+            dist.AddDat(-1, 0);
+
+            for (int i = 0; i < CmtyV[c].Len(); i++) {
+              int id = CmtyV[c][i].Val;
+              int prev_comm = -1;
+              if (prev.IsKey(id))
+                prev_comm = prev.GetDat(CmtyV[c][i].Val);
+              stat.Add(prev_comm);
+              int pre_val = dist.GetDat(prev_comm);
+              dist.AddDat(prev_comm, pre_val + 1);
+            }
+
+            double sumstat2 = 0;
+            for (THashKeyDatI<TInt, TInt> it = dist.BegI(); !it.IsEnd(); it++) {
+
+              int k = it.GetKey();
+              int d = it.GetDat();
+              if (d > 0){
+                if (prev_sizes.IsKey(it.GetKey())){
+
+                  double stat1_ = (double)d / (double)prev_sizes.GetDat(k);
+                  statH1.AddDat(k, stat1_);
+                }
+                double stat2_ = (double)d / (double)CmtyV[c].Len();
+                statH2.AddDat(k, stat2_);
+                sumstat2 += stat2_;
+
+                TIntV edge;
+                edge.Add(k);
+                edge.Add(c);
+                edge.Add(d);
+                edge.Add(br - 1);
+                edge.Add(br);
+                edges_.AddDat(edges_.Len() + 1, edge);
+              }
+
+              // adding edges between two communities in two neighbouring time points;
+
+
+              if (sumstat2 > 0.98) break;
+            }
+
+            int n_of_c_greater_than_half = 0;
+            int id_of_c_greater_than_half = -1;
+            TIntV ids_of_c_greater_than_half;
+
+            for (THashKeyDatI<TInt, TFlt> it = statH1.BegI(); !it.IsEnd(); it++){
+              if (it.GetDat()>alpha){
+                id_of_c_greater_than_half = it.GetKey();
+                ids_of_c_greater_than_half.Add(it.GetKey());
+                n_of_c_greater_than_half++;
+              }
+            }
+
+            // if this community is build of majority of one previous community and the other parts of the community are fractions of other communities smaller than half, the new community gets its label 
+            if (n_of_c_greater_than_half == 1){
+              map.AddDat(c, id_of_c_greater_than_half);
+            }
+            else{
+              int h2part_id = -2;
+              for (int i = 0; i<ids_of_c_greater_than_half.Len(); i++){
+                double H2 = statH2.GetDat(ids_of_c_greater_than_half[i]);
+                if (H2>beta){
+                  h2part_id = ids_of_c_greater_than_half[i];
+                }
+              }
+              if (h2part_id != -2)
+                map.AddDat(c, h2part_id);
+              else{
+                map.AddDat(c, first_new_c_id);
+                first_new_c_id++;
+              }
+            }
+
+            distCont.AddDat(c, dist);
+
+            //stat1.AddDat(c,statH1);
+            //stat2.AddDat(c,statH2);
+
+          }
+
+
+          prev.Clr();
+          prev_sizes.Clr();
+          for (int c = 0; c < CmtyV.Len(); c++){
+            for (int i = 0; i < CmtyV[c].Len(); i++){
+              prev.AddDat(CmtyV[c][i].Val, map.GetDat(c));
+            }
+            //int s = CmtyV[c].Len();
+            prev_sizes.AddDat(map.GetDat(c), CmtyV[c].Len());
+          }
+
+          // filing the edges container - the key thing is the map(c)
+          for (THashKeyDatI<TInt, TIntV> it = edges_.BegI(); !it.IsEnd(); it++){
+            TIntV edgesV;
+            int a = it.GetDat()[0];
+            int b = it.GetDat()[1];
+            int v = it.GetDat()[2];
+            int d = it.GetDat()[3];
+            int e = it.GetDat()[4];
+            edgesV.Add(map.GetDat(b));
+            edgesV.Add(a);
+            edgesV.Add(v);
+            edgesV.Add(d);
+            edgesV.Add(e);
+            if (a != -1)
+              edges.AddDat(edges.Len(), edgesV);
+          }
+          edges_.Clr();
+
+
+        }
+
+        sizesCont.AddDat(br, prev_sizes);
+        cCont.AddDat(br, prev);
+        br++;
+        // WORK - END
+      }
+    }
+    else Ss.Next();
+  }
+
+}
+
+void CmtyEvolutionJson(TStr& Json, TIntIntVH& sizesContV, TIntIntVH& cContV, TIntIntVH& edges){
+  ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  // This function creates a JSON string with communities and edges for community evolution visualization using D3.js
+  ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+
+  // writing json label for edges
+  Json.InsStr(Json.Len(), "{\n\"edges\":[\n");
+
+  TInt br = 0;
+  // iterating hash of vector of edges and writing into string 
+  for (THashKeyDatI<TInt, TIntV> it = edges.BegI(); !it.IsEnd(); it++)
+  {
+    // first node
+    TInt n1 = it.GetDat()[1];
+    // second node
+    TInt n2 = it.GetDat()[0];
+    // edge weight
+    TInt w = it.GetDat()[2];
+    // start time point
+    TInt t0 = it.GetDat()[3];
+    // end time point
+    TInt t1 = it.GetDat()[4];
+
+    if (br>0)
+      Json.InsStr(Json.Len(), ",");
+
+    // writing to string
+    Json.InsStr(Json.Len(), "{\"n1\":"); Json.InsStr(Json.Len(), n1.GetStr());
+    Json.InsStr(Json.Len(), ", \"n2\":"); Json.InsStr(Json.Len(), n2.GetStr());
+    Json.InsStr(Json.Len(), ", \"w\":"); Json.InsStr(Json.Len(), w.GetStr());
+    Json.InsStr(Json.Len(), ", \"t0\":"); Json.InsStr(Json.Len(), t0.GetStr());
+    Json.InsStr(Json.Len(), ", \"t1\":"); Json.InsStr(Json.Len(), t1.GetStr());
+    Json.InsStr(Json.Len(), " }\n");
+    br++;
+  }
+
+  // json label for communities
+  Json.InsStr(Json.Len(), "],\n\"communities\":[\n");
+
+  br = 0;
+  // printing communities into json file 
+  for (int i = 0; i < sizesContV[0].Len(); i++)
+  {
+    for (THashKeyDatI<TInt, TIntV> it = sizesContV.BegI(); !it.IsEnd(); it++)
+    {
+      // id of community
+      TInt id = it.GetKey();
+      // community size
+      TInt size = it.GetDat()[i];
+      // time
+      TInt j = i;
+
+      // if the community has size greater than 0, output it to json string
+      if (size > 0) {
+        if (br>0)
+          Json.InsStr(Json.Len(), ",");
+
+        TInt size = it.GetDat()[i];
+        Json.InsStr(Json.Len(), "{\"id\":"); Json.InsStr(Json.Len(), id.GetStr());
+        Json.InsStr(Json.Len(), ", \"size\":"); Json.InsStr(Json.Len(), size.GetStr());
+        Json.InsStr(Json.Len(), ", \"t\":"); Json.InsStr(Json.Len(), j.GetStr());
+        Json.InsStr(Json.Len(), " }\n");
+
+        br++;
+      }
+    }
+  }
+
+  // printing communities into json file - alternative ordering
+  /*
+  for (THashKeyDatI<TInt, TIntV> it = sizesContV.BegI();  !it.IsEnd(); it++)
+  {
+  TInt id = it.GetKey();
+  int len = it.GetDat().Len();
+  for (int i=0; i < it.GetDat().Len(); i++)
+  {
+  TInt size = it.GetDat()[i];
+  TInt j = i;
+  if (size > 0) {
+
+  if(br>0)
+  Json.InsStr(Json.Len(),",");
+
+  TInt size = it.GetDat()[i];
+
+  Json.InsStr(Json.Len(),"{\"id\":"); Json.InsStr(Json.Len(),id.GetStr());
+  Json.InsStr(Json.Len(),", \"size\":"); Json.InsStr(Json.Len(),size.GetStr());
+  Json.InsStr(Json.Len(),", \"t\":"); Json.InsStr(Json.Len(),j.GetStr());
+  Json.InsStr(Json.Len()," }\n");
+
+  br++;
+
+  }
+
+  }
+  }
+  */
+
+  Json.InsStr(Json.Len(), "]\n}");
+
+}
+
+TStr CmtyTest(TStr InFNm, int CmtyAlg){
+
+  TIntIntVH sizesContV;
+  TIntIntVH cContV;
+  TIntIntVH edges;
+  double alpha = 0.5;
+  double beta = 0.75;
+  CmtyEvolutionFileBatchV(InFNm, sizesContV, cContV, edges, alpha, beta, CmtyAlg);
+  TStr out;
+  //int a = sizesContV.Len();
+  //int b = cContV.Len();
+  //int c = edges.Len();
+  CmtyEvolutionJson(out, sizesContV, cContV, edges);
+
+  return out;
+}
+
+void ReebSimplify(PNGraph& Graph, TIntH& t, int e, PNGraph& gFinal, TIntH& tFinal, bool collapse) {
+  TIntIntVH components;
+  TIntIntVH ct;
+
+  int newId = 0; //get first new free id;
+
+  // gett first and last t
+  int first = 429496729;
+  int last = -1;
+
+  // smarter way of determining focus time points
+  TIntV timePoints;
+
+  // get first and last time point
+  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+    if (it.GetDat()<first)
+      first = it.GetDat();
+    if (it.GetDat()>last)
+      last = it.GetDat();
+  }
+
+  // adding focus timepoints
+  // this can be put in the previous (first, last time point detection) iteration if breaking borders is not an issue
+  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+    if (it.GetDat() - (e / 2) >= first)
+      timePoints.Add(it.GetDat() - (e / 2) /*- 0.1*/);
+    timePoints.Add(it.GetDat());
+    if (it.GetDat() + (e / 2) <= last)
+      timePoints.Add(it.GetDat() + (e / 2) /*+ 0.1*/);
+  }
+  
+
+  //iterate each time point
+  for (int i = 0; i<timePoints.Len(); i++) {
+
+    int focusTimePoint = timePoints[i];
+
+    TIntV fnodes; // all the nodes int the focus in that step
+
+    // getting nodes in focus -- in epsilon
+    for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+      if ((it.GetDat() <= focusTimePoint + (e / 2)) && (it.GetDat() >= focusTimePoint - (e / 2)))
+        fnodes.Add(it.GetKey());
+    }
+
+    // create graph from nodes in focus
+    PNGraph g1 = TNGraph::New();
+    for (int i = 0; i<fnodes.Len(); i++) {
+      if (!g1->IsNode(fnodes[i]))
+        g1->AddNode(fnodes[i]);
+      // lower star
+      for (int j = 0; j<Graph->GetNI(fnodes[i]).GetInDeg(); j++) {
+        int NeighId = Graph->GetNI(fnodes[i]).GetInNId(j);
+        if (t.GetDat(NeighId)<focusTimePoint - (e / 2)) {
+
+        }
+        else {
+          if (!g1->IsNode(NeighId))
+            g1->AddNode(NeighId);
+          g1->AddEdge(NeighId, fnodes[i]);
+        }
+      }
+      // upper star
+      for (int j = 0; j<Graph->GetNI(fnodes[i]).GetOutDeg(); j++) {
+        int NeighId = Graph->GetNI(fnodes[i]).GetOutNId(j);
+        if (t.GetDat(NeighId)>focusTimePoint + (e / 2)) {
+
+        }
+        else {
+          if (!g1->IsNode(NeighId))
+            g1->AddNode(NeighId);
+          g1->AddEdge(fnodes[i], NeighId);
+        }
+      }
+    }
+
+    // getting results from commponents detection and recording elements of components and timestamps of components
+    TCnComV CnComV;
+    GetWccs(g1, CnComV);
+    TIntV communitiesAtT;
+    for (int cc = 0; cc < CnComV.Len(); cc++) {
+      components.AddDat(newId, CnComV[cc].NIdV);
+      communitiesAtT.Add(newId);
+      newId++;
+    }
+    if (CnComV.Len() > 0)
+      ct.AddDat(focusTimePoint, communitiesAtT);
+  } // end iterate each node
+
+  // connecting neighbouring components
+  THashKeyDatI<TInt, TIntV> it = ct.BegI();
+  THashKeyDatI<TInt, TIntV> prelast = ct.EndI()--;
+  prelast--;
+  while (it < prelast) {
+    TIntV cms0;
+    TIntV cms1;
+    int focusTimePoint;
+    int focusTimePoint1;
+    focusTimePoint = it.GetKey();
+    cms0 = it.GetDat();
+    it++;
+    focusTimePoint1 = it.GetKey();
+    cms1 = it.GetDat();
+    if (cms0.Len()>0 && cms1.Len() > 0) {
+      for (int i = 0; i < cms0.Len(); i++) {
+        for (int j = 0; j < cms1.Len(); j++) {
+          TIntV ids0 = components.GetDat(cms0[i]);
+          TIntV ids1 = components.GetDat(cms1[j]);
+          if (ids0.IntrsLen(ids1) > 0 || TSnapDetail::edgeIntersect(Graph, ids0, ids1)) {
+            if (!gFinal->IsNode(cms0[i])) {
+              gFinal->AddNode(cms0[i]);
+              tFinal.AddDat(cms0[i], focusTimePoint);
+            }
+            if (!gFinal->IsNode(cms1[j])) {
+              gFinal->AddNode(cms1[j]);
+              tFinal.AddDat(cms1[j], focusTimePoint1);
+            }
+            gFinal->AddEdge(cms0[i], cms1[j]);
+          }
+        }
+      }
+    }
+  }// end connecting components 
+
+  // collapsing chains
+  if (collapse) {
+    for (TNGraph::TNodeI NI = gFinal->BegNI(); NI < gFinal->EndNI(); NI++) {
+      if (NI.GetInDeg() == 1 && NI.GetOutDeg() == 1)
+        if (gFinal->GetNI(NI.GetInNId(0)).GetOutDeg() == 1 && gFinal->GetNI(NI.GetOutNId(0)).GetInDeg() == 1)
+        {
+        gFinal->AddEdge(NI.GetInNId(0), NI.GetOutNId(0));
+        gFinal->DelEdge(NI.GetInNId(0), NI.GetId());
+        tFinal.DelKey(NI.GetId());
+        gFinal->DelNode(NI.GetId());
+        }
+    }
+  }// end collapsing
+
+}
+
+void ReebRefine(PNGraph& Graph, TIntH& t, int e, PNGraph& gFinal, TIntH& tFinal, bool collapse) {
+  TIntIntVH components;
+  TIntIntVH ct;
+
+  int newId = 0; //get first new free id;
+
+  // gett first and last t
+  int first = 429496729;
+  int last = -1;
+
+  // smarter way of determining focus time points
+  TIntV timePoints;
+
+  // get first and last time point
+  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+    if (it.GetDat() < first)
+      first = it.GetDat();
+    if (it.GetDat() > last)
+      last = it.GetDat();
+  }
+
+  // adding focus timepoints
+  // this can be put in the previous (first, last time point detection) iteration if breaking borders is not an issue
+  for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+    if (it.GetDat() - (e / 2) >= first)
+      timePoints.Add(it.GetDat() - (e / 2) /*- 0.1*/);
+    timePoints.Add(it.GetDat());
+    if (it.GetDat() + (e / 2) <= last)
+      timePoints.Add(it.GetDat() + (e / 2) /*+ 0.1*/);
+  }
+
+  TIntV timePointsUnique;
+  int prevtp = -1;
+  //get unique time points
+  for (int i = 0; i < timePoints.Len(); i++){
+    if (timePoints[i] > prevtp)
+      timePointsUnique.Add(timePoints[i]);
+    prevtp = timePoints[i];
+  }
+
+  timePoints.Clr();
+  timePoints = timePointsUnique;
+
+  //iterate each time point
+  for (int i = 0; i < timePoints.Len(); i++) {
+
+    int focusTimePoint = timePoints[i];
+
+    TIntV fnodes; // all the nodes int the focus in that step
+
+    // getting nodes in focus -- in epsilon
+    for (THashKeyDatI<TInt, TInt> it = t.BegI(); !it.IsEnd(); it++) {
+      if ((it.GetDat() <= focusTimePoint + (e / 2)) && (it.GetDat() >= focusTimePoint - (e / 2)))
+        fnodes.Add(it.GetKey());
+    }
+
+    // create graph from nodes in focus
+    PNGraph g1 = TNGraph::New();
+    for (int i = 0; i < fnodes.Len(); i++) {
+      if (!g1->IsNode(fnodes[i]))
+        g1->AddNode(fnodes[i]);
+      // lower star
+      for (int j = 0; j < Graph->GetNI(fnodes[i]).GetInDeg(); j++) {
+        int NeighId = Graph->GetNI(fnodes[i]).GetInNId(j);
+        if (t.GetDat(NeighId) < focusTimePoint - (e / 2)) {
+
+        }
+        else {
+          if (!g1->IsNode(NeighId))
+            g1->AddNode(NeighId);
+          g1->AddEdge(NeighId, fnodes[i]);
+        }
+      }
+      // upper star
+      for (int j = 0; j < Graph->GetNI(fnodes[i]).GetOutDeg(); j++) {
+        int NeighId = Graph->GetNI(fnodes[i]).GetOutNId(j);
+        if (t.GetDat(NeighId) > focusTimePoint + (e / 2)) {
+
+        }
+        else {
+          if (!g1->IsNode(NeighId))
+            g1->AddNode(NeighId);
+          g1->AddEdge(fnodes[i], NeighId);
+        }
+      }
+    }
+
+    // getting results from commponents detection and recording elements of components and timestamps of components
+    TIntH inCompCount;
+    TIntIntVH comps;
+    int compBr = 0;
+    TIntH nn_nodes;
+
+    int FTP = focusTimePoint;
+    TIntH TEdges;
+
+    for (TNGraph::TNodeI NI = g1->BegNI(); NI < g1->EndNI(); NI++) {
+
+      
+      int FTPNode = NI.GetId();
+      TNGraph::TNodeI GNI = Graph->GetNI(FTPNode);
+      int FI, FO, RI, RO, I, O;
+
+      RI = NI.GetInDeg();
+      RO = NI.GetOutDeg();
+
+      FI = Graph->GetNI(FTPNode).GetInDeg() - RI;
+      FO = Graph->GetNI(FTPNode).GetOutDeg() - RO;
+
+      if (focusTimePoint + (e / 2) == t.GetDat(NI.GetId())) { // if its on the right edge only in degree is observed
+        RO = FO = 0;
+      }
+      if (focusTimePoint - (e / 2) == t.GetDat(NI.GetId())) { // if its on the left edge only out degree is observed
+        RI = FI = 0;
+      }
+
+      I = RI + FI;
+      O = RO + FO;
+
+      // counting edges imidiately after time point
+      int temp = 0;
+      if (TEdges.IsKey(FTP))
+        temp = TEdges.GetDat(FTP);
+      TEdges.AddDat(FTP, O + temp);
+
+      // FIND ELEMENTS
+
+      // n - n,
+      if (I > 1 && O > 1) {
+        // number of nodes is in our out degree
+        int nn = I;
+        if (O > I)
+          nn = O;
+
+        TIntV nds;
+        nds.Add(FTPNode);
+        for (int i = 0; i < I; i++) {
+          nds.Add(GNI.GetInNId(i));
+        }
+
+        for (int i = 0; i < O; i++) {
+          nds.Add(GNI.GetOutNId(i));
+        }
+
+        for (int j = 0; j < nn; j++) {
+          nn_nodes.AddDat(compBr);
+          comps.AddDat(compBr, nds);
+          compBr++;
+        }
+      }
+      
+      // 1 - n
+      else if (I == 1 && O > 1) {
+        for (int i = 0; i < O; i++) {
+          TIntV nds;
+          nds.Add(FTPNode);
+          nds.Add(GNI.GetInNId(0));
+          nds.Add(GNI.GetOutNId(i));
+          comps.AddDat(compBr, nds);
+          compBr++;
+        }
+      }
+
+      // n - 1
+      else if (I > 1 && O == 1) {
+        for (int i = 0; i < I; i++) {
+          TIntV nds;
+          nds.Add(FTPNode);
+          nds.Add(GNI.GetOutNId(0));
+          nds.Add(GNI.GetInNId(i));
+          comps.AddDat(compBr, nds);
+          compBr++;
+        }
+      }
+
+      // 0 - n
+      else if (I == 0 && O > 1) {
+        for (int i = 0; i < O; i++) {
+          TIntV nds;
+          nds.Add(FTPNode);
+          nds.Add(GNI.GetOutNId(i));
+          comps.AddDat(compBr, nds);
+          compBr++;
+        }
+      }
+
+      // n - 0
+      else if (I > 1 && O == 0) {
+        for (int i = 0; i < I; i++) {
+          TIntV nds;
+          nds.Add(FTPNode);
+          nds.Add(GNI.GetInNId(i));
+          comps.AddDat(compBr, nds);
+          compBr++;
+        }
+      }
+
+      // 1 - 1
+      else if (I == 1 && O == 1) {
+        TIntV nds;
+        nds.Add(FTPNode);
+        nds.Add(GNI.GetOutNId(0));
+        nds.Add(GNI.GetInNId(0));
+        comps.AddDat(compBr, nds);
+        compBr++;
+      }
+
+      // 0 - 1
+      else if (I == 0 && O == 1) {
+        TIntV nds;
+        nds.Add(FTPNode);
+        nds.Add(GNI.GetOutNId(0));
+        comps.AddDat(compBr, nds);
+        compBr++;
+      }
+
+      // 1 - 0
+      else if (I == 1 && O == 0) {
+        TIntV nds;
+        nds.Add(FTPNode);
+        nds.Add(GNI.GetInNId(0));
+        comps.AddDat(compBr, nds);
+        compBr++;
+      }
+
+      
+
+    } // end iterate each node
+
+    // connecting inside of epsilon
+
+    TIntIntVH elements;
+    TIntH banned;
+    for (int cc0 = 0; cc0 < comps.Len(); cc0++) {
+      for (int cc1 = cc0; cc1 < comps.Len(); cc1++) {
+        int smaller = comps[cc0].Len();
+        int smaller_id = cc0;
+        if (cc0 != cc1) {
+          if (comps[cc1].Len() < smaller) {
+            smaller = comps[cc1].Len();
+            smaller_id = cc1;
+          }
+          int vi = TSnapDetail::vectorIntersect(comps[cc0], comps[cc1]);
+          if (vi == smaller && !nn_nodes.IsKey(smaller_id)){
+            banned.AddDat(smaller_id);
+          }
+          /*else if (smaller > 2 && vi == smaller - 1 && !nn_nodes.IsKey(smaller_id)) {
+            TSnapDetail::transitiveTransform(comps[cc0], comps[cc1]);
+            banned.AddDat(cc0);
+          }*/
+        }
+      }
+    }
+
+    // add transitivity connection
+
+    /*
+    int max_out_tp = -1;
+    int max_out = -1;
+    for (THashKeyDatI<TInt, TInt> it = TEdges.BegI(); !it.IsEnd(); it++) {
+      if (it.GetDat() > max_out) {
+        max_out = it.GetDat();
+        max_out_tp = it.GetKey();
+      }
+    }
+    */
+    for (int cc0 = 0; cc0 < comps.Len(); cc0++) {
+      if (!banned.IsKey(cc0) /*&& TSnapDetail::chekIfCrossing(comps[cc0], t, first, last, max_out_tp)*/)
+        elements.AddDat(cc0, comps[cc0]);
+    }
+    
+
+    TIntV communitiesAtT;
+    for (int cc = 0; cc < elements.Len(); cc++) {
+      components.AddDat(newId, elements[cc]);
+    communitiesAtT.Add(newId);
+    newId++;
+    }
+    if (elements.Len() > 0)
+      ct.AddDat(focusTimePoint, communitiesAtT);
+    
+  } // FOR
+
+  // connecting neighbouring components
+  THashKeyDatI<TInt, TIntV> it = ct.BegI();
+  THashKeyDatI<TInt, TIntV> prelast = ct.EndI()--;
+  prelast--;
+  while (it < prelast) {
+    TIntV cms0;
+    TIntV cms1;
+    int focusTimePoint;
+    int focusTimePoint1;
+    focusTimePoint = it.GetKey();
+    cms0 = it.GetDat();
+    it++;
+    focusTimePoint1 = it.GetKey();
+    cms1 = it.GetDat();
+    if (cms0.Len() > 0 && cms1.Len() > 0) {
+      for (int i = 0; i < cms0.Len(); i++) {
+        for (int j = 0; j < cms1.Len(); j++) {
+          TIntV ids0 = components.GetDat(cms0[i]);
+          TIntV ids1 = components.GetDat(cms1[j]);
+          int smaller = ids0.Len();
+          if (ids1.Len() < smaller)
+            smaller = ids1.Len();
+
+          if (TSnapDetail::vectorIntersect(ids0, ids1) == smaller || (smaller > 2 && TSnapDetail::vectorIntersect(ids0, ids1) == (smaller -1 ))) {
+            if (!gFinal->IsNode(cms0[i])) {
+              gFinal->AddNode(cms0[i]);
+              tFinal.AddDat(cms0[i], focusTimePoint);
+            }
+            if (!gFinal->IsNode(cms1[j])) {
+              gFinal->AddNode(cms1[j]);
+              tFinal.AddDat(cms1[j], focusTimePoint1);
+            }
+            gFinal->AddEdge(cms0[i], cms1[j]);
+          }
+        }
+      }
+    }
+  }// end connecting components 
+
+  // collapsing chains
+  if (collapse) {
+    for (TNGraph::TNodeI NI = gFinal->BegNI(); NI < gFinal->EndNI(); NI++) {
+      if (NI.GetInDeg() == 1 && NI.GetOutDeg() == 1)
+        if (gFinal->GetNI(NI.GetInNId(0)).GetOutDeg() == 1 && gFinal->GetNI(NI.GetOutNId(0)).GetInDeg() == 1)
+        {
+        gFinal->AddEdge(NI.GetInNId(0), NI.GetOutNId(0));
+        gFinal->DelEdge(NI.GetInNId(0), NI.GetId());
+        tFinal.DelKey(NI.GetId());
+        gFinal->DelNode(NI.GetId());
+        }
+    }
+  }// end collapsing
+
+}
+
+namespace TSnapDetail {
+/// Clauset-Newman-Moore community detection method.
+/// At every step two communities that contribute maximum positive value to global modularity are merged.
+/// See: Finding community structure in very large networks, A. Clauset, M.E.J. Newman, C. Moore, 2004
+class TCNMQMatrix {
+private:
+  struct TCmtyDat {
+    double DegFrac;
+    TIntFltH NIdQH;
+    int MxQId;
+    TCmtyDat() : MxQId(-1) { }
+    TCmtyDat(const double& NodeDegFrac, const int& OutDeg) : 
+      DegFrac(NodeDegFrac), NIdQH(OutDeg), MxQId(-1) { }
+    void AddQ(const int& NId, const double& Q) {
+      const bool WasMx = MxQId != -1 && GetMxQNId() == NId;
+      NIdQH.AddDat(NId, Q);
+      if (WasMx) { UpdateMaxQ(); return; } // its value may have dropped
+      if (MxQId == -1 || NIdQH[MxQId]<Q) { MxQId = NIdQH.GetKeyId(NId); }
+    }
+    void UpdateMaxQ() {
+      MxQId = -1;
+      for (int i = -1; NIdQH.FNextKeyId(i);) {
+        if (MxQId == -1 || NIdQH[MxQId]< NIdQH[i]) { MxQId = i; }
+      }
+    }
+    void DelLink(const int& K) {
+      const int NId = GetMxQNId();
+      NIdQH.DelKey(K); if (NId == K) { UpdateMaxQ(); }
+    }
+    int GetMxQNId() const { return NIdQH.GetKey(MxQId); }
+    double GetMxQ() const { return NIdQH[MxQId]; }
+  };
+private:
+  THash<TInt, TCmtyDat> CmtyQH;
+  THeap<TFltIntIntTr> MxQHeap;
+  TUnionFind CmtyIdUF;
+  double Q;
+public:
+  TCNMQMatrix(const PUNGraph& Graph) : CmtyQH(Graph->GetNodes()), 
+    MxQHeap(Graph->GetNodes()), CmtyIdUF(Graph->GetNodes()) {
+    Init(Graph);
+  }
+  void Init(const PUNGraph& Graph) {
+    const double M = 0.5 / Graph->GetEdges(); // 1/2m
+    Q = 0.0;
+    for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+      CmtyIdUF.Add(NI.GetId());
+      const int OutDeg = NI.GetOutDeg();
+      if (OutDeg == 0) { continue; }
+      TCmtyDat& Dat = CmtyQH.AddDat(NI.GetId(), TCmtyDat(M * OutDeg, OutDeg));
+      for (int e = 0; e < NI.GetOutDeg(); e++) {
+        const int DstNId = NI.GetOutNId(e);
+        const double DstMod = 2 * M * (1.0 - OutDeg * Graph->GetNI(DstNId).GetOutDeg() * M);
+        Dat.AddQ(DstNId, DstMod);
+        if (NI.GetId() < DstNId) {
+          MxQHeap.Add(TFltIntIntTr(DstMod, NI.GetId(), DstNId));
+        }
+      }
+      Q += -1.0*TMath::Sqr(OutDeg*M);
+    }
+    MxQHeap.MakeHeap();
+  }
+  TFltIntIntTr FindMxQEdge() {
+    while (true) {
+      if (MxQHeap.Empty()) { break; }
+      const TFltIntIntTr TopQ = MxQHeap.PopHeap();
+      if (!CmtyQH.IsKey(TopQ.Val2) || !CmtyQH.IsKey(TopQ.Val3)) { continue; }
+      const TIntFltH& NIdQH = CmtyQH.GetDat(TopQ.Val2).NIdQH; // skip values that have changed since
+      if (!NIdQH.IsKey(TopQ.Val3) || TopQ.Val1 != NIdQH.GetDat(TopQ.Val3)) { continue; }
+      return TopQ;
+    }
+    return TFltIntIntTr(-1, -1, -1);
+  }
+
+  bool MergeBestQ() {
+    const TFltIntIntTr TopQ = FindMxQEdge();
+    if (TopQ.Val1 <= 0.0) { return false; }
+    // joint communities
+    const int I = TopQ.Val3;
+    const int J = TopQ.Val2;
+    CmtyIdUF.Union(I, J); // join
+    Q += TopQ.Val1;
+    TCmtyDat& DatJ = CmtyQH.GetDat(J);
+    { TCmtyDat& DatI = CmtyQH.GetDat(I);
+    DatI.DelLink(J);  DatJ.DelLink(I);
+    for (int i = -1; DatJ.NIdQH.FNextKeyId(i); ) {
+      const int K = DatJ.NIdQH.GetKey(i);
+      TCmtyDat& DatK = CmtyQH.GetDat(K);
+      double NewQ = DatJ.NIdQH[i];
+      if (DatI.NIdQH.IsKey(K)) { NewQ = NewQ + DatI.NIdQH.GetDat(K);  DatK.DelLink(I); }     // K connected to I and J
+      else { NewQ = NewQ - 2 * DatI.DegFrac*DatK.DegFrac; }  // K connected to J not I
+      DatJ.AddQ(K, NewQ);
+      DatK.AddQ(J, NewQ);
+      MxQHeap.PushHeap(TFltIntIntTr(NewQ, TMath::Mn(J, K), TMath::Mx(J, K)));
+    }
+    for (int i = -1; DatI.NIdQH.FNextKeyId(i); ) {
+      const int K = DatI.NIdQH.GetKey(i);
+      if (!DatJ.NIdQH.IsKey(K)) { // K connected to I not J
+        TCmtyDat& DatK = CmtyQH.GetDat(K);
+        const double NewQ = DatI.NIdQH[i] - 2 * DatJ.DegFrac*DatK.DegFrac; 
+        DatJ.AddQ(K, NewQ);
+        DatK.DelLink(I);
+        DatK.AddQ(J, NewQ);
+        MxQHeap.PushHeap(TFltIntIntTr(NewQ, TMath::Mn(J, K), TMath::Mx(J, K)));
+      }
+    }
+    DatJ.DegFrac += DatI.DegFrac; }
+    if (DatJ.NIdQH.Empty()) { CmtyQH.DelKey(J); } // isolated community (done)
+    CmtyQH.DelKey(I);
+    return true;
+  }
+  static double CmtyCMN(const PUNGraph& Graph, TCnComV& CmtyV) {
+    TCNMQMatrix QMatrix(Graph);
+    // maximize modularity
+    while (QMatrix.MergeBestQ()) {}
+    // reconstruct communities
+    THash<TInt, TIntV> IdCmtyH;
+    for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
+      IdCmtyH.AddDat(QMatrix.CmtyIdUF.Find(NI.GetId())).Add(NI.GetId());
+    }
+    CmtyV.Gen(IdCmtyH.Len());
+    for (int j = 0; j < IdCmtyH.Len(); j++) {
+      CmtyV[j].NIdV.Swap(IdCmtyH[j]);
+    }
+    return QMatrix.Q;
+  }
+};
+
+} // namespace TSnapDetail
+
+double CommunityCNM(const PUNGraph& Graph, TCnComV& CmtyV) {
+  return TSnapDetail::TCNMQMatrix::CmtyCMN(Graph, CmtyV);
+}
+
+}; //namespace TSnap
-- 
2.43.0


From 8c8c7cb1d460e7d30ebce5df6a282a94bb62398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 071/147] fix: GetWeightedPageRankMP propagates the initial
 ranks in every iteration

---
 snap/snap-core/centr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 6d4d224..0c3458b 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -468,7 +468,7 @@ namespace TSnap {
             TNEANet::TNodeI NI = NV[j];
             int Id = NI.GetId();
             OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
-            PRankV[Id] = 1/NNodes;
+            PRankV[Id] = 1.0/NNodes;
         }
 
         TFltV TmpV(NNodes);
@@ -487,7 +487,7 @@ namespace TSnap {
                     const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
 
                     if (OutWeight > 0) {
-                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
+                        Tmp += PRankV[InNId] * Weight / OutWeight;
                     }
                 }
                 TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-- 
2.43.0


From 656101fd6a8899282ca7fc216e8d75d619b5f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 072/147] fix: Scheduler::execute waits and releases a lock
 that it never takes

---
 rdf3x/src/rts/Scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 779a9cd..66d9aba 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -133,6 +133,7 @@ void Scheduler::execute(Operator* root)
    root->getAsyncInputCandidates(*this);
 
    // Execute all asynchronous execution points
+   workerLock.lock();
    while (!registeredPoints.empty()) {
       // Is the worker queue full?
       if ((workQueue.size()+activeWorkers)>=threads) {
-- 
2.43.0


From 1c667a092649c7de070b7aab1be1ff8bbc46cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 073/147] fix: a Scheduler destroyed before its workers have
 started leaves them with freed memory

---
 rdf3x/src/rts/Scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 66d9aba..b40fef6 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -31,7 +31,8 @@ Scheduler::Scheduler()
    if (threads) {
       workerLock.lock();
       for (unsigned index=0;index<threads;index++)
-         Thread::start(asyncWorker,this);
+         if (Thread::start(asyncWorker,this))
+            workerThreads++;
       workerLock.unlock();
    }
 }
@@ -75,9 +76,8 @@ void Scheduler::executeSingleThreaded(Operator* root)
 void Scheduler::performWork()
    // Perform the work of a worker thread
 {
-   // Register as worker
+   // The constructor registered this worker
    workerLock.lock();
-   workerThreads++;
 
    // Perform the work
    while (!workersDie) {
-- 
2.43.0


From 880285a647ba89140287be6247245bdeba43c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 074/147] fix: Event::timedWait ends up to 900 ms too early

---
 rdf3x/src/infra/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/infra/Event.cpp b/rdf3x/src/infra/Event.cpp
index 5279898..61d790e 100644
--- a/rdf3x/src/infra/Event.cpp
+++ b/rdf3x/src/infra/Event.cpp
@@ -103,7 +103,7 @@ bool Event::timedWait(Mutex& mutex,unsigned timeoutMilli)
    return !timeout;
 #else
    struct timeval now; gettimeofday(&now,0);
-   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/10000);
+   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/1000);
    uint64_t future=nowT+timeoutMilli;
    struct timespec abstime;
    abstime.tv_sec=future/1000; abstime.tv_nsec=(future%1000)*1000000;
-- 
2.43.0


From a18cd91c926b0dc22c4b089fedd093f5da31d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 075/147] fix: the SPARQL lexer accepts strings that are not
 terminated

---
 rdf3x/src/cts/SPARQLLexer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 8f4f71a..1e299d9 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -192,9 +192,11 @@ SPARQLLexer::Token SPARQLLexer::getNext()
                     break;
                 ++pos;
             }
+            // Not terminated?
+            if (pos == input.end()) return Error;
             tokenEnd = pos;
             hasTokenEnd = true;
-            if (pos != input.end()) ++pos;
+            ++pos;
             return String;
         // String
         case '\"':
@@ -209,9 +211,11 @@ SPARQLLexer::Token SPARQLLexer::getNext()
                     break;
                 ++pos;
             }
+            // Not terminated?
+            if (pos == input.end()) return Error;
             tokenEnd = pos;
             hasTokenEnd = true;
-            if (pos != input.end()) ++pos;
+            ++pos;
             return String;
         // Variables
         case '?':
-- 
2.43.0


From 1e89fedd12c4a21beb70f3f84329a824df154785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 076/147] fix: the SPARQL lexer accepts variables without a
 name

---
 rdf3x/src/cts/SPARQLLexer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 1e299d9..02f9f3e 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -227,6 +227,8 @@ SPARQLLexer::Token SPARQLLexer::getNext()
                     ++pos;
                 } else break;
             }
+            // No name?
+            if (pos == tokenStart) return Error;
             tokenEnd = pos;
             hasTokenEnd = true;
             return Variable;
-- 
2.43.0


From 57d60cdb8ebef6e89895642c5d9116de7c9161b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 077/147] fix: a SPARQL identifier before several dots ends
 with a dot

---
 rdf3x/src/cts/SPARQLLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 02f9f3e..0504d34 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -275,7 +275,7 @@ SPARQLLexer::Token SPARQLLexer::getNext()
             }
             if (pos == tokenStart)
                 return Error;
-	    if (*(pos-1) == '.') {
+	    while (*(pos-1) == '.') {
 		// The last character of an identifier may not be a '.'.
 		pos--;
 	    }
-- 
2.43.0


From 89867d5be812fbe49f45ba1c36a755825c3a7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 078/147] fix: the end of a SPARQL text has the value of the
 token before it

---
 rdf3x/src/cts/SPARQLLexer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 0504d34..3689c35 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -282,6 +282,8 @@ SPARQLLexer::Token SPARQLLexer::getNext()
             return Identifier;
         }
     }
+    // The end has no text
+    tokenStart = pos;
     return Eof;
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 1ec1de7ddc471055176e8767932ce6f6ce36509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 079/147] fix: SPARQL variables, IRIs and strings are taken for
 keywords

---
 rdf3x/src/cts/SPARQLLexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 3689c35..3f6fde3 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -331,6 +331,9 @@ std::string SPARQLLexer::getLiteralValue() const
 bool SPARQLLexer::isKeyword(const char* keyword) const
 // Check if the current token matches a keyword
 {
+    // IRIs, strings, variables and numbers are no keywords
+    if (hasTokenEnd) return false;
+
     std::string::const_iterator iter = tokenStart, limit = hasTokenEnd ? tokenEnd : pos;
 
     while (iter != limit) {
-- 
2.43.0


From 390003d0b04324fad35b72fcf4966a3702e45efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 080/147] fix: control characters in SPARQL literals are not
 decoded

---
 rdf3x/src/cts/SPARQLLexer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 3f6fde3..a988e2c 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -322,6 +322,13 @@ std::string SPARQLLexer::getLiteralValue() const
         if (c == '\\') {
             if ((++iter) == limit) break;
             c = *iter;
+            switch (c) {
+            case 't': c = '\t'; break;
+            case 'b': c = '\b'; break;
+            case 'n': c = '\n'; break;
+            case 'r': c = '\r'; break;
+            case 'f': c = '\f'; break;
+            }
         }
         result += c;
     }
-- 
2.43.0


From 0d94f7bae1c4335da737a580a80372f479f85949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 081/147] fix: escapes in SPARQL literals are decoded twice

---
 rdf3x/src/cts/SPARQLParser.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..c5d15c1 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -405,18 +405,6 @@ void SPARQLParser::parseRDFLiteral(std::string& value, Element::SubType& subType
         throw ParserException("literal expected");
     subType = Element::None;
     value = lexer.getLiteralValue();
-    if (value.find('\\') != string::npos) {
-        string v;
-        v.swap(value);
-        for (string::const_iterator iter = v.begin(), ilimit = v.end(); iter != ilimit; ++iter) {
-            char c = (*iter);
-            if (c == '\\') {
-                if ((++iter) == ilimit) break;
-                c = *iter;
-            }
-            value += c;
-        }
-    }
 
     SPARQLLexer::Token token = lexer.getNext();
     if (token == SPARQLLexer::At) {
-- 
2.43.0


From dd9f90dfed6672b3a1e2f2aa353a9ce0fbd2314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 082/147] fix: copies of a SPARQL filter lose DISTINCT and
 nested patterns

---
 rdf3x/src/cts/SPARQLParser.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index c5d15c1..7d21869 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -49,14 +49,14 @@ SPARQLParser::Pattern::~Pattern()
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), pointerToSubquery(0),
-    pointerToSubPattern(0)
+    : type(Or), arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), distinct(false),
+    pointerToSubquery(0), pointerToSubPattern(0)
       // Constructor
 {
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
+    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), distinct(other.distinct), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
       // Copy-Constructor
 {
     if (other.arg1)
@@ -102,14 +102,17 @@ SPARQLParser::Filter& SPARQLParser::Filter::operator=(const Filter& other)
             arg3 = new Filter(*other.arg3);
         else
             arg3 = 0;
+        delete arg4;
         if (other.arg4)
             arg4 = new Filter(*other.arg4);
         else
             arg4 = 0;
         value = other.value;
-        value = other.value;
         valueType = other.valueType;
         valueArg = other.valueArg;
+        distinct = other.distinct;
+        pointerToSubquery = other.pointerToSubquery;
+        pointerToSubPattern = other.pointerToSubPattern;
     }
     return *this;
 }
-- 
2.43.0


From 24287976521c188a9e19ac89eb5daceb37824f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 083/147] fix: BIND, MINUS and VALUES of a nested SPARQL group
 are dropped

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 7d21869..0d01605 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1454,6 +1454,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
                 group.optional.insert(group.optional.end(), newGroup.optional.begin(), newGroup.optional.end());
                 group.unions.insert(group.unions.end(), newGroup.unions.begin(), newGroup.unions.end());
                 group.subqueries.insert(group.subqueries.end(), newGroup.subqueries.begin(), newGroup.subqueries.end());
+                group.assignments.insert(group.assignments.end(), newGroup.assignments.begin(), newGroup.assignments.end());
+                group.minuses.insert(group.minuses.end(), newGroup.minuses.begin(), newGroup.minuses.end());
+                group.values.insert(group.values.end(), newGroup.values.begin(), newGroup.values.end());
             }
 
             if (token != SPARQLLexer::Dot)
-- 
2.43.0


From f281045020280c2dff561a0769abd6efe4b05862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 084/147] fix: OPTIONAL swallows the token after it, whatever
 it is

---
 rdf3x/src/cts/SPARQLParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 0d01605..f1d95e3 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1361,7 +1361,8 @@ void SPARQLParser::parseGraphPattern(PatternGroup & group)
             return;
         } else if (token == SPARQLLexer::Identifier) {
             if (lexer.isKeyword("optional")) {
-                lexer.getNext();
+                if (lexer.getNext() != SPARQLLexer::LCurly)
+                    throw ParserException("'{' expected");
                 PatternGroup optionalGroup;
                 parseGroupGraphPattern(optionalGroup);
                 group.optional.push_back(optionalGroup);
@@ -1413,7 +1414,8 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             return;
 
         } else if (lexer.isKeyword("optional")) {
-            lexer.getNext();
+            if (lexer.getNext() != SPARQLLexer::LCurly)
+                throw ParserException("'{' expected");
             PatternGroup optionalGroup;
             parseGroupGraphPattern(optionalGroup);
             group.optional.push_back(optionalGroup);
-- 
2.43.0


From b30caab7e95bf7f43102ddf5887f4c952b72a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 085/147] fix: VALUES accepts variables as values and rows of
 any length

---
 rdf3x/src/cts/SPARQLParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index f1d95e3..52eee7b 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1534,6 +1534,8 @@ void SPARQLParser::parseValues(PatternGroup & group) {
                 unsigned id = 0;
                 while (id < variables.size()) {
                     SPARQLParser::Element e = parsePatternElement(group, localVars);
+                    if (e.type == Element::Variable)
+                        throw ParserException("Expected a constant");
                     values.push_back(e);
                     id += 1;
                 }
@@ -1543,8 +1545,12 @@ void SPARQLParser::parseValues(PatternGroup & group) {
                 }
                 token = lexer.getNext();
             } else {
+                if (variables.size() != 1)
+                    throw ParserException("Expected (");
                 lexer.unget(token);
                 SPARQLParser::Element e = parsePatternElement(group, localVars);
+                if (e.type == Element::Variable)
+                    throw ParserException("Expected a constant");
                 values.push_back(e);
                 token = lexer.getNext();
             }
-- 
2.43.0


From 6043a51ff4a0bd49171f46fdbb14543488b49034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 086/147] fix: VALUES is rejected unless it follows a triple
 pattern

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 52eee7b..d8ebb2c 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1489,6 +1489,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("minus")) {
                 parseMinus(group);
+            } else if (token == SPARQLLexer::Identifier
+                    && lexer.isKeyword("values")) {
+                parseValues(group);
             } else {
                 lexer.unget(token);
                 parseGraphPattern(group);
-- 
2.43.0


From 5c7c05999467a06a5736697def6aa4f311283378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 087/147] fix: a '.' after MINUS or VALUES is rejected

---
 rdf3x/src/cts/SPARQLParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index d8ebb2c..08fb82f 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1201,6 +1201,10 @@ void SPARQLParser::parseMinus(PatternGroup & group)
         throw ParserException("expected {");
     }
 
+    if (lexer.hasNext(SPARQLLexer::Dot)) {
+        lexer.getNext();
+    }
+
 }
 //---------------------------------------------------------------------------
 void SPARQLParser::parseFilter(PatternGroup & group, map<string, unsigned>& localVars)
@@ -1562,6 +1566,10 @@ void SPARQLParser::parseValues(PatternGroup & group) {
         throw ParserException("'{' expected");
     }
     group.values.push_back(SPARQLParser::PatternGroup::ValueBindings(variables, values));
+
+    if (lexer.hasNext(SPARQLLexer::Dot)) {
+        lexer.getNext();
+    }
 }
 //---------------------------------------------------------------------------
 void SPARQLParser::parseAssignment(PatternGroup & group,
-- 
2.43.0


From e85ff502498de663d432cebd36a6e2f4b67a7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 088/147] fix: GROUP BY (expression) and GROUP BY (expression
 AS ?v) are rejected

---
 rdf3x/src/cts/SPARQLParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 08fb82f..1e9f7d8 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1659,13 +1659,13 @@ void SPARQLParser::parseGroupBy(std::map<std::string, unsigned>& localVars)
             g.expr = parseExpression(localVars);
             token = lexer.getNext();
             if (lexer.isKeyword("AS")) {
-                lexer.getNext();
-                if (token != SPARQLLexer::Variable) {
+                if (lexer.getNext() != SPARQLLexer::Variable) {
                     throw ParserException("variable expected after AS");
                 }
                 g.id = nameVariable(lexer.getTokenValue());
+                token = lexer.getNext();
             }
-            if (lexer.getNext() != SPARQLLexer::RParen) {
+            if (token != SPARQLLexer::RParen) {
                 throw ParserException("')' expected");
             }
         } else {
-- 
2.43.0


From 9f5d379c85c272a750efba115102a2d39a00c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 089/147] fix: HAVING followed by ORDER BY, LIMIT or OFFSET is
 rejected

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 1e9f7d8..0bc96be 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1692,6 +1692,9 @@ void SPARQLParser::parseHaving(std::map<std::string, unsigned>& localVars)
         if (token != SPARQLLexer::LParen && token != SPARQLLexer::Identifier && token != SPARQLLexer::IRI) {
             break;
         }
+        if (lexer.isKeyword("order") || lexer.isKeyword("limit") || lexer.isKeyword("offset")) {
+            break;
+        }
     }
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From fbb5c109f70d284d2ad5e9e674b9d662a4bcef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 090/147] fix: ORDER BY is rejected in subqueries and with
 bracketed expressions or calls

---
 rdf3x/src/cts/SPARQLParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 0bc96be..e134558 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1742,11 +1742,18 @@ void SPARQLParser::parseOrderBy(std::map<std::string, unsigned>& localVars)
             o.expr = NULL;
             o.descending = false;
             order.push_back(o);
-        } else if (token == SPARQLLexer::Eof) {
+        } else if (token == SPARQLLexer::LParen || token == SPARQLLexer::IRI) {
             lexer.unget(token);
-            return;
-        } else {
+            Order o;
+            o.id = ~0u;
+            o.descending = false;
+            o.expr = parseConstraint(localVars);
+            order.push_back(o);
+        } else if (order.empty() && token != SPARQLLexer::Eof) {
             throw ParserException("variable expected in order-by clause");
+        } else {
+            lexer.unget(token);
+            return;
         }
     }
 }
-- 
2.43.0


From 1d313f7a4f793c42c4c1a646a099735776c5f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 091/147] fix: WHERE in mixed case is rejected

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index e134558..c7109fd 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -351,8 +351,7 @@ void SPARQLParser::parseProjection(PatternGroup& group)
                             std::cerr << p.first << "\t";
                     }
                 }
-            } else if (token == SPARQLLexer::Identifier &&
-                    (lexer.getTokenValue() != "where" && lexer.getTokenValue() != "WHERE")) {
+            } else if (token == SPARQLLexer::Identifier && !lexer.isKeyword("where")) {
                 lexer.unget(token);
                 map<string, unsigned> localVars;
                 Assignment assignment;
-- 
2.43.0


From c9106f63c0adca3eb2804f9578b5dfda88dd5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 092/147] fix: large numbers in LIMIT and OFFSET overflow

---
 rdf3x/src/cts/SPARQLParser.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index c7109fd..16d6082 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1757,6 +1757,19 @@ void SPARQLParser::parseOrderBy(std::map<std::string, unsigned>& localVars)
     }
 }
 //---------------------------------------------------------------------------
+static unsigned parseCount(const string& digits)
+    // Parse the number of a limit or an offset
+{
+    unsigned long long result = 0;
+    for (char c : digits) {
+        result = result * 10 + (c - '0');
+        // ~0u means that there is no limit
+        if (result >= ~0u)
+            throw SPARQLParser::ParserException("the number " + digits + " is too large");
+    }
+    return result;
+}
+//---------------------------------------------------------------------------
 void SPARQLParser::parseLimitOffset()
     // Parse the limit/offset part if any
 {
@@ -1773,7 +1786,7 @@ void SPARQLParser::parseLimitOffset()
                 hadLimit = true;
                 if (lexer.getNext() != SPARQLLexer::Integer)
                     throw ParserException("number expected after 'limit'");
-                limit = atoi(lexer.getTokenValue().c_str());
+                limit = parseCount(lexer.getTokenValue());
                 if (limit <= 0)
                     throw ParserException("invalid limit specifier");
             } else {
@@ -1782,9 +1795,7 @@ void SPARQLParser::parseLimitOffset()
                 }
                 if (lexer.getNext() != SPARQLLexer::Integer)
                     throw ParserException("number expected after 'offset'");
-                offset = atoi(lexer.getTokenValue().c_str());
-                if (offset < 0)
-                    throw ParserException("invalid offset specifier");
+                offset = parseCount(lexer.getTokenValue());
             }
         } else {
             lexer.unget(token);
-- 
2.43.0


From a19ac666defa73da29c369661f84b66a84ddb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 093/147] fix: any token is taken for a name after 'prefix:' in
 SPARQL expressions

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 16d6082..d187ec7 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -832,7 +832,8 @@ SPARQLParser::Filter* SPARQLParser::parsePrimaryExpression(map<string, unsigned>
             if (dotToken != SPARQLLexer::Token::Colon) {
                 throw ParserException("Expected :");
             }
-            lexer.getNext();
+            if (lexer.getNext() != SPARQLLexer::Identifier)
+                throw ParserException("identifier expected after ':'");
             unique_ptr<Filter> result(new Filter);
             result->type = Filter::IRI;
             result->value = prefixes.find(prefix)->second + lexer.getTokenValue();
-- 
2.43.0


From dd3ea972e7ea95f2f3f8308aad199f8d4d3d3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 094/147] fix: the same blank node label in two triple patterns
 of a group means two nodes

---
 rdf3x/include/cts/parser/SPARQLParser.hpp |  2 +-
 rdf3x/src/cts/SPARQLParser.cpp            | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdf3x/include/cts/parser/SPARQLParser.hpp b/rdf3x/include/cts/parser/SPARQLParser.hpp
index 9b4dc8a..06eb438 100644
--- a/rdf3x/include/cts/parser/SPARQLParser.hpp
+++ b/rdf3x/include/cts/parser/SPARQLParser.hpp
@@ -227,7 +227,7 @@ class SPARQLParser {
         /// Parse blank node patterns
         Element parseBlankNode(PatternGroup& group, std::map<std::string, unsigned>& localVars);
         // Parse a graph pattern
-        void parseGraphPattern(PatternGroup& group);
+        void parseGraphPattern(PatternGroup& group, std::map<std::string, unsigned>& localVars);
         // Parse an assignment (SPARQL 1.1)
         void parseAssignment(PatternGroup& group, std::vector<Assignment> &assignments);
         // Parse VALUES (SPARQL 1.1)
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index d187ec7..fe5e4e6 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1335,11 +1335,9 @@ SPARQLParser::Element SPARQLParser::parsePatternElement(PatternGroup & group, ma
     return result;
 }
 //---------------------------------------------------------------------------
-void SPARQLParser::parseGraphPattern(PatternGroup & group)
+void SPARQLParser::parseGraphPattern(PatternGroup & group, map<string, unsigned>& localVars)
     // Parse a graph pattern
 {
-    map<string, unsigned> localVars;
-
     // Parse the first pattern
     Element subject = parsePatternElement(group, localVars);
     Element predicate = parsePatternElement(group, localVars);
@@ -1399,6 +1397,9 @@ void SPARQLParser::parseGraphPattern(PatternGroup & group)
 void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
     // Parse a group of patterns
 {
+    // The labels of blank nodes are shared by the patterns of a group
+    map<string, unsigned> localVars;
+
     while (true) {
         SPARQLLexer::Token token = lexer.getNext();
 
@@ -1479,7 +1480,6 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             // Distinguish filter conditions
             if ((token == SPARQLLexer::Identifier)
                     && (lexer.isKeyword("filter"))) {
-                map<string, unsigned> localVars;
                 parseFilter(group, localVars);
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("bind")) {
@@ -1498,7 +1498,7 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
                 parseValues(group);
             } else {
                 lexer.unget(token);
-                parseGraphPattern(group);
+                parseGraphPattern(group, localVars);
             }
         } else if (token == SPARQLLexer::RCurly) {
             break;
-- 
2.43.0


From c6d372bae1c8d6ee5a7de322ea76c923b76a1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 095/147] fix: SELECT * projects variables that the pattern
 does not bind

---
 rdf3x/src/cts/SPARQLParser.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index fe5e4e6..aa7f559 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1808,6 +1808,26 @@ void SPARQLParser::parseLimitOffset()
     }
 }
 //---------------------------------------------------------------------------
+static void collectVisible(const SPARQLParser::PatternGroup& group, set<unsigned>& visible)
+    // Collect the variables that a group can bind
+{
+    for (const auto& p : group.patterns)
+        for (const auto* e : {&p.subject, &p.predicate, &p.object})
+            if (e->type == SPARQLParser::Element::Variable)
+                visible.insert(e->id);
+    for (const auto& a : group.assignments)
+        visible.insert(a.outputVar.id);
+    for (const auto& v : group.values)
+        visible.insert(v.variables.begin(), v.variables.end());
+    for (const auto& q : group.subqueries)
+        visible.insert(q->projectionBegin(), q->projectionEnd());
+    for (const auto& g : group.optional)
+        collectVisible(g, visible);
+    for (const auto& u : group.unions)
+        for (const auto& g : u)
+            collectVisible(g, visible);
+}
+//---------------------------------------------------------------------------
 void SPARQLParser::parse(bool multiQuery, bool silentOutputVars)
     // Parse the input
 {
@@ -1843,8 +1863,11 @@ void SPARQLParser::parse(bool multiQuery, bool silentOutputVars)
 
     // Fixup empty projections (i.e. *)
     if (!projection.size()) {
+        set<unsigned> visible;
+        collectVisible(patterns, visible);
         for (map<string, unsigned>::const_iterator iter = namedVariables.begin(), ilimit = namedVariables.end(); iter != ilimit; ++iter)
-            projection.push_back((*iter).second);
+            if (visible.count((*iter).second))
+                projection.push_back((*iter).second);
     }
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 0857efa471c3d6ed099e66412a12c3736da03fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:11 +0000
Subject: [PATCH 096/147] fix: a second OFFSET is accepted and replaces the
 first

---
 rdf3x/src/cts/SPARQLParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index aa7f559..22f9124 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1794,6 +1794,7 @@ void SPARQLParser::parseLimitOffset()
                 if (hadOffset) {
                     throw ParserException("offset specified twice");
                 }
+                hadOffset = true;
                 if (lexer.getNext() != SPARQLLexer::Integer)
                     throw ParserException("number expected after 'offset'");
                 offset = parseCount(lexer.getTokenValue());
-- 
2.43.0


From 31ba225130bc2f437bd7715a281c14aace75de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:11 +0000
Subject: [PATCH 097/147] fix: projecting COUNT(*) without a name reads through
 a null pointer

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 22f9124..5229712 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -200,7 +200,8 @@ string _filter2string(SPARQLParser::Filter *filter) {
     switch (filter->type) {
         case SPARQLParser::Filter::Aggregate_count:
             out += "COUNT(";
-            out += _filter2string(filter->arg1);
+            // COUNT(*) has no argument
+            out += filter->arg1 ? _filter2string(filter->arg1) : "*";
             out += ")";
             break;
         case SPARQLParser::Filter::Aggregate_min:
-- 
2.43.0


From 02ed7c1390da1819e241255d14b996d217a0548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:39 +0000
Subject: [PATCH 098/147] fix: a token between a prefix and its ':' is
 swallowed

---
 rdf3x/src/cts/SPARQLParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 5229712..a8fcbcf 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -427,8 +427,9 @@ void SPARQLParser::parseRDFLiteral(std::string& value, Element::SubType& subType
                     //Read the remaining as prefix
                     lexer.getNext();
                     prefix = prefix + string("-") + lexer.getTokenValue();
+                    t = lexer.getNext();
                 }
-                if (lexer.getNext() != SPARQLLexer::Colon)
+                if (t != SPARQLLexer::Colon)
                     throw ParserException("':' expected after '" + prefix + "'");
             }
 
@@ -1318,8 +1319,9 @@ SPARQLParser::Element SPARQLParser::parsePatternElement(PatternGroup & group, ma
                     //Read the remaining as prefix
                     lexer.getNext();
                     prefix = prefix + string("-") + lexer.getTokenValue();
+                    t = lexer.getNext();
                 }
-                if (lexer.getNext() != SPARQLLexer::Colon)
+                if (t != SPARQLLexer::Colon)
                     throw ParserException("':' expected after '" + prefix + "'");
             }
 
-- 
2.43.0


From 248b62846975178083d85adbeb245fa97a4c7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:39 +0000
Subject: [PATCH 099/147] fix: a NOT without IN after an expression is
 swallowed

---
 rdf3x/src/cts/SPARQLParser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index a8fcbcf..1d82f22 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1087,9 +1087,7 @@ SPARQLParser::Filter* SPARQLParser::parseRelationalExpression(map<string, unsign
                             break;
                         }
                     } else {
-                        lexer.unget(t2);
-                        lexer.unget(token);
-                        break;
+                        throw ParserException("'in' expected after 'not'");
                     }
                 } else {
                     lexer.unget(token);
-- 
2.43.0


From 8fcf6e6989aeab4ae0899ad18bef99cd38059aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:31 +0000
Subject: [PATCH 100/147] fix: a variable that occurs twice in a triple pattern
 must have the same value in both places

---
 rdf3x/src/cts/CodeGen.cpp | 24 ++++++++++++++++++++++--
 rdf3x/src/cts/PlanGen.cpp |  4 ++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..d3c2099 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,24 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* addRepeatedSelections(Runtime& runtime, Operator* input, const QueryGraph::Node& node, Register* subject, Register* predicate, Register* object)
+    // A variable that occurs more than once in a pattern must be bound to the same value everywhere
+{
+    Selection::Predicate* predicates = 0;
+    auto same = [&](Register* a, Register* b) {
+        if ((!a) || (!b))
+            return; // the position is not read
+        Selection::Predicate* p = new Selection::Equal(new Selection::Variable(a), new Selection::Variable(b));
+        predicates = predicates ? new Selection::And(predicates, p) : p;
+    };
+    if ((!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate)) same(subject, predicate);
+    if ((!node.constSubject) && (!node.constObject) && (node.subject == node.object)) same(subject, object);
+    if ((!node.constPredicate) && (!node.constObject) && (node.predicate == node.object)) same(predicate, object);
+    if (!predicates)
+        return input;
+    return new Selection(input, runtime, predicates, input->getExpectedOutputCardinality());
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -103,11 +121,12 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    Operator* scan = IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedSelections(runtime, scan, node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
@@ -126,11 +145,12 @@ static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsign
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //return runtime.getDifferentialIndex().createAggregatedScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return AggregatedIndexScan::create(runtime.getDatabase(), order,
+    Operator* scan = AggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedSelections(runtime, scan, node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..7e122fe 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -466,6 +466,10 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
 static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsigned val)
     // Check if a variable is unused outside its primary pattern
 {
+    // More than once in its own pattern?
+    if (((!node.constSubject) && (node.subject == val)) + ((!node.constPredicate) && (node.predicate == val)) + ((!node.constObject) && (node.object == val)) > 1)
+        return false;
+
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         if ((*iter) == val)
             return false;
-- 
2.43.0


From 290facdc7f2883b0e84d7f61580b1f77d6ff142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:27 +0000
Subject: [PATCH 101/147] fix: a triple pattern with one constant and two
 unused variables is not answered by listing terms

---
 rdf3x/src/cts/PlanGen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 7e122fe..0e434f9 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -554,7 +554,9 @@ PlanGen::Problem* PlanGen::buildScan(const QueryGraph::SubQuery& query, const Qu
     uint64_t sc = node.constSubject ? node.subject : UINT64_MAX, pc = node.constPredicate ? node.predicate : UINT64_MAX, oc = node.constObject ? node.object : UINT64_MAX;
 
     // Build all relevant scans
-    if ((unusedSubject + unusedPredicate + unusedObject) >= 2) {
+    // (a full aggregation lists the terms of the remaining column, so that must not be a constant)
+    if (((unusedSubject + unusedPredicate + unusedObject) >= 2) &&
+            (!(unusedSubject ? (unusedPredicate ? node.constObject : node.constPredicate) : node.constSubject))) {
         if (!unusedSubject) {
             buildFullyAggregatedIndexScan(query, DBLayer::Order_Subject_Predicate_Object, result, s, sc);
             buildFullyAggregatedIndexScan(query, DBLayer::Order_No_Order_SPO, result, s, sc);
-- 
2.43.0


From c32aa683595c5f31e7234d7ae394727f2e795dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:39 +0000
Subject: [PATCH 102/147] fix: Sort releases its term buffers, which are
 arrays, as single characters

---
 rdf3x/src/rts/Sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index efe77ae..70b8c99 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -31,7 +31,8 @@ class Sort::Sorter {
     public:
         /// Constructor
         Sorter(DBLayer& dict, const vector<Order>& order) : dict(dict), order(order),
-        buffer1(new char[MAX_TERM_SIZE]), buffer2(new char[MAX_TERM_SIZE]) {}
+        buffer1(new char[MAX_TERM_SIZE], std::default_delete<char[]>()),
+        buffer2(new char[MAX_TERM_SIZE], std::default_delete<char[]>()) {}
 
         /// Compare
         bool operator()(const Tuple* a, const Tuple* b);
-- 
2.43.0


From 216b63a61fdd829d4a0ee59343446589e00c49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:39 +0000
Subject: [PATCH 103/147] fix: LIMIT and OFFSET count tuples instead of rows

---
 rdf3x/src/rts/ResultsPrinter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..ee6221a 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -351,21 +351,26 @@ uint64_t ResultsPrinter::first()
     uint64_t entryCount = 0;
     do {
         if (count < minCount) continue;
+        // A tuple stands for "count" rows only if duplicates are expanded
+        const bool expand = duplicateHandling == ExpandDuplicates;
 	if (o > 0)  {
-	    if (o >= count) {
-		o -= count;
+	    if (o >= (expand ? count : 1)) {
+		o -= expand ? count : 1;
 		continue;
 	    }
 	    count -= o;
 	    o = 0;
 	}
+        if (expand && count > this->limit - entryCount)
+            count = this->limit - entryCount;
         results.push_back(count);
         for (vector<Register*>::const_iterator iter = output.begin(), limit = output.end(); iter != limit; ++iter) {
             uint64_t id = (*iter)->value;
             results.push_back(id);
             if (~id && !DictMgmt::isnumeric(id)) stringCache[id];
         }
-        if ((++entryCount) >= this->limit) break;
+        entryCount += expand ? count : 1;
+        if (entryCount >= this->limit) break;
     } while ((count = input->next()) != 0);
 
     //Data structures to maintain a permanent copy of the strings
-- 
2.43.0


From 308062aaa4328e42046affb467411cbe754d6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:43 +0000
Subject: [PATCH 104/147] fix: the kind of a term is read from a buffer that
 does not hold the term

---
 src/layers/TridentLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..bab9eb1 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -34,6 +34,8 @@
 #include <inttypes.h>
 #include <set>
 
+#include <cstring>
+
 bool TridentLayer::lookup(const std::string& text,
         ::Type::ID type,
         unsigned subType,
@@ -122,9 +124,9 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (output[0] == '<') {
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From fc4a30186c75c086b49aa1de80a06b32bd74948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:57 +0000
Subject: [PATCH 105/147] fix: an unbound value is written as a 32-bit number,
 which is a term, not a null

---
 rdf3x/src/rts/CartProd.cpp  |  4 +--
 rdf3x/src/rts/HashJoin.cpp  |  8 ++---
 rdf3x/src/rts/MergeJoin.cpp | 64 ++++++++++++++++++-------------------
 rdf3x/src/rts/Union.cpp     |  2 +-
 4 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 757de37..f5c2efc 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -158,7 +158,7 @@ uint64_t CartProd::next()
     joinSuccedeed = true;
     //Set the hash values to NULL
     for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-    leftTail[index]->value = ~0u;
+    leftTail[index]->value = ~0ull;
     return rightCount;
     }
 
@@ -171,7 +171,7 @@ uint64_t CartProd::next()
     currentIdx = 0;
     for (uint64_t index = 0, limit = rightTail.size();
     index < limit; ++index)
-    rightTail[index]->value = ~0u;
+    rightTail[index]->value = ~0ull;
     return next();
     }
     }
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index fbff6e0..46fc78e 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -228,9 +228,9 @@ uint64_t HashJoin::startUnmatchedLeft()
     }
     //Scan the all left table. return a NULL for each entry not joined
     currentIdx = 0;
-    rightValue->value = ~0u;
+    rightValue->value = ~0ull;
     for (uint64_t index = 0, limit = rightTail.size(); index < limit; ++index)
-        rightTail[index]->value = ~0u;
+        rightTail[index]->value = ~0ull;
     return next();
 }
 //---------------------------------------------------------------------------
@@ -273,9 +273,9 @@ uint64_t HashJoin::next()
         if (!joinSuccedeed && leftOptional) {
             joinSuccedeed = true;
             //Set the hash values to NULL
-            leftValue->value = ~0u;
+            leftValue->value = ~0ull;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = ~0ull;
             observedOutputCardinality += rightCount;
             return rightCount;
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index af5a966..8852269 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -53,9 +53,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = ~0ull;
             }
-            leftValue->value = ~0u;
+            leftValue->value = ~0ull;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -66,9 +66,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = ~0ull;
             }
-            rightValue->value = ~0u;
+            rightValue->value = ~0ull;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -190,9 +190,9 @@ uint64_t MergeJoin::next()
                                 if (leftOptional) {
                                     if (rightCount == 0)
                                         return false;
-                                    leftValue->value = ~0u;
+                                    leftValue->value = ~0ull;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = ~0ull;
                                     }
                                 } else {
                                     return false;
@@ -207,9 +207,9 @@ uint64_t MergeJoin::next()
                                 if (rightOptional) {
                                     if (leftCount == 0)
                                         return false;
-                                    rightValue->value = ~0u;
+                                    rightValue->value = ~0ull;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = ~0ull;
                                     }
                                 } else {
                                     return false;
@@ -223,7 +223,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == ~0ull) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -231,9 +231,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = ~0ull;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = ~0ull;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -245,7 +245,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == ~0ull) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -253,9 +253,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = ~0ull;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = ~0ull;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -328,15 +328,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != ~0ull) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = ~0ull;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = ~0ull;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -372,15 +372,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != ~0ull) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = ~0ull;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = ~0ull;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -403,10 +403,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != ~0ull) {
+                                        leftValue->value = ~0ull;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = ~0ull;
                                         }
                                     }
                                     // Go on with the right tuple behind the block
@@ -439,10 +439,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != ~0ull) {
+                                        rightValue->value = ~0ull;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = ~0ull;
                                         }
                                     }
                                     // Go on with the left tuple behind the block
@@ -485,10 +485,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional && scanState==loopSpooledRightHasData) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != ~0ull) {
+                                            leftValue->value = ~0ull;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = ~0ull;
                                             }
                                         }
                                         // Go on with the right tuple behind the block
@@ -512,10 +512,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != ~0ull) {
+                                            rightValue->value = ~0ull;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = ~0ull;
                                             }
                                         }
                                         rightCount = 0;
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..b9a2734 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value = ~0ull;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From 2dc97a65e2c32cee63d994bfb8666856cba151b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:57 +0000
Subject: [PATCH 106/147] fix: Sort looks for an absent column as column
 4294967295

---
 rdf3x/src/rts/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index 70b8c99..2db55e6 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -118,11 +118,11 @@ Sort::Sort(DBLayer& db, Operator* input, const vector<Register*>& values, const
     for (vector<pair<Register*, bool> >::const_iterator iter = registerOrder.begin(), limit = registerOrder.end(); iter != limit; ++iter) {
         if (!(*iter).first) {
             Order o;
-            o.slot = ~0u;
+            o.slot = ~0ull;
             o.descending = (*iter).second;
             order.push_back(o);
         } else {
-            uint64_t slot = ~0u;
+            uint64_t slot = ~0ull;
             for (uint64_t index = 0; index < values.size(); index++)
                 if ((*iter).first == values[index]) {
                     slot = index;
-- 
2.43.0


From 683c043f911ee4997ae480abd56db5b2d7f4c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 107/147] fix: an optional part is joined with a nested loop
 join, which drops what has no partner

---
 rdf3x/src/cts/PlanGen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 0e434f9..9c1adee 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1155,7 +1155,8 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                                 }
                             }
                             // Try a hash join
-                            if (selectivity >= 0) {
+                            // (also for optional parts, which a nested loop join does not support)
+                            if (selectivity >= 0 || leftPlan->optional || rightPlan->optional) {
                                 Plan* p = plans->alloc();
                                 p->op = Plan::HashJoin;
                                 p->opArg = 0;
-- 
2.43.0


From 0e0d280be33b6b9d048e0b195a5b45cd0d527573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:24 +0000
Subject: [PATCH 108/147] fix: after a join with an optional left side a common
 variable is read from that side

---
 rdf3x/src/cts/CodeGen.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index d3c2099..ad7d852 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -371,7 +371,11 @@ static Operator* translateMergeJoin(Runtime& runtime, const map<unsigned, Regist
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    // A common variable has the value of the side that is always there
+    if (plan->left->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -406,7 +410,11 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    // A common variable has the value of the side that is always there
+    if (plan->left->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
-- 
2.43.0


From 41355035cb7cdcac523c07402732290e8fc88716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:41 +0000
Subject: [PATCH 109/147] fix: the values of an optional or alternative part
 restrict the scans of the rest of the query

---
 rdf3x/src/cts/CodeGen.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index ad7d852..9b367f9 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1103,6 +1103,18 @@ static Operator* translatePlan(Runtime& runtime, const map<unsigned, Register*>&
 }
 //---------------------------------------------------------------------------
 static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
+//---------------------------------------------------------------------------
+template <class Q> static unsigned allocateNestedRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const Q& query, unsigned id)
+    // Allocate the registers of a part whose values do not restrict those of the
+    // rest of the query (e.g., an optional part), and need domains of their own
+{
+    map<unsigned, set<unsigned> > ownClasses;
+    id = allocateRegisters(registers, ownClasses, query, id);
+    for (map<unsigned, set<unsigned> >::const_iterator iter = ownClasses.begin(), limit = ownClasses.end(); iter != limit; ++iter)
+        registerClasses[~0u - (unsigned) registerClasses.size()] = (*iter).second;
+    return id;
+}
+//---------------------------------------------------------------------------
 static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
     // Allocate registers
 {
@@ -1119,11 +1131,11 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
     }
 
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter)
-        id = allocateRegisters(registers, registerClasses, (*iter), id);
+        id = allocateNestedRegisters(registers, registerClasses, (*iter), id);
 
     for (vector<vector<QueryGraph::SubQuery> >::const_iterator iter = query.unions.begin(), limit = query.unions.end(); iter != limit; ++iter)
         for (vector<QueryGraph::SubQuery>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
-            id = allocateRegisters(registers, registerClasses, (*iter2), id);
+            id = allocateNestedRegisters(registers, registerClasses, (*iter2), id);
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
@@ -1137,14 +1149,14 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
             itr != query.subqueries.end(); ++itr) {
         QueryGraph* subq = itr->get();
         // id = allocateRegisters(registers, registerClasses, *subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateNestedRegisters(registers, registerClasses, *subq, id);
     }
 
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.minuses.begin();
             itr != query.minuses.end(); ++itr) {
         QueryGraph* subq = itr->get();
         // id = allocateRegisters(registers, registerClasses, subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateNestedRegisters(registers, registerClasses, *subq, id);
     }
 
     for (auto itr = query.valueNodes.begin();
@@ -1157,10 +1169,10 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
     }
     for(auto itr = query.filters.begin(); itr != query.filters.end(); ++itr) {
         if (itr->subpattern != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subpattern.get(), id);
+            id = allocateNestedRegisters(registers, registerClasses, *itr->subpattern.get(), id);
         }
         if (itr->subquery != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subquery.get(), id);
+            id = allocateNestedRegisters(registers, registerClasses, *itr->subquery.get(), id);
         }
     }
     return id;
-- 
2.43.0


From 90ab8483c3da7c9ee6e9c9d22ca4a3664eecd1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:08 +0000
Subject: [PATCH 110/147] fix: an optional part is joined before the parts that
 it is optional to

---
 rdf3x/src/cts/PlanGen.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 9c1adee..294c847 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -960,7 +960,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
             dpTable[0] = p;
         last = p;
     }
+    // An optional part can only extend what all the other parts agree on
+    BitSet optionalParts, requiredParts;
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter, ++id) {
+        optionalParts.set(id);
         Problem* p = buildOptional(*iter, entirePlan, id, completeEstimate);
         if (last)
             last->next = p;
@@ -993,6 +996,9 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
     }
 
     unsigned functionIds = id;
+    for (unsigned index = 0; index < functionIds; index++)
+        if (!optionalParts.test(index))
+            requiredParts.set(index);
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter, ++id) {
         Problem* p = buildTableFunction(*iter, id);
         if (last)
@@ -1077,6 +1083,11 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                     if (leftRel.overlapsWith(rightRel))
                         continue;
 
+                    // An optional part, but not all required ones?
+                    if ((leftRel.overlapsWith(optionalParts) || rightRel.overlapsWith(optionalParts)) &&
+                            !requiredParts.subsetOf(leftRel.unionWith(optionalParts)) && !requiredParts.subsetOf(rightRel.unionWith(optionalParts)))
+                        continue;
+
                     // Investigate all join candidates
                     Problem* problem = 0;
                     double selectivity = 1;
@@ -1204,6 +1215,9 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                         BitSet rightRel = iter2->relations;
                         if (leftRel.overlapsWith(rightRel))
                             continue;
+                        if ((leftRel.overlapsWith(optionalParts) || rightRel.overlapsWith(optionalParts)) &&
+                                !requiredParts.subsetOf(leftRel.unionWith(optionalParts)) && !requiredParts.subsetOf(rightRel.unionWith(optionalParts)))
+                            continue;
                         Problem* problem = 0;
                         BitSet relations = leftRel.unionWith(rightRel);
                         lookup[relations] = problem = problems.alloc();
-- 
2.43.0


From 55357db445583abc6a074a3fbd9844e418a3ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:08 +0000
Subject: [PATCH 111/147] fix: the planner numbers the parts of a query with
 VALUES differently from the query graph

---
 rdf3x/src/cts/PlanGen.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 294c847..1df0379 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -951,15 +951,6 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
             dpTable[0] = p;
         last = p;
     }
-    for(auto &iter : query.valueNodes) {
-        Problem* p;
-        p = buildValue(query, iter, id++);
-        if (last)
-            last->next = p;
-        else
-            dpTable[0] = p;
-        last = p;
-    }
     // An optional part can only extend what all the other parts agree on
     BitSet optionalParts, requiredParts;
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter, ++id) {
@@ -995,6 +986,17 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         last = p;
     }
 
+    // (The numbers must be those in the edges of the query graph)
+    for(auto &iter : query.valueNodes) {
+        Problem* p;
+        p = buildValue(query, iter, id++);
+        if (last)
+            last->next = p;
+        else
+            dpTable[0] = p;
+        last = p;
+    }
+
     unsigned functionIds = id;
     for (unsigned index = 0; index < functionIds; index++)
         if (!optionalParts.test(index))
-- 
2.43.0


From 47420f8bc60547d55be28da0fa5ec412662833e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:08 +0000
Subject: [PATCH 112/147] fix: the parts of a MINUS have no edges, so its
 patterns are not joined with each other

---
 rdf3x/src/cts/QueryGraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..2c5e2d3 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -262,6 +262,10 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
         }
     }
 
+    // What is subtracted does not bind variables but needs its own edges
+    for (auto &minus : subQuery.minuses)
+        minus->constructEdges();
+
     // Derive all edges
     subQuery.edges.clear();
     unsigned optionalOfs = patternBindings.size(), unionOfs = optionalOfs + optionalBindings.size();
-- 
2.43.0


From 6930f1c93a4f18acbab5eca1b3943e57d01c9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:08 +0000
Subject: [PATCH 113/147] fix: variables read for the comparison of MINUS stay
 in the result, so that DISTINCT counts them

---
 rdf3x/src/cts/CodeGen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 9b367f9..eac03cf 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -891,6 +891,11 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
 
     Operator *result = new Minus(mainTree, minusTree, regsToCheck,
             plan->left->cardinality);
+
+    // What was read only for the comparison is not part of the result
+    for (auto v : varsToCheck)
+        if (!projection.count(v))
+            bindings.erase(v);
     return result;
 
 }
-- 
2.43.0


From 8cd642a035a44d59131d4f1fe45f31e72c844bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:08 +0000
Subject: [PATCH 114/147] fix: a variable that only MINUS uses is aggregated
 away, and the plan of MINUS has no costs and order

---
 rdf3x/src/cts/PlanGen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 1df0379..b9d7180 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -460,6 +460,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
+    for (const auto &itr : query.minuses)
+        if (! isUnused(itr->getQuery(), node, val))
+            return false;
     return true;
 }
 //---------------------------------------------------------------------------
@@ -1295,7 +1298,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         p->op = Plan::Minus;
         p->left = plan;
         p->right = subqueryPlan;
+        p->next = 0;
         p->cardinality = plan->cardinality;
+        p->costs = plan->costs;
+        p->ordering = plan->ordering;
         plan = p;
     }
 
-- 
2.43.0


From 92c92aaff74c0872586d264d047aed6d7ae0bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:40 +0000
Subject: [PATCH 115/147] fix: the plan of a subquery has no cost and takes an
 order that it may not have

---
 rdf3x/src/cts/PlanGen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index b9d7180..9772430 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -928,6 +928,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         plan->left = childPlan;
         plan->right = reinterpret_cast<Plan*>(
                 const_cast<QueryGraph*>(itr->get()));
+        plan->opArg = 0;
+        plan->next = 0;
+        plan->costs = childPlan->costs;
+        plan->ordering = ~0u; // the order of the subquery may be one on a variable that it does not return
         //Little tweak: if there is a limit, then this limits the cardinality
         plan->cardinality = childPlan->cardinality;
         if (plan->cardinality > (*itr)->getLimit()) {
-- 
2.43.0


From 4ba907225f6a8d36ff713dfacddf0c84d33ab33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:10 +0000
Subject: [PATCH 116/147] fix: a union is merged on one variable though ORDER
 BY, VALUES, MINUS or a subquery use others

---
 rdf3x/src/cts/PlanGen.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 9772430..3ea251d 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -696,9 +696,17 @@ static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& va
     collectVariables(filter->arg3, vars, except);
 }
 //---------------------------------------------------------------------------
+static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except);
+//---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except)
     // Collect all variables used in a subquery
 {
+    for (auto &iter : query.valueNodes)
+        vars.insert(iter.variables.begin(), iter.variables.end());
+    for (auto &iter : query.subqueries)
+        vars.insert(iter->projectionBegin(), iter->projectionEnd());
+    for (auto &iter : query.minuses)
+        collectVariables(*iter, vars, except);
     for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
         collectVariables(&(*iter), vars, except);
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
@@ -724,6 +732,9 @@ static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const
 {
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         vars.insert(*iter);
+    for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
+        if (~(*iter).id)
+            vars.insert((*iter).id);
     if (except != (&(query.getQuery())))
         collectVariables(query.getQuery(), vars, except);
 }
-- 
2.43.0


From 54e35dac50deb0e8513dc4cc32b1cac38e564a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:40 +0000
Subject: [PATCH 117/147] fix: a variable that only VALUES binds is unbound in
 filters

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..bcbf0e7 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -164,6 +164,10 @@ static bool binds(const SPARQLParser::PatternGroup& group, uint64_t id)
         if (iter->outputVar.id == id)
             return true;
     }
+    for (auto &iter : group.values)
+        for (auto v : iter.variables)
+            if (v == id)
+                return true;
     return false;
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 8d4fe080e5337d8919dafa8695a6757678acc613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 118/147] fix: DISTINCT in a subquery is ignored

---
 rdf3x/src/cts/PlanGen.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 3ea251d..bc50c2d 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -934,6 +934,19 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         PlanGen p(plans);
         p.init(db, *itr->get());
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
+        if ((*itr)->getDuplicateHandling() == QueryGraph::NoDuplicates) {
+            // Aggregate, as for the query itself
+            Plan* g = plans->alloc();
+            g->op = Plan::HashGroupify;
+            g->opArg = 0;
+            g->left = childPlan;
+            g->right = 0;
+            g->next = 0;
+            g->cardinality = childPlan->cardinality;
+            g->costs = childPlan->costs;
+            g->ordering = ~0u;
+            childPlan = g;
+        }
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
         plan->left = childPlan;
-- 
2.43.0


From 1d55e3f86a75e0f64b02fb54761cb768eac20094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:08 +0000
Subject: [PATCH 119/147] fix: computed numbers are empty in JSON results

---
 rdf3x/src/rts/ResultsPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index ee6221a..bfdde6b 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -173,7 +173,7 @@ void formatJSONRow(const std::vector<std::string> &columns,
             fbinding.put("type", "literal");
             fbinding.put("value", "NULL");
         } else {
-            std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+            std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start) : stringCache[*start].tostring(/*stringCache,*/ false);
             if (el[0] == '<' && el.size() > 2) {
                 fbinding.put("type", "uri");
                 fbinding.put("value", el.substr(1, el.size() - 2));
@@ -190,7 +190,7 @@ void formatJSONRow(const std::vector<std::string> &columns,
                 binding.put("type", "literal");
                 binding.put("value", "NULL");
             } else {
-                std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+                std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start) : stringCache[*start].tostring(/*stringCache,*/ false);
                 if (el[0] == '<' && el.size() > 2) {
                     binding.put("type", "uri");
                     binding.put("value", el.substr(1, el.size() - 2));
-- 
2.43.0


From 5042f7768138df31c7919096b016b84d83a6b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:19 +0000
Subject: [PATCH 120/147] fix: the row after a group is shown with the keys of
 that group

---
 rdf3x/src/rts/AggrFunctions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 08f04a3..d5e6517 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -139,6 +139,11 @@ void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
 }
 
 void AggrFunctions::processGroup() {
+    //The row that ended the previous group is already read, but its keys were replaced
+    for(uint8_t i = 0; i < currentGroupKeys.size(); ++i) {
+        groupKeys[i]->value = currentGroupKeys[i];
+    }
+
     //Add the current row
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
-- 
2.43.0


From ce5c9cc3184ae6af226a78bc5fb2bfba45de9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:09 +0000
Subject: [PATCH 121/147] fix: optional and alternative parts of a query are
 grouped and aggregated as the query is

---
 rdf3x/src/cts/PlanGen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index bc50c2d..afa204d 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1333,6 +1333,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         plan = p;
     }
 
+    // What follows concerns the query as a whole, not its optional or alternative parts
+    if (&query != &entirePlan.getQuery())
+        return plan;
+
     //GroupBy
     bool addedGroupBy = false;
 
-- 
2.43.0


From 19550947f9f00c524112819730840fbcf052cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:26 +0000
Subject: [PATCH 122/147] fix: a union is merged on one variable though
 aggregates or GROUP BY use others

---
 rdf3x/src/cts/PlanGen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index afa204d..da9261f 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -735,6 +735,12 @@ static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const
     for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
         if (~(*iter).id)
             vars.insert((*iter).id);
+    const auto aggregated = query.c_getAggredateHandler().getInputOutputVars().first;
+    vars.insert(aggregated.begin(), aggregated.end());
+    vars.insert(query.getGroupBy().begin(), query.getGroupBy().end());
+    for (const auto &assignment : query.c_getGlobalAssignments())
+        for (const auto &arg : assignment.input)
+            vars.insert(arg.id);
     if (except != (&(query.getQuery())))
         collectVariables(query.getQuery(), vars, except);
 }
-- 
2.43.0


From 2ed28049316f96cd008bb7e2f4e50c0a7d135f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:26 +0000
Subject: [PATCH 123/147] fix: DISTINCT in an aggregate counts a value only in
 the first group and aggregate that have it

---
 include/trident/sparql/aggrhandler.h | 3 ++-
 src/trident/sparql/aggrhandler.cpp   | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/trident/sparql/aggrhandler.h b/include/trident/sparql/aggrhandler.h
index 44564fa..fbe5c82 100644
--- a/include/trident/sparql/aggrhandler.h
+++ b/include/trident/sparql/aggrhandler.h
@@ -30,11 +30,13 @@ class AggregateHandler {
             int64_t arg1_int, arg2_int; //various arguments used by the functions
             double arg1_dec, arg2_dec;
             bool arg1_bool, arg2_bool;
+            std::set<uint64_t> seen; //values of the current group (DISTINCT)
 
             void reset() {
                 arg1_int = arg2_int = 0;
                 arg1_dec = arg2_dec = 0;
                 arg1_bool = arg2_bool = true;
+                seen.clear();
             }
         };
 
@@ -42,7 +44,6 @@ class AggregateHandler {
         unsigned varcount;
         std::map<FUNC,std::map<unsigned,unsigned>> assignments;
         bool distinct[FUNC::NFUNCS];
-        std::set<uint64_t> sets[FUNC::NFUNCS];
         uint64_t inputmask;
         std::vector<VarValue> varvalues;
         std::vector<FunctCall> executions;
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 7db66ea..7dbe400 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -136,11 +136,9 @@ AggregateHandler::VarValue::TYPE AggregateHandler::getValueType(
 
 bool AggregateHandler::executeFunction(FunctCall &call) {
     if (distinct[call.id] && varvalues[call.inputvar].type == VarValue::TYPE::SYMBOL) {
-        std::set<uint64_t>::iterator it = sets[call.id].find(varvalues[call.inputvar].v_int);
-        if (it != sets[call.id].end()) {
+        if (!call.seen.insert(varvalues[call.inputvar].v_int).second) {
             return false;
         }
-        sets[call.id].insert(varvalues[call.inputvar].v_int);
     }
     switch (call.id) {
         case FUNC::COUNT:
-- 
2.43.0


From 783245b09ce849bc636eb10ed47638890c93f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:08 +0000
Subject: [PATCH 124/147] fix: a term list that is computed from another order
 gives every term once

---
 include/trident/iterators/reordertermitr.h |  9 +++++----
 src/trident/iterators/reordertermitr.cpp   | 18 +++++++-----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/trident/iterators/reordertermitr.h b/include/trident/iterators/reordertermitr.h
index b12582b..bc00d7e 100644
--- a/include/trident/iterators/reordertermitr.h
+++ b/include/trident/iterators/reordertermitr.h
@@ -30,7 +30,7 @@
 #include <inttypes.h>
 #include <vector>
 
-#include <google/dense_hash_set>
+#include <map>
 
 class ReOrderTermItr: public PairItr {
 private:
@@ -38,15 +38,16 @@ private:
     Querier *q;
     PairItr *helper;
     std::vector<uint64_t> keys;
+    std::vector<uint64_t> counts;
     size_t nextKeyIndex;
     int idx;
     bool initialized;
     size_t m_nextKeyIndex;
     size_t m_key;
 
-    void fillValuesO(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesO(std::map<uint64_t, uint64_t> &keys);
 
-    void fillValuesP(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesP(std::map<uint64_t, uint64_t> &keys);
 
     void fillValues();
 
@@ -68,7 +69,7 @@ public:
     }
 
 	LIBEXP int64_t getCount() {
-        return 1;
+        return counts[nextKeyIndex - 1];
     }
 
 	LIBEXP uint64_t getCardinality();
diff --git a/src/trident/iterators/reordertermitr.cpp b/src/trident/iterators/reordertermitr.cpp
index fef346c..1742af0 100644
--- a/src/trident/iterators/reordertermitr.cpp
+++ b/src/trident/iterators/reordertermitr.cpp
@@ -21,26 +21,23 @@
 
 #include <trident/iterators/reordertermitr.h>
 
-void ReOrderTermItr::fillValuesO(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesO(std::map<uint64_t, uint64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue2();
-        keys.insert(key);
+        keys[helper->getValue2()]++;
     }
 }
 
-void ReOrderTermItr::fillValuesP(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesP(std::map<uint64_t, uint64_t> &keys) {
     helper->ignoreSecondColumn();
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue1();
-        keys.insert(key);
+        keys[helper->getValue1()] += helper->getCount();
     }
 }
 
 void ReOrderTermItr::fillValues() {
-    google::dense_hash_set<uint64_t> keySet;
-    keySet.set_empty_key(0xFFFFFFFFFFFFFFFF);
+    std::map<uint64_t, uint64_t> keySet;
     switch(idx) {
     case IDX_OSP:
     case IDX_OPS:
@@ -56,12 +53,11 @@ void ReOrderTermItr::fillValues() {
     }
 
     for (auto v = keySet.begin(); v != keySet.end(); v++) {
-        keys.push_back(*v);
+        keys.push_back(v->first);
+        counts.push_back(v->second);
     }
 
     initialized = true;
-
-    std::sort(keys.begin(), keys.end());
 }
 
 uint64_t ReOrderTermItr::getCardinality() {
-- 
2.43.0


From 4920017dd78a0b9987a3f4d28ea0b772493aad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 125/147] fix: assigning a filter leaves the pattern of NOT
 EXISTS behind

---
 rdf3x/src/cts/QueryGraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 2c5e2d3..26caeb5 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -90,6 +90,8 @@ QueryGraph::Filter& QueryGraph::Filter::operator=(const Filter& other)
         id = other.id;
         value = other.value;
         valueid = other.valueid;
+        subquery = other.subquery;
+        subpattern = other.subpattern;
     }
     return *this;
 }
-- 
2.43.0


From 39d080c877f5def6b7138a2f51b460c270c7b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 126/147] fix: the fourth argument of a function in a filter
 does not count as used

---
 rdf3x/src/cts/PlanGen.cpp    | 3 ++-
 rdf3x/src/cts/QueryGraph.cpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index da9261f..caff6c2 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -410,7 +410,7 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val) && isUnused(filter->arg4, val);
 }
 //---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
@@ -694,6 +694,7 @@ static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& va
     collectVariables(filter->arg1, vars, except);
     collectVariables(filter->arg2, vars, except);
     collectVariables(filter->arg3, vars, except);
+    collectVariables(filter->arg4, vars, except);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except);
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 26caeb5..60b6430 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -148,6 +148,7 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
     if (arg1 && (!arg1->isApplicable(variables))) return false;
     if (arg2 && (!arg2->isApplicable(variables))) return false;
     if (arg3 && (!arg3->isApplicable(variables))) return false;
+    if (arg4 && (!arg4->isApplicable(variables))) return false;
     if (subquery) {
         //Check whether the subquery mentions all variables
         for(auto idx = subquery->projectionBegin();
-- 
2.43.0


From d3f369f44182ac3e87739b219dc04d4e87094444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:32 +0000
Subject: [PATCH 127/147] fix: two VALUES with a common variable have no edge
 and are combined as a product

---
 rdf3x/src/cts/QueryGraph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 60b6430..e6b02ce 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -325,6 +325,11 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
             if (intersects(subqueryBindings[index], valueBindings[index2], common))
                 subQuery.edges.push_back(QueryGraph::Edge(subqueryOfs + index, valueOfs + index2, common));
     }
+    for (unsigned index = 0, limit = valueBindings.size(); index < limit; index++) {
+        for (unsigned index2 = index + 1; index2 < limit; index2++)
+            if (intersects(valueBindings[index], valueBindings[index2], common))
+                subQuery.edges.push_back(QueryGraph::Edge(valueOfs + index, valueOfs + index2, common));
+    }
 }
 //---------------------------------------------------------------------------
 void QueryGraph::constructEdges()
-- 
2.43.0


From 761bb5ae89de9d6396e4ed8199f85210158c9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:32 +0000
Subject: [PATCH 128/147] fix: the fourth argument of a function in a filter is
 not one of its variables when the filter is compiled

---
 rdf3x/src/cts/CodeGen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index eac03cf..ea948bb 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -489,6 +489,8 @@ static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::F
         collectVariables(filterVariables, *filter.arg2);
     if (filter.arg3)
         collectVariables(filterVariables, *filter.arg3);
+    if (filter.arg4)
+        collectVariables(filterVariables, *filter.arg4);
 }
 //---------------------------------------------------------------------------
 static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned, Register*>& bindings, const QueryGraph::Filter& filter, Plan *plan, const map<const QueryGraph::Node*, unsigned>& registers);
-- 
2.43.0


From a891836fed45629239b1ea9fd6399f62483c19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:10 +0000
Subject: [PATCH 129/147] fix: the planner leaves out variables that only GROUP
 BY or an aggregate uses

---
 rdf3x/src/cts/PlanGen.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index caff6c2..d3a2977 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -504,6 +504,18 @@ static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsi
         }
     }
 
+    //Check if the variable is used for grouping, or is the input of an aggregate
+    for (const auto &v : query.getGroupBy()) {
+        if (v == val) {
+            return false;
+        }
+    }
+    const auto aggregates = query.c_getAggredateHandler().getInputOutputVars();
+    for (const auto &inputVar : aggregates.first) {
+        if (inputVar == val) {
+            return false;
+        }
+    }
 
     return isUnused(query.getQuery(), node, val);
 }
-- 
2.43.0


From 6aab55c481b18ca564f7f267263e367115f9bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:58 +0000
Subject: [PATCH 130/147] fix: the iterator over triples with a repeated
 variable compares the wrong columns and loses the current row

---
 include/trident/iterators/filtersameitr.h | 30 +++++++++++++++--------
 include/trident/kb/querier.h              |  7 ++++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/trident/iterators/filtersameitr.h b/include/trident/iterators/filtersameitr.h
index c01f7a8..1eee85c 100644
--- a/include/trident/iterators/filtersameitr.h
+++ b/include/trident/iterators/filtersameitr.h
@@ -40,12 +40,20 @@ class FilterSameItr: public PairItr {
         bool hn, hnc;
         bool savedhn, savedhnc;
 
+        //The row the iterator is on. The underlying iterator may already be on
+        //the next one that qualifies
+        int64_t v1, v2;
+        int64_t savedkey, savedv1, savedv2;
+
     public:
 
         void init(PairItr *underlying, int pos1, int pos2) {
             this->underlying = underlying;
             this->pos1 = pos1;
             this->pos2 = pos2;
+            initializeConstraints();
+            hn = hnc = savedhn = savedhnc = false;
+            key = savedkey = v1 = v2 = savedv1 = savedv2 = -1;
         }
 
         int getTypeItr() {
@@ -53,19 +61,11 @@ class FilterSameItr: public PairItr {
         }
 
         int64_t getValue1() {
-            return underlying->getValue1();
+            return v1;
         }
 
         int64_t getValue2() {
-            return underlying->getValue2();
-        }
-
-        int64_t getKey() {
-            return underlying->getKey();
-        }
-
-        void setKey(int64_t key) {
-            underlying->setKey(key);
+            return v2;
         }
 
         bool hasNext() {
@@ -100,6 +100,10 @@ class FilterSameItr: public PairItr {
         }
 
         void next() {
+            hasNext();
+            setKey(underlying->getKey());
+            v1 = underlying->getValue1();
+            v2 = underlying->getValue2();
             hnc = false;
         }
 
@@ -128,12 +132,18 @@ class FilterSameItr: public PairItr {
         void mark() {
             savedhn = hn;
             savedhnc = hnc;
+            savedkey = getKey();
+            savedv1 = v1;
+            savedv2 = v2;
             underlying->mark();
         }
 
         void reset(const char r) {
             hn = savedhn;
             hnc = savedhnc;
+            setKey(savedkey);
+            v1 = savedv1;
+            v2 = savedv2;
             underlying->reset(r);
         }
 
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 288d300..8e0d843 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -421,8 +421,11 @@ class Querier {
             PairItr *itr;
             if (sameVar(s, r, d, p1, p2)) {
                 PairItr *it = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
+                //The iterator returns the triple in the order of the index
+                const int *order = getInvOrder(idx);
                 FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
+                fi->init(it, std::min(order[p1], order[p2]),
+                        std::max(order[p1], order[p2]));
                 itr = fi;
             } else {
                 itr = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
@@ -704,7 +707,7 @@ class Querier {
             int p1, p2;
             if (sameVar(s, r, d, p1, p2)) {
                 uint64_t cnt = 0;
-                PairItr *it = getIterator(IDX_SPO, s, r, d);
+                PairItr *it = getIterator(IDX_SPO, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
                 FilterSameItr *fi = factory16.get();
                 fi->init(it, p1, p2);
                 while (fi->hasNext()) {
-- 
2.43.0


From bae72413774a9d85b8d337bec1ede12cb00d2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:59 +0000
Subject: [PATCH 131/147] fix: the groups of the primitives take their keys in
 the order of the index that was used

---
 include/trident/kb/querier.h | 42 ++++++++++++++++++++++--------------
 src/trident/kb/querier.cpp   |  2 +-
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 8e0d843..d6ef674 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -142,6 +142,11 @@ class EdgeItr {
             v[2] = getObject();
         }
 
+        //The i-th element of the triple (0=subject, 1=predicate, 2=object)
+        uint64_t getElement(int i) {
+            return getValue(order[i]);
+        }
+
         uint64_t getSubject() {
             return getValue(order[0]);
         }
@@ -158,6 +163,8 @@ class EdgeItr {
 class OneKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        //Which element of the triple is the key (0=s, 1=r, 2=d)
+        const int pos1;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -165,7 +172,7 @@ class OneKeyCardItr: public KeyCardItr {
         uint64_t nextKey1;
 
     public:
-        OneKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        OneKeyCardItr(EdgeItr *itr, int pos1) : itr(itr), pos1(pos1), hn(false), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -182,10 +189,10 @@ class OneKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
+                    nextKey1 = itr->getElement(pos1);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1) {
+                        if (itr->getElement(pos1) != nextKey1) {
                             nextDone = true;
                             break;
                         }
@@ -213,6 +220,9 @@ class OneKeyCardItr: public KeyCardItr {
 class TwoKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        //Which elements of the triple are the keys (0=s, 1=r, 2=d)
+        const int pos1;
+        const int pos2;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -221,7 +231,7 @@ class TwoKeyCardItr: public KeyCardItr {
         uint64_t nextKey2;
 
     public:
-        TwoKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        TwoKeyCardItr(EdgeItr *itr, int pos1, int pos2) : itr(itr), pos1(pos1), pos2(pos2), hn(false), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -238,11 +248,11 @@ class TwoKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
-                    nextKey2 = itr->getValue(1);
+                    nextKey1 = itr->getElement(pos1);
+                    nextKey2 = itr->getElement(pos2);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1 || itr->getValue(1) != nextKey2) {
+                        if (itr->getElement(pos1) != nextKey1 || itr->getElement(pos2) != nextKey2) {
                             nextDone = true;
                             break;
                         }
@@ -726,7 +736,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s);
             }
             EdgeItr *it = d >= 0 ? edg_sdr(s, r, d) : edg_srd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -734,7 +744,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r);
             }
             EdgeItr *it = d >= 0 ? edg_rds(s, r, d) : edg_rsd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -742,7 +752,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d);
             }
             EdgeItr *it = r >= 0 ? edg_drs(s, r, d) : edg_dsr(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_sr(const int64_t s, const int64_t r, const int64_t d) {
@@ -750,7 +760,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, r);
             }
             EdgeItr *it = edg_srd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_sd(const int64_t s, const int64_t r, const int64_t d) {
@@ -758,7 +768,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, d);
             }
             EdgeItr *it = edg_sdr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_rs(const int64_t s, const int64_t r, const int64_t d) {
@@ -766,7 +776,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, s);
             }
             EdgeItr *it = edg_rsd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_rd(const int64_t s, const int64_t r, const int64_t d) {
@@ -774,7 +784,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, d);
             }
             EdgeItr *it = edg_rds(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_ds(const int64_t s, const int64_t r, const int64_t d) {
@@ -782,7 +792,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, s);
             }
             EdgeItr *it = edg_dsr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_dr(const int64_t s, const int64_t r, const int64_t d) {
@@ -790,7 +800,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, r);
             }
             EdgeItr *it = edg_drs(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_s(const int64_t s, const int64_t r, const int64_t d) {
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index b2202a1..e4bc061 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -62,7 +62,7 @@ ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d,
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
-    currentKey1 = key2;
+    currentKey2 = key2;
     currentCard = q->getCard(s, r, d);
     hn = currentCard > 0;
 }
-- 
2.43.0


From 2b17c6247805790bac625dd649788b043bb0e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:59 +0000
Subject: [PATCH 132/147] fix: the positional primitives return the triple
 before the requested one

---
 include/trident/kb/querier.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index d6ef674..e5f0ced 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -908,6 +908,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -926,6 +927,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -944,6 +946,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -962,6 +965,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -980,6 +984,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -998,6 +1003,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
-- 
2.43.0


From 96fcaa2dc5869f2c1e8b1dae911cca3e7088a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:11 +0000
Subject: [PATCH 133/147] fix: the number of edges of a store does not follow
 its updates

---
 include/trident/kb/kb.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/trident/kb/kb.h b/include/trident/kb/kb.h
index 344ef36..f5e6360 100644
--- a/include/trident/kb/kb.h
+++ b/include/trident/kb/kb.h
@@ -187,7 +187,15 @@ class KB {
         }
 
         int64_t getSize() {
-            return totalNumberTriples;
+            int64_t size = totalNumberTriples;
+            for (size_t i = 0; i < diffIndices.size(); ++i) {
+                if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                    size += diffIndices[i]->getSize();
+                } else {
+                    size -= diffIndices[i]->getSize();
+                }
+            }
+            return size;
         }
 
         int64_t getNextID() {
-- 
2.43.0


From aea7aa24d0f8ffbd2ccd2671e6ab2eb4cfd68fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:11 +0000
Subject: [PATCH 134/147] fix: cardinalities ignore skipped tables, add
 deletions, are remembered across stores, and confuse variables

---
 include/trident/kb/querier.h |  47 ++++-
 src/trident/kb/querier.cpp   | 320 ++++++++++++-----------------------
 2 files changed, 151 insertions(+), 216 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index e5f0ced..366cda7 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -46,6 +46,9 @@
 #include <kognac/factory.h>
 
 #include <iostream>
+#include <map>
+#include <tuple>
+#include <algorithm>
 
 class TableStorage;
 class ListPairHandler;
@@ -300,6 +303,9 @@ class Querier {
 
         TermCoordinates currentValue;
 
+        //The cardinalities that were already calculated
+        std::map<std::tuple<int64_t, int64_t, int64_t>, int64_t> cacheCards;
+
         //Factories
         Factory<ArrayItr> factory2;
         Factory<ScanItr> factory3;
@@ -378,7 +384,15 @@ class Querier {
                 const int64_t key, const int64_t v1,
                 const int64_t v2, const bool cons);
 
-        static int64_t getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o);
+        //The number of triples with this key, after all updates
+        int64_t getNElements(const int idx, const int64_t key);
+
+        //Count the triples of the iterator and release it
+        int64_t countTriples(PairItr *itr, const int nbound);
+
+        //Count the different pairs of key and first value of the iterator and
+        //release it
+        uint64_t countFirstPairs(PairItr *itr);
 
     public:
 
@@ -717,14 +731,12 @@ class Querier {
             int p1, p2;
             if (sameVar(s, r, d, p1, p2)) {
                 uint64_t cnt = 0;
-                PairItr *it = getIterator(IDX_SPO, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
-                FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
-                while (fi->hasNext()) {
-                    fi->next();
+                EdgeItr *it = edg_srd(s, r, d);
+                while (it->hasNext()) {
+                    it->next();
                     cnt++;
                 }
-                releaseItr(fi);
+                delete it;
                 return cnt;
             } else {
                 return getCard(s, r, d);
@@ -808,6 +820,13 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, s);
                 return v.hasNext() ? 1 : 0;
             }
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_s(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 0);
         }
 
@@ -816,6 +835,13 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, r);
                 return v.hasNext() ? 1 : 0;
             }
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_r(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 1);
         }
 
@@ -824,6 +850,13 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, d);
                 return v.hasNext() ? 1 : 0;
             }
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_d(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 2);
         }
 
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index e4bc061..4ca28ad 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -56,14 +56,14 @@ EmptyItr emptyItr;
 // It cannot happen that for perm = 0, 1, 2: perm+3 exists but perm does not.
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key) {
     currentKey1 = key;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
     currentKey2 = key2;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
@@ -106,6 +106,7 @@ Querier::Querier(Root* tree, DictMgmt *dict, TableStorage** files,
     }
 
 void Querier::initDiffIndex(DiffIndex *diff) {
+    cacheCards.clear();
     if (diff->getClass() == DiffIndex::DIFF3) {
         ((DiffIndex3*)diff)->setStorageStrat(&strat);
     } else {
@@ -133,144 +134,44 @@ char Querier::getStrategy(const int idx, const int64_t v) {
 
 uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64_t second,
         const int64_t third, bool skipLast) {
-    //Check if first element is variable
-    switch (idx) {
-        case IDX_SPO:
-        case IDX_SOP:
-            if (first < 0 && !skipLast)
-                return getInputSize();
-            break;
-        case IDX_POS:
-        case IDX_PSO:
-            if (second < 0 && !skipLast)
-                return getInputSize();
-            break;
-        case IDX_OPS:
-        case IDX_OSP:
-            if (third < 0 && !skipLast)
-                return getInputSize();
-            break;
-    }
-
-    PairItr *itr = getIterator(idx, first, second, third);
-    if (itr->getTypeItr() != EMPTY_ITR && itr->hasNext()) {
-        int countUnbound = 0;
-        if (first < 0) countUnbound++;
-        if (second < 0) countUnbound++;
-        if (third < 0) countUnbound++;
-        if (countUnbound >= 2) {
-            if (skipLast) {
-                itr->ignoreSecondColumn();
-                uint64_t card = itr->getCardinality();
-                releaseItr(itr);
-                return card;
-            } else {
-                int64_t nElements = 0;
-                int idx2 = idx;
-                if (idx2 > 2)
-                    idx2 -= 3;
-
-                if (! present[idx2]) {
-                    uint64_t card = itr->getCardinality();
-                    releaseItr(itr);
-                    return card;
-                }
-
-                releaseItr(itr);
-                if (lastKeyFound && currentValue.exists(idx2)) {
-                    nElements += currentValue.getNElements(idx2);
-                }
-
-                for (size_t i = 0; i < diffIndices.size(); ++i) {
-                    if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
-                        nElements += diffIndices[i]->getCard(idx2, lastKeyQueried);
-                    } else {
-                        nElements -= diffIndices[i]->getCard(idx2, lastKeyQueried);
-                    }
-                }
-                return nElements;
-            }
-        } else if (countUnbound == 1) {
-            uint64_t card;
-            if (skipLast) {
-                card = 1;
-            } else {
-                card = itr->getCardinality();
-            }
-            releaseItr(itr);
-            return card;
-        } else {
-            assert(countUnbound == 0);
-            releaseItr(itr);
-            return 1;
-        }
-    } else {
-        //No results
-        if (itr->getTypeItr() != EMPTY_ITR) {
-            releaseItr(itr);
-        }
-        return 0;
+    if (!skipLast) {
+        return getCard(first, second, third);
     }
+    //The number of different pairs of the first two columns
+    PairItr *itr = getIterator(idx, first < 0 ? -1 : first,
+            second < 0 ? -1 : second, third < 0 ? -1 : third);
+    return countFirstPairs(itr);
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o, uint8_t pos) {
-    if (s < 0 && p < 0 && o < 0) {
-        throw 10; //not supported
+    const int nbound = (s >= 0 ? 1 : 0) + (p >= 0 ? 1 : 0) + (o >= 0 ? 1 : 0);
+    if (nbound >= 2) {
+        //There is at most one variable, hence no duplicates
+        return getCard(s, p, o);
     }
-
-    //At least one variable is bound. Thus "pos" must refer to another one
-    int idx = getIndex(s, p, o);
-    PairItr *itr = getIterator(idx, s, p, o);
-    if (itr->getTypeItr() != EMPTY_ITR && itr->hasNext()) {
-        int countUnbound = 0;
-        if (s < 0) countUnbound++;
-        if (p < 0) countUnbound++;
-        if (o < 0) countUnbound++;
-        if (countUnbound == 0) {
-            releaseItr(itr);
-            return 1;
-        } else if (countUnbound == 1) {
-            uint64_t card = itr->getCardinality();
-            releaseItr(itr);
-            return card;
-        } else if (countUnbound == 2) {
-            //I must count the number of first columns
-            int idx2 = IDX_SPO;
-            if (s >= 0) {
-                if (pos == 2) {
-                    idx2 = IDX_SOP;
-                }
-            } else if (p >= 0) {
-                if (pos == 0) {
-                    idx2 = IDX_PSO;
-                } else {
-                    idx2 = IDX_POS;
-                }
-            } else { //o>= 0
-                assert(o >= 0);
-                if (pos == 0) {
-                    idx2 = IDX_OSP;
-                } else {
-                    idx2 = IDX_OPS;
-                }
-            }
-            if (idx != idx2) {
-                releaseItr(itr);
-                itr = getIterator(idx2, s, p, o);
-            }
-
-            itr->ignoreSecondColumn();
-            int64_t nElements = itr->getCardinality();
-            releaseItr(itr);
-            return nElements;
-        } else {
-            throw 10; //Should never happen
+    //"pos" refers to a variable
+    int idx;
+    if (nbound == 1) {
+        //I must count the number of first columns
+        if (s >= 0) {
+            idx = pos == 2 ? IDX_SOP : IDX_SPO;
+        } else if (p >= 0) {
+            idx = pos == 0 ? IDX_PSO : IDX_POS;
+        } else { //o>= 0
+            idx = pos == 0 ? IDX_OSP : IDX_OPS;
         }
-    } else {
-        if (itr->getTypeItr() != EMPTY_ITR)
-            releaseItr(itr);
-        return 0; //EMPTY_ITR. Join will fail...
+        PairItr *itr = getIterator(idx, s < 0 ? -1 : s, p < 0 ? -1 : p, o < 0 ? -1 : o);
+        return countFirstPairs(itr);
     }
+    //I must count the number of keys
+    PairItr *itr = getTermList(pos == 0 ? IDX_SPO : pos == 1 ? IDX_POS : IDX_OPS);
+    uint64_t card = 0;
+    while (itr->hasNext()) {
+        itr->next();
+        card++;
+    }
+    releaseItr(itr);
+    return card;
 }
 
 uint64_t Querier::isAggregated(const int idx, const int64_t first, const int64_t second,
@@ -399,22 +300,10 @@ uint64_t Querier::estCardOnIndex(const int idx, const int64_t first, const int64
         releaseItr(itr);
         return card;
     } else {
-        if (lastKeyQueried != key1) {
-            lastKeyFound = tree->get(key1, &currentValue);
-            lastKeyQueried = key1;
-        }
         int perm = idx;
         if (perm > 2)
             perm = perm - 3;
-
-        int64_t nElements = 0;
-        if (currentValue.exists(perm)) {
-            nElements += currentValue.getNElements(perm);
-        }
-        for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key1);
-        }
-        return nElements;
+        return getNElements(perm, key1);
     }
 }
 
@@ -450,51 +339,91 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
             key = o;
             // perm = IDX_OPS;
         }
-        if (lastKeyQueried != key) {
-            lastKeyFound = tree->get(key, &currentValue);
-            lastKeyQueried = key;
+        if (!present[perm] && (perm < 3 || !present[perm - 3])) {
+            return getCard(s, p, o);
         }
+        return getNElements(perm, key);
+    }
+    throw 10;
+}
 
-        int64_t nElements = 0;
-        if (currentValue.exists(perm)) {
-            nElements += currentValue.getNElements(perm);
+int64_t Querier::getNElements(const int idx, const int64_t key) {
+    if (lastKeyQueried != key) {
+        lastKeyFound = tree->get(key, &currentValue);
+        lastKeyQueried = key;
+    }
+    int64_t nElements = 0;
+    if (lastKeyFound) {
+        if (currentValue.exists(idx)) {
+            nElements += currentValue.getNElements(idx);
+        } else if (idx >= 3 && currentValue.exists(idx - 3)) {
+            //The table was skipped, because the other one has the same triples
+            nElements += currentValue.getNElements(idx - 3);
         }
-        for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key);
+    }
+    for (size_t i = 0; i < diffIndices.size(); ++i) {
+        if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+            nElements += diffIndices[i]->getCard(idx, key);
+        } else {
+            nElements -= diffIndices[i]->getCard(idx, key);
         }
-        return nElements;
     }
-    throw 10;
+    return nElements;
 }
 
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
+int64_t Querier::countTriples(PairItr *itr, const int nbound) {
+    uint64_t card = 0;
+    if (itr->getTypeItr() != EMPTY_ITR) {
+        if (diffIndices.empty() && nbound > 0) {
+            if (itr->hasNext()) {
+                itr->next();
+                card = nbound == 3 ? 1 : itr->getCardinality();
+            }
         } else {
-            return memoized->second;
+            //The statistics of the tables do not cover the updates
+            while (itr->hasNext()) {
+                itr->next();
+                card++;
+            }
+        }
+        releaseItr(itr);
+    }
+    return card;
+}
+
+uint64_t Querier::countFirstPairs(PairItr *itr) {
+    uint64_t card = 0;
+    if (itr->getTypeItr() != EMPTY_ITR) {
+        int64_t key = -1, v1 = -1;
+        while (itr->hasNext()) {
+            itr->next();
+            if (itr->getKey() != key || itr->getValue1() != v1) {
+                card++;
+                key = itr->getKey();
+                v1 = itr->getValue1();
+            }
         }
-    };
+        releaseItr(itr);
+    }
+    return card;
 }
 
-int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
+int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
-        return q->getInputSize();
+        return getInputSize();
+    }
+    //The result of previous calls is remembered until there is a new update
+    const auto pattern = std::make_tuple(s, p, o);
+    auto cached = cacheCards.find(pattern);
+    if (cached != cacheCards.end()) {
+        return cached->second;
     }
-    int idx = q->getIndex(s, p, o);
 
-    int countUnbound = 0;
-    if (s < 0) countUnbound++;
-    if (p < 0) countUnbound++;
-    if (o < 0) countUnbound++;
-    if (countUnbound == 2 && (q->isPresent(idx) || (idx >= 3 && q->isPresent(idx - 3)))) {
+    const int idx = getIndex(s, p, o);
+    const int nbound = (s >= 0 ? 1 : 0) + (p >= 0 ? 1 : 0) + (o >= 0 ? 1 : 0);
+    int64_t nElements = 0;
+    if (nbound == 1 && (present[idx] || (idx >= 3 && present[idx - 3]))) {
         //Get the key
         int64_t key;
         if (s >= 0)
@@ -503,43 +432,16 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             key = p;
         else
             key = o;
-        if (q->lastKeyQueried != key) {
-            q->lastKeyFound = q->tree->get(key, &q->currentValue);
-            q->lastKeyQueried = key;
-        }
-        int64_t nElements = 0;
-        if (q->lastKeyFound && q->currentValue.exists(idx)) {
-            nElements += q->currentValue.getNElements(idx);
-        }
-        for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
-        }
-        return nElements;
-    }
-
-    //Two or three constants, or idx not present
-    PairItr *itr = q->getIterator(idx, s, p, o);
-    if (itr->getTypeItr() != EMPTY_ITR && itr->hasNext()) {
-        if (countUnbound == 0) {
-            q->releaseItr(itr);
-            return 1;
-        }
-        itr->next();
-        uint64_t card = itr->getCardinality();
-        q->releaseItr(itr);
-        return card;
+        nElements = getNElements(idx, key);
     } else {
-        if (itr->getTypeItr() != EMPTY_ITR)
-            q->releaseItr(itr);
-        return 0; //EMPTY_ITR. Join will fail...
+        //Two or three constants, or idx not present
+        PairItr *itr = getIterator(idx, s < 0 ? -1 : s, p < 0 ? -1 : p, o < 0 ? -1 : o);
+        nElements = countTriples(itr, nbound);
     }
+    cacheCards[pattern] = nElements;
+    return nElements;
 }
 
-int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
-}
-
-
 //Check whether a triple exists
 bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
     int idx = getIndex(s, p, o);
-- 
2.43.0


From 6a32dd35862d71e714f32fe78fd8ab43fb405466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:11 +0000
Subject: [PATCH 135/147] fix: a store of which everything was removed is not
 reported as empty

---
 src/trident/kb/querier.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 4ca28ad..2318978 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -461,17 +461,7 @@ bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
 bool Querier::isEmpty(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
-        if (inputSize != 0) {
-            return false;
-        }
-        if (diffIndices.size() > 0) {
-            for (size_t i = 0; i < diffIndices.size(); ++i) {
-                if (diffIndices[i]->getSize() > 0) {
-                    return false;
-                }
-            }
-        }
-        return true;
+        return getInputSize() == 0;
     }
 
     int idx = getIndex(s, p, o);
-- 
2.43.0


From f6216d3b4fb405bb5a59545d7696e7e0f1d3f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:51 +0000
Subject: [PATCH 136/147] fix: a node whose keys form a sequence with a step
 forgets the step when it is changed, split or written

---
 src/trident/tree/node.cpp | 51 +++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index cfb881c..b26fda4 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -96,6 +96,8 @@ int Node::unserialize(char* bytes, int pos) {
     int size = Utils::decode_int(bytes, pos);
     setCurrentSize(size);
     pos += 4;
+    consecutive = true;
+    consecutiveStep = 1;
 
     if (size > 0) {
         firstKey = Utils::decode_long(bytes, pos);
@@ -137,8 +139,9 @@ int Node::serialize(char* bytes, int pos) {
         if (getCurrentSize() > 1) {
             // Check if we can make it consecutive
             uint8_t step = 0;
-            if (consecutive
-                    || (keys[0] == 1
+            if (consecutive) {
+                step = (uint8_t) consecutiveStep;
+            } else if ((keys[0] == 1
                         && keys[getCurrentSize() - 2]
                         == getCurrentSize() - 1)) {
                 step = 1;
@@ -225,12 +228,18 @@ void Node::split(Node *node) {
     currentSize = node->currentSize = context->getMinElementsPerNode();
 
     if (consecutive) {
-        node->firstKey = firstKey + currentSize;
+        node->firstKey = firstKey + (int64_t) currentSize * consecutiveStep;
         node->consecutive = true;
+        node->consecutiveStep = consecutiveStep;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
-                + 1 == currentSize) {
+        node->consecutiveStep = 1;
+        //The keys are not sorted if they are positions of strings
+        bool isSequence = true;
+        for (int i = 0; i < currentSize - 1 && isSequence; ++i) {
+            isSequence = keys[currentSize + i] - keys[currentSize + i - 1] == 1;
+        }
+        if (isSequence) {
             node->consecutive = true;
         } else {
             node->consecutive = false;
@@ -250,17 +259,22 @@ void Node::putkeyAt(nTerm key, int pos) {
         // Need to change the first key
         if (getCurrentSize() == 0) {
             firstKey = key;
+            consecutive = true;
+            consecutiveStep = 1;
         } else {
             if (consecutive) {
                 int64_t diff = firstKey - key;
 //              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
+                if (keys == NULL) {
+                    keys = context->getNodesKeyFactory()->get();
+                }
                 keys[0] = diff;
                 for (int i = 1; i < getCurrentSize(); ++i) {
-                    keys[i] = diff + i;
+                    keys[i] = diff + (int64_t) i * consecutiveStep;
                 }
                 firstKey = key;
                 consecutive = false;
+                consecutiveStep = 1;
             } else {
                 memmove(keys + 1, keys, sizeof(int64_t) * (currentSize - 1));
                 int64_t diff = firstKey - key;
@@ -274,14 +288,24 @@ void Node::putkeyAt(nTerm key, int pos) {
     } else {
         if (consecutive) {
             int64_t diff = key - firstKey;
-            if (pos != diff) {
+            if (getCurrentSize() == 1) {
+                consecutiveStep = 1;
+            }
+            if (pos != getCurrentSize() || (int64_t) pos * consecutiveStep != diff) {
                 consecutive = false;
 //              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
+                if (keys == NULL) {
+                    keys = context->getNodesKeyFactory()->get();
+                }
                 for (int i = 0; i < getCurrentSize() - 1; ++i) {
-                    keys[i] = i + 1;
+                    keys[i] = (int64_t) (i + 1) * consecutiveStep;
+                }
+                if (pos < getCurrentSize()) {
+                    memmove(keys + pos, keys + pos - 1,
+                            sizeof(int64_t) * (currentSize - pos));
                 }
                 keys[pos - 1] = diff;
+                consecutiveStep = 1;
             }
         } else {
             if (pos < getCurrentSize()) {
@@ -305,7 +329,7 @@ void Node::removeKeyAtPos(int pos) {
     if (getCurrentSize() > 1 && pos < getCurrentSize() - 1) {
         if (consecutive) {
             if (pos == 0) {
-                firstKey += 1;
+                firstKey += consecutiveStep;
             } else {
                 if (keys == NULL) {
 //                  keys = new int64_t[context->getMaxElementsPerNode() - 1];
@@ -313,12 +337,13 @@ void Node::removeKeyAtPos(int pos) {
                 }
                 // up to pos -1 fill keys with 1s
                 for (int i = 0; i < pos - 1; ++i) {
-                    keys[i] = i + 1;
+                    keys[i] = (int64_t) (i + 1) * consecutiveStep;
                 }
                 for (int i = pos - 1; i < getCurrentSize() - 2; ++i) {
-                    keys[i] = i + 2;
+                    keys[i] = (int64_t) (i + 2) * consecutiveStep;
                 }
                 consecutive = false;
+                consecutiveStep = 1;
             }
         } else {
             if (pos == 0) {
-- 
2.43.0


From 5c295b5328968f6a56444b039102f95a817fd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:51 +0000
Subject: [PATCH 137/147] fix: appending to a leaf that was read back from disk
 is lost

---
 src/trident/tree/leaf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 5fb3e51..bf7b158 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -467,11 +467,13 @@ Node *Leaf::put(tTerm *key, int sizeKey, nTerm value) {
 }
 
 Node *Leaf::append(tTerm *key, int sizeKey, nTerm value) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     return insertAtPosition(p, key, sizeKey, value);
 }
 
 Node *Leaf::append(nTerm key, int64_t coordinates) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     p = -p - 1;
     return insertAtPosition(p, key, coordinates);
-- 
2.43.0


From 6ed1d2ed660f0a2e48abbe8d88dba3694e14a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:51 +0000
Subject: [PATCH 138/147] fix: coordinates that are replaced keep permutations
 that the new ones do not have

---
 src/trident/tree/leaf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index bf7b158..b776f5a 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -599,11 +599,11 @@ Coordinates * Leaf::addCoordinates(Coordinates * list,
     Coordinates *current = list;
 
     for (uint8_t i = 0; i < N_PARTITIONS; ++i) {
+        while (current != NULL && current->permutation < i) {
+            prev = current;
+            current = current->next;
+        }
         if (value->exists(i)) {
-            while (current != NULL && current->permutation < i) {
-                prev = current;
-                current = current->next;
-            }
             if (current == NULL) {
                 current = getContext()->getIlFactory()->get();
                 if (prev != NULL) {
-- 
2.43.0


From 4d97aa4419f13dccf66f557301b1ee8a456aa845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:51 +0000
Subject: [PATCH 139/147] fix: the entries of a leaf are parsed from a file
 that may be no longer mapped

---
 include/trident/tree/leaf.h | 3 +++
 src/trident/tree/leaf.cpp   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/trident/tree/leaf.h b/include/trident/tree/leaf.h
index 313e548..ca84a49 100644
--- a/include/trident/tree/leaf.h
+++ b/include/trident/tree/leaf.h
@@ -23,6 +23,8 @@
 #ifndef LEAF_H_
 #define LEAF_H_
 
+#include <vector>
+
 #include <trident/tree/coordinates.h>
 #include <trident/tree/node.h>
 #include <trident/kb/consts.h>
@@ -40,6 +42,7 @@ using namespace std;
 class Leaf: public Node {
 private:
     char *rawNode;
+    std::vector<char> rawValues;
     Coordinates **detailPermutations1;
     Coordinates **detailPermutations2;
 
diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index b776f5a..f831647 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -159,7 +159,12 @@ int Leaf::unserialize_values(char *bytes, int pos, int previousSize) {
             > getContext()->getMinElementsPerNode() && detailPermutations2 == NULL) {
         detailPermutations2 = getContext()->getIlBufferFactory()->get();
     }
-    rawNode = bytes + pos;
+    //The entries are parsed when they are first used. By then, the file might
+    //be no longer mapped, or the buffer used for another node
+    const int sizeEntries = getCurrentSize() > 0
+        ? getCurrentSize() * 3 + Utils::decode_int(bytes, pos + getCurrentSize() * 3) : 0;
+    rawValues.assign(bytes + pos, bytes + pos + sizeEntries);
+    rawNode = rawValues.data();
 
     if (!getContext()->isReadOnly()) {
         //Unpack completely the node
-- 
2.43.0


From 26f20f391928e8f80cbe636999ac036c78acc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:04 +0000
Subject: [PATCH 140/147] fix: the last block of a string buffer is lost if it
 is full

---
 src/trident/tree/stringbuffer.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..d04a372 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -379,10 +379,8 @@ void StringBuffer::uncompressBlock(int b) {
     }
 
     char *uncompressedBuffer = factory.get();
-    int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
-        sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
-    }
+    int sizeUncompressed = (int) std::min((int64_t) SB_BLOCK_SIZE,
+                            uncompressedSize - (int64_t) b * SB_BLOCK_SIZE);
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
                             length, sizeUncompressed);
@@ -582,8 +580,7 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
-- 
2.43.0


From ad6812aca8a4945e4277f63e97a16ce130202852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:04 +0000
Subject: [PATCH 141/147] fix: closing a string buffer can wait forever for its
 compression thread

---
 include/trident/tree/stringbuffer.h |  8 --------
 src/trident/tree/stringbuffer.cpp   | 12 ++----------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/trident/tree/stringbuffer.h b/include/trident/tree/stringbuffer.h
index 2f956eb..6a2fe11 100644
--- a/include/trident/tree/stringbuffer.h
+++ b/include/trident/tree/stringbuffer.h
@@ -79,14 +79,6 @@ private:
     std::mutex _compressMutex;
     std::thread compressionThread;
 
-    //Used to check for termination
-    std::condition_variable compressTerm;
-    std::mutex _compressTerm;
-    bool threadRunning;
-    bool isThreadFinished() {
-        return !threadRunning;
-    }
-
     std::mutex sizeLock;
 
     int posBaseEntry;
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index d04a372..87a0b6c 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -85,7 +85,6 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         addCache(0);
 
         //Start a compression thread
-        threadRunning = true;
         compressionThread = std::thread(
                                 std::bind(&StringBuffer::compressBlocks, this));
     }
@@ -173,7 +172,6 @@ void StringBuffer::addCache(int idx) {
 }
 
 void StringBuffer::compressBlocks() {
-    threadRunning = true;
     const int maxSize = LZ4_compressBound(SB_BLOCK_SIZE);
     char *compressedBuffer = new char[maxSize];
     while (true) {
@@ -220,8 +218,6 @@ void StringBuffer::compressBlocks() {
         fileLock.unlock();
     }
     delete[] compressedBuffer;
-    threadRunning = false;
-    compressTerm.notify_one();
 }
 
 void StringBuffer::setCurrentAsBaseEntry(int size) {
@@ -588,14 +584,10 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
-        lock.unlock();
-
-        compressionThread.detach();
         bufferToCompress = FINISH_THREAD;
+        lock.unlock();
         compressWait.notify_one();
-
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0


From f05f05a07e3f9b598f82ea300e9e013981fa2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:26 +0000
Subject: [PATCH 142/147] fix: batches in one array are empty unless a filter
 is used

---
 src/trident/ml/batch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index a8c9498..b1a354a 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -392,7 +392,7 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
-        if (filter && shouldBeUsed(s,p,o)) {
+        if (!filter || shouldBeUsed(s,p,o)) {
             output[i*3] = s;
             output[i*3+1] = p;
             output[i*3+2] = o;
-- 
2.43.0


From 7290d86c4f13836ab2776171b36006c3c3b02b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:26 +0000
Subject: [PATCH 143/147] fix: the search for the triples of a query looks one
 triple too far

---
 src/trident/ml/batch.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index b1a354a..0787395 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -234,10 +234,10 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
 
     int64_t idxStartFirstTerm = -1;
     if (firstTerm != -1) {
-        idxStartFirstTerm = findFirstOccurrence(start, end, firstTerm, offset);
+        idxStartFirstTerm = findFirstOccurrence(start, end - 1, firstTerm, offset);
         if (idxStartFirstTerm != -1) {
             int64_t idxEndFirstTerm = findLastOccurrence(idxStartFirstTerm,
-                    end, firstTerm, offset);
+                    end - 1, firstTerm, offset);
             start = idxStartFirstTerm;
             if (idxEndFirstTerm < end)
                 end = idxEndFirstTerm + 1;
@@ -260,11 +260,11 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (secondTerm != -1) {
-            idxStartSecondTerm = findFirstOccurrence(start, end, secondTerm,
+            idxStartSecondTerm = findFirstOccurrence(start, end - 1, secondTerm,
                     offset);
             if (idxStartSecondTerm != -1) {
                 int64_t idxEndSecondTerm = findLastOccurrence(idxStartSecondTerm,
-                        end, secondTerm, offset);
+                        end - 1, secondTerm, offset);
                 start = idxStartSecondTerm;
                 if (idxEndSecondTerm < end)
                     end = idxEndSecondTerm + 1;
@@ -287,7 +287,7 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (thirdTerm != -1) {
-            int64_t idxStartThirdTerm = findFirstOccurrence(start, end, thirdTerm,
+            int64_t idxStartThirdTerm = findFirstOccurrence(start, end - 1, thirdTerm,
                     offset);
             if (idxStartThirdTerm != -1) {
                 start = idxStartThirdTerm;
-- 
2.43.0


From c8aa06fb1662ece1a8426ffc75bd128f0e37cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:56 +0000
Subject: [PATCH 144/147] fix: batches read from column tables take the first
 column from the wrong group

---
 include/trident/binarytables/newcolumntable.h | 24 ++++++++++++++++---
 src/trident/ml/batch.cpp                      |  3 +--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..6fcfc1d 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -489,9 +489,27 @@ class NewColumnTable: public AbsNewTable {
                     const uint64_t rowId,
                     uint64_t &v1,
                     uint64_t &v2) {
-                const char *currentpos1 = start + (nbytes1 + offset) * rowId;
-                v1 = Utils::decode_longFixedBytes(currentpos1, nbytes1);
-                const char *currentpos2 = start + (nbytes1 + offset) * sizetable +
+                //offset contains the number of bytes of the count (first four
+                //bits) and of the starting point (last four bits)
+                const uint8_t bytesCount = offset >> 4;
+                const uint8_t bytesStart = offset & 15;
+                const uint64_t bytesBlock = nbytes1 + bytesCount + bytesStart;
+                //Search the last group that does not start after rowId
+                uint64_t group = 0;
+                uint64_t endGroup = sizetable;
+                while (endGroup - group > 1) {
+                    const uint64_t middle = group + (endGroup - group) / 2;
+                    const uint64_t startGroup = Utils::decode_longFixedBytes(
+                            start + bytesBlock * middle + nbytes1 + bytesCount,
+                            bytesStart);
+                    if (startGroup <= rowId) {
+                        group = middle;
+                    } else {
+                        endGroup = middle;
+                    }
+                }
+                v1 = Utils::decode_longFixedBytes(start + bytesBlock * group, nbytes1);
+                const char *currentpos2 = start + bytesBlock * sizetable +
                     rowId * nbytes2;
                 v2 = Utils::decode_longFixedBytes(currentpos2, nbytes2);
             }
diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 0787395..acc87f9 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -549,10 +549,9 @@ void BatchCreator::KBBatch::populateCoordinates() {
             char header2 = info.buffer[1];
             const uint8_t bytesPerStartingPoint =  header2 & 7;
             const uint8_t bytesPerCount = (header2 >> 3) & 7;
-            const uint8_t remBytes = bytesPerCount + bytesPerStartingPoint;
             const uint8_t bytesPerFirstEntry = (header1 >> 3) & 7;
             const uint8_t bytesPerSecondEntry = (header1) & 7;
-            info.offset = remBytes;
+            info.offset = (bytesPerCount << 4) + bytesPerStartingPoint;
 
             //update the buffer
             int offset = 2;
-- 
2.43.0


From 843139f836ea574b70010ebb3fc5f40f5b167cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:56 +0000
Subject: [PATCH 145/147] fix: embeddings in a temporary file are mapped read
 only

---
 include/trident/ml/embeddings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index c6ffba7..00e43cd 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -124,7 +124,7 @@ class Embeddings {
                 LOG(DEBUGL) << "Resizing the file to " << rawsize << " bytes ...";
                 Utils::resizeFile(rawFilename, rawsize);
                 LOG(DEBUGL) << "Creating memory mapped file ...";
-                fraw = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(rawFilename, true, 0, rawsize));
+                fraw = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(rawFilename, false, 0, rawsize));
                 raw = (K*)fraw->getData();
             }
 
-- 
2.43.0


From 5788a44fb1fe32b9b0bcdd09b88600c1b7d90521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:56 +0000
Subject: [PATCH 146/147] fix: initialising fewer embeddings than threads never
 ends

---
 include/trident/ml/embeddings.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index 00e43cd..fa2027b 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -238,6 +238,9 @@ class Embeddings {
             K max = 6.0 / sqrt(n + dim);
             if (nthreads > 1) {
                 uint64_t batchPerThread = n / nthreads;
+                if (batchPerThread == 0) {
+                    batchPerThread = 1;
+                }
                 std::vector<std::thread> threads;
                 K* begin = raw;
                 K* end = raw + n * dim;
-- 
2.43.0


From acd429eb68212b5fc4dad9c7f48f8a7ce2885c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:21 +0000
Subject: [PATCH 147/147] fix: reading the last batch triple reads beyond the
 end of the file

---
 src/trident/ml/batch.cpp | 48 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index acc87f9..ee45d3a 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -2,6 +2,7 @@
 #include <trident/kb/kb.h>
 #include <trident/kb/querier.h>
 
+#include <cstring>
 #include <fstream>
 #include <algorithm>
 #include <random>
@@ -152,21 +153,28 @@ void BatchCreator::createInputForBatch(bool createTraining,
     LOG(INFOL) << "Done";
 }
 
+//The file ends with the last number, so no more than five bytes can be read
+static int64_t read5(const char *p) {
+    int64_t v = 0;
+    memcpy(&v, p, 5);
+    return v;
+}
+
 struct _pso {
     const char *rawtriples;
     _pso(const char *rawtriples) : rawtriples(rawtriples) {}
     bool operator() (const uint64_t idx1, const uint64_t idx2) const {
-        int64_t s1 = *(int64_t*)(rawtriples + idx1 * 15);
+        int64_t s1 = read5(rawtriples + idx1 * 15);
         s1 = s1 & 0xFFFFFFFFFFl;
-        int64_t p1 = *(int64_t*)(rawtriples + idx1 * 15 + 5);
+        int64_t p1 = read5(rawtriples + idx1 * 15 + 5);
         p1 = p1 & 0xFFFFFFFFFFl;
-        int64_t o1 = *(int64_t*)(rawtriples + idx1 * 15 + 10);
+        int64_t o1 = read5(rawtriples + idx1 * 15 + 10);
         o1 = o1 & 0xFFFFFFFFFFl;
-        int64_t s2 = *(int64_t*)(rawtriples + idx2 * 15);
+        int64_t s2 = read5(rawtriples + idx2 * 15);
         s2 = s2 & 0xFFFFFFFFFFl;
-        int64_t p2 = *(int64_t*)(rawtriples + idx2 * 15 + 5);
+        int64_t p2 = read5(rawtriples + idx2 * 15 + 5);
         p2 = p2 & 0xFFFFFFFFFFl;
-        int64_t o2 = *(int64_t*)(rawtriples + idx2 * 15 + 10);
+        int64_t o2 = read5(rawtriples + idx2 * 15 + 10);
         o2 = o2 & 0xFFFFFFFFFFl;
         if (p1 != p2) {
             return p1 < p2;
@@ -182,7 +190,7 @@ int64_t BatchCreator::findFirstOccurrence(int64_t start, int64_t end, uint64_t x
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
+        int64_t term = read5(rawtriples + middle * 15 + offset);
         term = term & 0xFFFFFFFFFFl;
         if (term < x) {
             start = middle + 1;
@@ -200,7 +208,7 @@ int64_t BatchCreator::findLastOccurrence(int64_t start, int64_t end, uint64_t x,
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
+        int64_t term = read5(rawtriples + middle * 15 + offset);
         term = term & 0xFFFFFFFFFFl;
         if (term < x) {
             start = middle + 1;
@@ -383,11 +391,11 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t*)(rawtriples + idx * 15);
+            s = read5(rawtriples + idx * 15);
             s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t*)(rawtriples + idx * 15 + 5);
+            p = read5(rawtriples + idx * 15 + 5);
             p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t*)(rawtriples + idx * 15 + 10);
+            o = read5(rawtriples + idx * 15 + 10);
             o = o & 0xFFFFFFFFFFl;
         } else {
             kbbatch->getAt(idx, s, p, o);
@@ -425,11 +433,11 @@ bool BatchCreator::getBatchNr(uint64_t nr, std::vector<uint64_t> &output1,
         int64_t idx = indices[cidx];
         uint64_t s, p, o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
+            s = read5(rawtriples + idx * 15);
             s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
+            p = read5(rawtriples + idx * 15 + 5);
             p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
+            o = read5(rawtriples + idx * 15 + 10);
             o = o & 0xFFFFFFFFFFl;
         } else {
             kbbatch->getAt(idx, s, p, o);
@@ -463,11 +471,11 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output1,
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
+            s = read5(rawtriples + idx * 15);
             s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
+            p = read5(rawtriples + idx * 15 + 5);
             p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
+            o = read5(rawtriples + idx * 15 + 10);
             o = o & 0xFFFFFFFFFFl;
         } else {
             kbbatch->getAt(idx, s, p, o);
@@ -493,11 +501,11 @@ void BatchCreator::loadTriples(string path, std::vector<uint64_t> &output) {
     char *start = mf.getData();
     char *end = start + mf.getLength();
     while (start < end) {
-        int64_t s = *(int64_t*)(start);
+        int64_t s = read5(start);
         s = s & 0xFFFFFFFFFFl;
-        int64_t p = *(int64_t*)(start + 5);
+        int64_t p = read5(start + 5);
         p = p & 0xFFFFFFFFFFl;
-        int64_t o = *(int64_t*)(start + 10);
+        int64_t o = read5(start + 10);
         o = o & 0xFFFFFFFFFFl;
         output.push_back(s);
         output.push_back(p);
-- 
2.43.0

